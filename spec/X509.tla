-------------------------------- MODULE X509 --------------------------------
(* The format check of a certificate chain: a sequence of DER encoded X.509 v3 certificates, nothing before, between or
   after them, the last one (the leaf) signed with the negotiated algorithm.

   A certificate:  SEQ { TBS: SEQ { [0] { INT 2 }, serial, SEQ { OID .. }, SEQ issuer, SEQ validity, SEQ subject, SEQ key, .. },
                         SEQ { OID .. }, signature }
   Certs(b, a, nest) walks such a sequence in the bytes b; with nest the parts of a certificate must stay inside the part that
   holds them and lengths have at most eight octets, without it parts need only stay inside b.  A chain that passes both has to be accepted, one that passes neither has to be refused,
   one that passes only the second may be either.                                                                            *)
EXTENDS Integers, Sequences
Huge == 16777216
Fail == [ok |-> FALSE, tag |-> 0, body |-> 0, next |-> 0]
\* the length field at position i (1-based), at most so many octets long, data ending before e: <<ok, length, position after it>>
Length(b, i, e, most) ==
  IF i >= e THEN <<FALSE, 0, 0>>
  ELSE IF b[i] < 128 THEN <<TRUE, b[i], i + 1>>
  ELSE LET n == b[i] - 128 IN
    IF n = 0 \/ n > most \/ i + n >= e THEN <<FALSE, 0, 0>>
    ELSE LET V[j \in 0..n] == IF j = 0 THEN 0 ELSE LET v == V[j-1] IN IF v >= 65536 THEN Huge ELSE 256 * v + b[i + j] IN <<TRUE, V[n], i + n + 1>>
\* the element at i: its tag, where its body begins, where the next element begins
Tlv(b, i, e, nest) ==
  IF i >= e THEN Fail
  ELSE LET l == Length(b, i + 1, e, IF nest THEN 8 ELSE 127) IN
       IF ~l[1] \/ l[3] + l[2] > e THEN Fail ELSE [ok |-> TRUE, tag |-> b[i], body |-> l[3], next |-> l[3] + l[2]]
SEQT == 48  OIDT == 6  INTT == 2  CTX0 == 160
Group(b, i, e, nest) == LET t == Tlv(b, i, e, nest) IN IF t.ok /\ t.tag = SEQT THEN t ELSE Fail
Rsa == <<42, 134, 72, 134, 247, 13, 1, 1>>
Ecd == <<42, 134, 72, 206, 61, 4, 3>>
\* the object identifier a leaf's signature must carry under the negotiated algorithm (<<>>: any)
OidOf(a) == CASE a \in {1, 2} -> Rsa \o <<11>> [] a \in {4, 8} -> Rsa \o <<12>> [] a \in {32, 64} -> Rsa \o <<13>>
              [] a = 16 -> Ecd \o <<2>> [] a = 128 -> Ecd \o <<3>> [] OTHER -> <<>>
\* an algorithm identifier at i: position after it, or 0.  Its identifier must be want, if there is one to be wanted
AlgId(b, i, e, want, nest) ==
  LET s == Group(b, i, e, nest) IN
  IF ~s.ok THEN 0
  ELSE LET o == Tlv(b, s.body, IF nest THEN s.next ELSE e, nest) IN
       IF ~o.ok \/ o.tag # OIDT \/ b[s.body + 1] >= 128 THEN 0
       ELSE IF want # <<>> /\ SubSeq(b, o.body, o.next - 1) # want THEN 0 ELSE s.next
\* n elements from i on, all sequences: position after them, or 0
RECURSIVE Skip(_, _, _, _, _)
Skip(b, i, e, n, nest) == IF n = 0 THEN i ELSE LET s == Group(b, i, e, nest) IN IF s.ok THEN Skip(b, s.next, e, n - 1, nest) ELSE 0
Version(b, i, e) == i + 4 < e /\ SubSeq(b, i, i + 4) = <<CTX0, 3, INTT, 1, 2>>
\* position after the certificate at i, or 0
Cert(b, i, a, nest) ==
  LET end == Len(b) + 1 c == Group(b, i, end, nest) IN
  IF ~c.ok THEN 0
  ELSE LET want == IF c.next = end THEN OidOf(a) ELSE <<>>
           ce == IF nest THEN c.next ELSE end
           t == Group(b, c.body, ce, nest) IN
    IF ~t.ok THEN 0
    ELSE LET te == IF nest THEN t.next ELSE end IN
      IF ~Version(b, t.body, te) THEN 0
      ELSE LET sn == Tlv(b, t.body + 5, te, nest) IN
        IF ~sn.ok THEN 0
        ELSE LET p1 == AlgId(b, sn.next, te, want, nest) IN
          IF p1 = 0 THEN 0
          ELSE IF Skip(b, p1, te, 4, nest) = 0 THEN 0
          ELSE LET p2 == AlgId(b, t.next, ce, want, nest) IN
            IF p2 = 0 THEN 0
            ELSE LET sig == Tlv(b, p2, ce, nest) IN IF sig.ok /\ sig.next = c.next THEN c.next ELSE 0
\* the number of certificates, or -1
RECURSIVE Certs(_, _, _, _, _)
Certs(b, i, a, nest, n) == IF i = Len(b) + 1 THEN n ELSE LET j == Cert(b, i, a, nest) IN IF j = 0 THEN -1 ELSE Certs(b, j, a, nest, n + 1)

JudgeCert(e) ==
  IF e.ret \notin {"ok", "err"} THEN {"C26.panic", "C17.panic"}
  ELSE LET loose == Certs(e.b, 1, e.algo, FALSE, 0) IN
    IF e.ret = "ok" THEN (IF loose = -1 THEN {"C26.accepted"} ELSE IF e.n # loose THEN {"C26.count"} ELSE {})
    ELSE IF loose # -1 /\ Certs(e.b, 1, e.algo, TRUE, 0) # -1 THEN {"C26.refused"} ELSE {}
=============================================================================
