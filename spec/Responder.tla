----------------------------- MODULE Responder -----------------------------
(* The responder: its state, which request it may serve in which state, what a served request must be answered
   with, and what every outcome does to the state.

   C   the provisioned configuration          st  the state            e  one exchange: the frame that came in (e.q),
   the frames that went out (e.o), device and crypto faults injected, the calls the application handlers saw.
   Outcome(C, st, e) = [l |-> labels of violated obligations, st |-> state afterwards].

   Transcripts whose content an earlier failure leaves open (BC, M, F) are SETS of the possible contents; a later
   signature that is checked against them narrows the set again.                                                  *)
EXTENDS SpdmBase

NoNeg == [ver |-> 16, rqc |-> {}, rsc |-> {}, rqct |-> 0, rsct |-> 0, mspec |-> 0, mhash |-> 0, hash |-> 0, asym |-> 0,
          dhe |-> 0, aead |-> 0, rasym |-> 0, ks |-> 0, opq |-> 0, rqdts |-> 0, rqmax |-> 0]
NoPeer == [i \in 0..7 |-> ""]
NoTemp == [t |-> "-", z |-> 0]                      \* partially retrieved requester chain: its bytes, its announced size
InitSt == [ph |-> 0, n |-> NoNeg, A |-> "", BC |-> {""}, M |-> {""}, sess |-> <<>>, peer |-> NoPeer,
           temp |-> {NoTemp}, last |-> "", used |-> {}]
MaxSess == 4

Both(n, b) == b \in n.rqc /\ b \in n.rsc
Clear(n) == Both(n, cCLEAR)
HasMeas(n) == {sMEASNS, sMEASSIG} \cap n.rsc # {}
Provisioned(C, s) == s \in Rng(C.slots)
ChainHash(C, n, s) == C.ch[ToString(s)][ToString(n.hash)]
Chain(C, n, s) == C.chain[ToString(s)][ToString(n.hash)]
PeerOK(C, n, c) == c # "" /\ c \in DOMAIN C.qch /\ C.qch[c].ok[ToString(n.hash)]
PeerHash(C, n, c) == C.qch[c].h[ToString(n.hash)]
D(C, st, s) == DigOf(C, st.n.hash, s)

\* ------------------------------------------------------------------ verdicts
Ok == [w |-> "ok", c |-> {}, p |-> {}]
May(c) == [w |-> "any", c |-> c, p |-> {}]
No(c, p) == [w |-> "no", c |-> c, p |-> p]
Usual == {EInvalid, EUnexpected, EUnspecified, EUnsupported, EVersion}
Refused(p) == No(Usual, p)

MsOK(n, ms) == ms = 0 \/ (ms \in {1, 255} /\ HasMeas(n))
SumHash(C, n, ms) == IF ms \in {1, 255} /\ n.hash # 0 THEN C.msum[ToString(n.hash)][ToString(ms)] ELSE ""
MeasIdx(C, mop) == IF mop = 0 THEN <<>> ELSE IF mop = 255 THEN [i \in 1..C.nmeas |-> i] ELSE <<mop>>
MeasRec(C, mop) == LET ix == MeasIdx(C, mop) IN Concat([i \in 1..Len(ix) |-> C.blocks[ix[i]]])
SecVers(C, d) == IF d.oplist THEN Rng(d.opvers) \cap Rng(C.secver) ELSE {}
OpLen(C, n, d) == IF SecVers(C, d) = {} THEN 0 ELSE IF n.ver >= 18 THEN 12 ELSE 16

\* The algorithm structures of NEGOTIATE_ALGORITHMS
StructsOK(d) ==
  /\ d.cnt <= 4 /\ Len(d.st) = d.cnt
  /\ \A i \in 1..d.cnt : d.st[i].n = 32 /\ d.st[i].t \in 2..5 /\ (i > 1 => d.st[i].t > d.st[i-1].t)
NegOK(n, d) ==
  /\ d.wf /\ d.exta = 0 /\ d.exth = 0
  /\ IF n.ver >= 17 THEN StructsOK(d) /\ d.len = 32 + 4 * d.cnt ELSE d.len = 32
  /\ (n.ver >= 18 => Rng(d.opq) \subseteq {1})
Offered(d, t) == UNION {Rng(d.st[i].a) : i \in {j \in 1..Len(d.st) : d.st[j].t = t}}

\* Requests outside a session
VerdictPlain(C, st, d) == LET n == st.n IN
  IF d.op = -1 THEN Refused({"C19"})
  ELSE IF d.op = VERSION THEN IF ~d.wf THEN No({EInvalid, EVersion}, {"C03", "C19"})
                         ELSE IF d.ver # 16 THEN No({EVersion}, {"C02", "C03"}) ELSE Ok
  ELSE IF d.op = CAPS THEN
      IF st.ph # 1 THEN No({EUnexpected} \cup Sel(d.wf /\ d.ver \in Rng(C.vers), {}, {EInvalid, EVersion}), {"C01", "C19"})
      ELSE IF d.ver \notin Rng(C.vers) THEN No({EVersion, EInvalid}, {"C02"})
      ELSE IF ~d.wf THEN No({EInvalid}, {"C04", "C19"})
      ELSE IF ~ReqCapsOK(d.ver, Rng(d.flags), d.dts, d.max) THEN No({EInvalid}, {"C04"})
      ELSE Ok
  ELSE IF d.op = ALGS THEN
      IF st.ph # 2 THEN No({EUnexpected} \cup Sel(d.wf /\ d.ver = n.ver, {}, {EInvalid, EVersion}), {"C01", "C19"})
      ELSE IF d.ver # n.ver THEN No({EVersion}, {"C02"})
      ELSE IF ~NegOK(n, d) THEN No({EInvalid}, {"C04"})
      ELSE IF Rng(d.hash) \cap Rng(C.hash) = {} THEN May(Usual)
      ELSE Ok
  ELSE IF d.op \in {DIGESTS, CERT, CHALL, MEAS, KEX, PSKX} THEN
      IF st.ph < 3 THEN No({EUnexpected} \cup Sel(d.wf /\ d.ver = n.ver, {}, {EInvalid, EVersion, EUnsupported}), {"C01", "C19"})
      ELSE IF d.ver # n.ver THEN No({EVersion} \cup Sel(d.wf, {}, {EInvalid}), {"C02"})
      ELSE IF d.op \in {KEX, PSKX} /\ n.ver < 17 THEN Refused({"C01"})
      ELSE IF ~d.wf THEN No({EInvalid} \cup Sel(n.asym = 0 \/ n.dhe = 0 \/ n.aead = 0, {EUnsupported}, {}), {"C19"})
      ELSE IF n.hash = 0 THEN May(Usual)
      ELSE IF d.op = DIGESTS THEN Ok
      ELSE IF d.op = CERT THEN
          IF ~Provisioned(C, d.slot) THEN No({EInvalid}, {"C12"})
          ELSE IF d.off > Blen(Chain(C, n, d.slot)) THEN No({EInvalid}, {"C12"})
          ELSE Ok
      ELSE IF d.op = CHALL THEN
          IF ~MsOK(n, d.ms) \/ ~Provisioned(C, d.slot) THEN No(Sel(n.asym = 0, Usual, {EInvalid}), {"C10"})
          ELSE IF n.asym = 0 \/ n.ver < 18 \/ sCHAL \notin n.rsc THEN May(Usual)
          ELSE Ok
      ELSE IF d.op = MEAS THEN
          IF (0 \in Rng(d.atb) /\ ~Provisioned(C, d.slot)) \/ (d.mop \notin {0, 255} /\ d.mop > C.nmeas)
          THEN No(Sel(n.asym = 0, Usual, {EInvalid}), {"C11"})
          ELSE IF ~(Rng(d.atb) \subseteq 0..1) THEN May(Usual)
          ELSE IF (0 \in Rng(d.atb) /\ (n.asym = 0 \/ n.ver < 18 \/ sMEASSIG \notin n.rsc)) \/ ~HasMeas(n) \/ n.mspec = 0 THEN May(Usual)
          ELSE Ok
      ELSE IF ~MsOK(n, d.ms) THEN No({EInvalid}, {"C06"})
      ELSE IF d.op = KEX /\ ~Provisioned(C, d.slot) THEN No({EInvalid}, {"C12"})
      ELSE IF Cardinality(DOMAIN st.sess) >= MaxSess THEN No({ELimit, EUnspecified, EInvalid}, {"C09"})
      ELSE IF n.aead = 0 \/ (d.oplist /\ -1 \in Rng(d.opvers)) THEN May(Usual)
      ELSE IF d.op = KEX /\ (n.dhe = 0 \/ n.asym = 0 \/ n.ver < 18 \/ ~Both(n, cKEX)) THEN May(Usual)
      ELSE IF d.op = PSKX /\ ({cPSK, cPSKX} \cap n.rsc = {} \/ cPSK \notin n.rqc) THEN May(Usual)
      ELSE Ok
  ELSE IF d.op = FIN THEN
      IF ~Clear(n) \/ st.last \notin DOMAIN st.sess THEN No({EUnexpected, EVersion, EInvalid}, {"C01", "C05", "C19"})
      ELSE IF st.sess[st.last].est THEN No({EUnexpected, EVersion, EInvalid}, {"C01", "C05", "C19"})
      ELSE [w |-> "fin", c |-> {}, p |-> {}]
  ELSE IF d.op = VEND THEN
      IF d.ver # n.ver /\ st.ph >= 2 THEN May({EVersion})
      ELSE IF ~d.wf THEN No({EInvalid, EVersion}, {"C15", "C19"})
      ELSE [w |-> "vend", c |-> {}, p |-> {}]
  ELSE IF d.op \in {PSKF, HBEAT, KUPD, ENDS} THEN No({EUnexpected, EVersion, EInvalid, ESessReq}, {"C01", "C05", "C19"})
  ELSE IF d.op \in {ENCREQ, ENCDEL} THEN No(Usual \cup {ESessReq}, {"C01", "C14", "C19"})
  ELSE Refused({"C01", "C19"})

\* FINISH and PSK_FINISH for session sid; the possible contents of the finish transcript that make it correct
QHash(C, st, x) == IF x.mut THEN PeerHash(C, st.n, st.peer[0]) ELSE ""
FinOK(C, st, x, q, f, alg) == LET n == st.n d == q.d h0 == f \o Hex(q.m, 4) qh == QHash(C, st, x) fk == FinKey(n.hash, n.ver, x.hsq) IN
  /\ (x.mut => d.sigt = Sig(C.qch[st.peer[0]].tag, n.hash, alg, CtxFin, D(C, st, st.A \o x.rch \o x.K \o qh \o h0)))
  /\ d.vdt = Mac(n.hash, fk, D(C, st, st.A \o x.rch \o x.K \o qh \o h0 \o d.sig))
FinFsA(C, st, x, q, alg) == IF x.mut /\ ~PeerOK(C, st.n, st.peer[0]) THEN {} ELSE {f \in x.F : FinOK(C, st, x, q, f, alg)}
FinFs(C, st, x, q) == FinFsA(C, st, x, q, st.n.rasym)
\* correct but for the algorithm: signed with the one negotiated for the responder's signatures
OtherAlg(C, st, x, q) == x.mut /\ ~x.psk /\ st.n.rasym # st.n.asym /\ q.d.wf /\ FinFs(C, st, x, q) = {} /\ FinFsA(C, st, x, q, st.n.asym) # {}
PskFs(C, st, x, q) == LET n == st.n d == q.d IN
  {f \in x.F : d.vdt = Mac(n.hash, FinKey(n.hash, n.ver, x.hsq), D(C, st, st.A \o x.K \o f \o Hex(q.m, 4)))}
VerdictFin(C, st, x, q) == LET d == q.d n == st.n IN
  IF d.ver # n.ver THEN No({EVersion}, {"C02", "C05"})
  ELSE IF ~d.wf THEN No({EInvalid}, {"C05", "C19"})
  ELSE IF x.psk THEN No({EInvalid, EUnexpected, EDecrypt}, {"C05", "C20"})
  ELSE IF x.mut # (0 \in Rng(d.atb)) THEN No({EInvalid, EDecrypt}, Sel(x.mut, {"C05", "C14"}, {"C05"}))
  ELSE IF FinFs(C, st, x, q) = {} THEN No({EDecrypt, EInvalid, EUnspecified}, Sel(x.mut, {"C05", "C14"}, {"C05"}))
  ELSE IF Cardinality(x.F) > 1 THEN May(Usual \cup {EDecrypt})
  ELSE Ok
VerdictPskFin(C, st, x, q) == LET d == q.d n == st.n IN
  IF d.ver # n.ver THEN No({EVersion}, {"C02", "C05"})
  ELSE IF ~d.wf THEN No({EInvalid}, {"C05", "C19"})
  ELSE IF ~x.psk THEN No({EInvalid, EUnexpected, EDecrypt}, {"C05", "C20"})
  ELSE IF PskFs(C, st, x, q) = {} THEN No({EDecrypt, EInvalid, EUnspecified}, {"C05", "C20"})
  ELSE IF Cardinality(x.F) > 1 THEN May(Usual \cup {EDecrypt})
  ELSE Ok

\* The requester chain that is being retrieved; certificate portion r (decoded) continues it correctly
PortionOK(t, r) ==
  /\ t.t # "-" /\ r.slot = 0 /\ r.plen <= 512
  /\ LET off == Blen(t.t) IN
       /\ off + r.plen + r.rem <= 4096
       /\ (off > 0 => off + r.plen + r.rem = t.z)
Extended(t, r) == [t |-> t.t \o r.data, z |-> Sel(t.t = "", r.plen + r.rem, t.z)]
\* the partial chains this portion may be appended to
Fits(C, n, st, r) == {t \in st.temp : PortionOK(t, r) /\ (r.rem = 0 => PeerOK(C, n, t.t \o r.data))}
VerdictEncap(C, st, q) == LET d == q.d n == st.n IN
  IF ~Both(n, cENCAP) \/ n.ver < 17 THEN No({EUnsupported, EUnexpected, EInvRsp, EVersion}, {"C14", "C19"})
  ELSE IF st.ph < 5 THEN No({EUnexpected, EVersion, EInvalid}, {"C01", "C14", "C19"})
  ELSE IF d.ver # n.ver THEN No({EVersion}, {"C02", "C14"})
  ELSE IF ~d.wf THEN IF d.op = ENCREQ THEN May({EInvalid}) ELSE No({EInvalid}, {"C14", "C19"})
  ELSE IF d.op = ENCREQ THEN Ok
  ELSE LET r == d.inn bad == No({EInvRsp, EInvalid}, {"C14"}) IN
    IF r.op \notin {1, 2} \/ ~r.wf \/ r.ver # n.ver THEN Sel(r.op = ERROR /\ r.p1 = ENotReady, May({EInvRsp}), bad)
    ELSE IF r.op = 1 THEN Ok
    ELSE IF Fits(C, n, st, r) = {} THEN bad
    ELSE IF r.plen = 0 \/ Fits(C, n, st, r) # st.temp \/ (\E t \in st.temp : Blen(t.t) + r.plen + r.rem > 4095) THEN May({EInvRsp, EInvalid})
    ELSE Ok

\* Requests inside a session
VerdictSess(C, st, x, q) == LET d == q.d n == st.n IN
  IF ~x.est THEN
      IF Clear(n) /\ ~x.psk THEN Refused({"C05"})
      ELSE IF d.op = FIN THEN VerdictFin(C, st, x, q)
      ELSE IF d.op = PSKF THEN VerdictPskFin(C, st, x, q)
      ELSE IF d.op \in {ENCREQ, ENCDEL} THEN VerdictEncap(C, st, q)
      ELSE IF d.op = VEND THEN VerdictPlain(C, st, d)
      ELSE IF d.op \in {KUPD, HBEAT, ENDS} THEN Refused({"C01", "C05", "C19"})
      ELSE Refused({"C01", "C19"})
  ELSE
      IF d.op \in {DIGESTS, CERT, MEAS, VEND} THEN VerdictPlain(C, st, d)
      ELSE IF d.op \in {HBEAT, KUPD, ENDS} THEN
          IF d.ver # n.ver THEN No({EVersion}, {"C02"})
          ELSE IF ~d.wf THEN No({EInvalid}, {"C19"})
          ELSE IF d.op = HBEAT /\ ~Both(n, cHB) THEN May(Usual)
          ELSE IF d.op = ENDS /\ d.attr > 1 THEN May(Usual)
          ELSE IF d.op = KUPD THEN IF d.kop \notin 1..3 THEN No({EInvalid}, {"C08"})
                                   ELSE IF ~Both(n, cKUPD) THEN May(Usual) ELSE Ok
          ELSE Ok
      ELSE IF d.op \in {FIN, PSKF} THEN Refused({"C01", "C05", "C19"})
      ELSE Refused({"C01", "C19"})

\* ------------------------------------------------------------------ what requests do to the transcripts
DropM(st, sid) == IF sid = "" THEN [st EXCEPT !.M = {""}]
                  ELSE IF sid \in DOMAIN st.sess THEN [st EXCEPT !.sess[sid].M = {""}] ELSE st
OrM(st, sid) == IF sid = "" THEN [st EXCEPT !.M = @ \cup {""}]
                ELSE IF sid \in DOMAIN st.sess THEN [st EXCEPT !.sess[sid].M = @ \cup {""}] ELSE st
ClearsBC == {MEAS, KEX, FIN, PSKX, PSKF, KUPD, HBEAT, ENDS}
\* an accepted request of this kind
Resets(st, sid, op) ==
  LET a == IF op # MEAS THEN DropM(st, sid) ELSE st
      b == IF op \in ClearsBC /\ st.ph < 6 THEN [a EXCEPT !.BC = {""}]
           ELSE IF op = DIGESTS /\ sid = "" THEN [a EXCEPT !.BC = {""}]
           ELSE IF op = DIGESTS THEN [a EXCEPT !.BC = @ \cup {""}] ELSE a
  IN b
\* a refused one: its resets may or may not have happened
RefusedResets(st, sid, op) ==
  LET a == OrM(st, sid)
      b == IF (op \in ClearsBC /\ st.ph < 6) \/ op \in {DIGESTS, CHALL} THEN [a EXCEPT !.BC = @ \cup {""}] ELSE a
  IN b
\* the finish transcript after a finish message that did not succeed
SoilF(x, q) == LET d == q.d h == Hex(q.m, 4) IN
  IF q.d.op \notin {FIN, PSKF} \/ x.est THEN x
  ELSE [x EXCEPT !.F = @ \cup {f \o h : f \in @} \cup {f \o h \o d.sig : f \in @} \cup {f \o h \o d.sig \o d.vd : f \in @}]

NewSess(psk, mut, slot, rch, K, hsq, hss, root, ms, hb, secver) ==
  [est |-> FALSE, psk |-> psk, mut |-> mut, slot |-> slot, rch |-> rch, K |-> K, F |-> {""}, M |-> {""},
   hsq |-> hsq, hss |-> hss, root |-> root, ms |-> ms, Sq |-> hsq, Ss |-> hss, nq |-> 0, ns |-> 0, hb |-> hb, secver |-> secver, unk |-> FALSE, alt |-> {}]
Establish(C, st, x, f, qh) == LET n == st.n th2 == D(C, st, st.A \o x.rch \o x.K \o qh \o f) IN
  [x EXCEPT !.est = TRUE, !.F = {f}, !.Sq = AppSecret(n.hash, n.ver, x.ms, "q", th2), !.Ss = AppSecret(n.hash, n.ver, x.ms, "s", th2), !.nq = 0, !.ns = 0, !.alt = {}]

\* ------------------------------------------------------------------ success responses
Fresh(st, e, v) == v # "" /\ v \in Rng(e.rands) /\ v \notin st.used
Use(st, s) == [st EXCEPT !.used = @ \cup s]
R0(l, st) == [l |-> l, st |-> st]

OkVersion(C, st, q, o, e) ==
  R0(L(Rng(o.d.vers) = Rng(C.vers), "C02.versions") \cup L(Len(o.d.vers) = Cardinality(Rng(o.d.vers)) \/ Len(C.vers) # Cardinality(Rng(C.vers)), "C02.versions"),
     [InitSt EXCEPT !.ph = 1, !.A = Hex(q.m, 4) \o o.m, !.used = st.used])
OkCaps(C, st, q, o, e) == LET d == q.d r == o.d v == d.ver
    n == [NoNeg EXCEPT !.ver = v, !.rqc = Rng(d.flags), !.rsc = Rng(C.rspcaps), !.rqct = d.ct, !.rsct = C.rsct,
                       !.rqdts = Sel(v >= 18, d.dts, 0), !.rqmax = Sel(v >= 18, d.max, 0)] IN
  R0(L(Rng(r.flags) = Rng(C.rspcaps), "C04.caps") \cup L(r.ct = C.rsct, "C04.caps") \cup L(v >= 18 => r.dts = C.dts /\ r.max = C.max, "C04.sizes"),
     [st EXCEPT !.ph = 2, !.n = n, !.A = @ \o Hex(q.m, d.used) \o o.m])
Pick(sel, off, sup) == LET i == off \cap sup IN Len(sel) <= 1 /\ Rng(sel) \subseteq i /\ (i # {} => Len(sel) = 1)
StSel(r, t) == LET c == {i \in 1..Len(r.st) : r.st[i].t = t} IN IF c = {} THEN <<>> ELSE r.st[CHOOSE i \in c : TRUE].a
OkAlgs(C, st, q, o, e) == LET d == q.d r == o.d v == st.n.ver
    tup(t, sup) == IF v < 17 THEN TRUE ELSE Pick(StSel(r, t), Offered(d, t), Rng(sup))
    n == [st.n EXCEPT !.mspec = Bit(r.mspec), !.mhash = Bit(r.mhash), !.asym = Bit(r.asym), !.hash = Bit(r.hash), !.opq = Bit(r.opq),
             !.dhe = Bit(StSel(r, 2)), !.aead = Bit(StSel(r, 3)), !.rasym = Bit(StSel(r, 4)), !.ks = Bit(StSel(r, 5))] IN
  R0(L(Pick(r.asym, Rng(d.asym), Rng(C.asym)), "C04.asym") \cup L(Pick(r.hash, Rng(d.hash), Rng(C.hash)), "C04.hash")
     \cup L(tup(2, C.dhe), "C04.dhe") \cup L(tup(3, C.aead), "C04.aead") \cup L(tup(4, C.rasym), "C04.rasym") \cup L(tup(5, C.ks), "C04.ks")
     \cup L(Pick(r.mspec, Rng(d.mspec), Rng(C.mspecb)), "C04.mspec") \cup L(Len(r.mhash) <= 1 /\ (r.mhash = <<>> \/ Bit(r.mhash) = C.mhash), "C04.mhash")
     \cup L(Sel(v >= 18, Pick(r.opq, Rng(d.opq), Rng(C.opq)), r.opq = <<>>), "C04.opaque")
     \cup L(r.exta = 0 /\ r.exth = 0 /\ r.cnt = Len(r.st) /\ r.len = Blen(o.m) /\ r.len = 36 + 4 * r.cnt, "C04.form")
     \cup L(\A i \in 1..Len(r.st) : r.st[i].n = 32 /\ (i > 1 => r.st[i].t > r.st[i-1].t), "C04.form"),
     [st EXCEPT !.ph = 3, !.n = n, !.A = @ \o Hex(q.m, d.used) \o o.m])
OkDigests(C, st, sid, q, o, e) == LET r == o.d n == st.n st1 == Resets(st, sid, DIGESTS) sl == C.slots IN
  R0(L(Rng(r.mask) = Rng(sl), "C13.mask")
     \cup L(Rng(r.mask) = Rng(sl) => r.digs = [i \in 1..Len(sl) |-> ChainHash(C, n, sl[i])], "C13.digest"),
     IF sid # "" THEN st1 ELSE [st1 EXCEPT !.BC = {b \o Hex(q.m, q.d.used) \o o.m : b \in @}, !.ph = Sel(@ < 4, 4, @)])
OkCert(C, st, sid, q, o, e) == LET r == o.d d == q.d n == st.n st1 == Resets(st, sid, CERT)
    ch == Chain(C, n, d.slot) sz == Blen(ch) want == Min(d.len, sz - d.off) IN
  R0(L(r.slot = d.slot, "C12.slot") \cup L(r.data = Sub(ch, d.off, r.plen), "C12.data")
     \cup L(r.rem = sz - d.off - r.plen, "C12.remainder") \cup L(r.plen <= want /\ (want > 0 => r.plen > 0) /\ (r.plen >= Min(want, C.portion) \/ n.rqdts # 0), "C12.portion"),
     IF sid # "" THEN st1 ELSE [st1 EXCEPT !.BC = {b \o Hex(q.m, d.used) \o o.m : b \in @}, !.ph = Sel(@ < 5, 5, @)])
OkChallenge(C, st, sid, q, o, e) == LET r == o.d d == q.d n == st.n st1 == Resets(st, sid, CHALL)
    good == {b \in st.BC : r.sigt = Sig("RSPLEAF0", n.hash, n.asym, CtxChal, D(C, st, st.A \o b \o Hex(q.m, d.used) \o Hex(o.m, r.tbs)))} IN
  R0(L(r.slot = d.slot, "C10.slot") \cup L(r.ch = ChainHash(C, n, d.slot), "C10.chainhash") \cup L(Rng(r.mask) = Rng(C.slots), "C10.mask")
     \cup L(r.msh = SumHash(C, n, d.ms), "C10.summary") \cup L(good # {}, "C10.signature") \cup L(Fresh(st, e, r.nonce), "C21.nonce"),
     [Use(st1, {r.nonce}) EXCEPT !.BC = {""}, !.ph = 6])
OkMeas(C, st, sid, q, o, e) == LET r == o.d d == q.d n == st.n st1 == Resets(st, sid, MEAS) sg == 0 \in Rng(d.atb)
    M == IF sid = "" THEN st.M ELSE st.sess[sid].M
    a == IF n.ver >= 18 THEN st.A ELSE ""
    body(m) == m \o Hex(q.m, d.used)
    good == {m \in M : r.sigt = Sig("RSPLEAF0", n.hash, n.asym, CtxMeas, D(C, st, a \o body(m) \o Hex(o.m, r.tbs)))}
    M2 == IF sg THEN {""} ELSE {body(m) \o o.m : m \in M}
    st2 == Use(st1, {r.nonce}) IN
  R0(L(r.nblk = Len(MeasIdx(C, d.mop)) /\ r.blk = MeasIdx(C, d.mop), "C11.blocks") \cup L(r.rec = MeasRec(C, d.mop), "C11.record")
     \cup L(d.mop = 0 => r.p1 = C.nmeas, "C11.total") \cup L(sg /\ n.ver >= 17 => r.slot = d.slot, "C11.slot")
     \cup L(Fresh(st, e, r.nonce), "C21.nonce") \cup LS(sg => good # {}, {"C11.signature"}),
     IF sid = "" THEN [st2 EXCEPT !.M = M2] ELSE [st2 EXCEPT !.sess[sid].M = M2])
SelVer(C, d, r) == LET s == SecVers(C, d) IN r.opok /\ Len(r.opsel) <= 1 /\
  IF d.oplist /\ -1 \in Rng(d.opvers) THEN Rng(r.opsel) \subseteq Rng(C.secver) ELSE Rng(r.opsel) \subseteq s /\ (s # {} => Len(r.opsel) = 1)
OkKex(C, st, q, o, e) == LET r == o.d d == q.d n == st.n h == n.hash st1 == Resets(st, "", KEX) sid == r.rsid \o d.rsid
    rch == ChainHash(C, n, d.slot) k0 == Hex(q.m, d.used) \o Hex(o.m, r.tbs) k1 == Hex(q.m, d.used) \o Hex(o.m, r.tbm)
    root == DhRoot(h, n.dhe, d.exch, r.exch) th1 == D(C, st, st.A \o rch \o k1)
    hsq == HsSecret(h, n.ver, root, "q", th1) hss == HsSecret(h, n.ver, root, "s", th1)
    x == NewSess(FALSE, Rng(r.mut) # {}, d.slot, rch, k1 \o r.vd, hsq, hss, root, MasterOf(h, n.ver, root), r.hb, IF r.opsel = <<>> THEN 0 ELSE r.opsel[1]) IN
  R0(L(sid \notin DOMAIN st.sess, "C09.unique") \cup LS(SelVer(C, d, r), {"C24.selection"})
     \cup L(r.hb = C.hb, "C04.heartbeat") \cup L(Rng(r.mut) \subseteq 0..2 /\ (r.mut # <<>> => Both(n, cMUT)), "C14.request")
     \cup L(Fresh(st, e, r.rnd), "C21.random") \cup L(r.exch \in Rng(e.pubs) /\ r.exch \notin st.used, "C21.key")
     \cup L(r.msh = SumHash(C, n, d.ms), "C10.summary")
     \cup LS(r.sigt = Sig("RSPLEAF0", h, n.asym, CtxKex, D(C, st, st.A \o rch \o k0)), {"C06.signature"})
     \cup LS(Clear(n) \/ r.vdt = Mac(h, FinKey(h, n.ver, hss), th1), {"C06.verify"}),
     [Use(st1, {r.rnd, r.exch}) EXCEPT !.sess = (sid :> x) @@ @, !.last = Sel(Clear(n), sid, @)])
OkPsk(C, st, q, o, e) == LET r == o.d d == q.d n == st.n h == n.hash st1 == Resets(st, "", PSKX) sid == r.rsid \o d.rsid
    k1 == Hex(q.m, d.used) \o Hex(o.m, r.tbm)
    root == PskRoot(h, d.hint) th1 == D(C, st, st.A \o k1)
    hsq == HsSecret(h, n.ver, root, "q", th1) hss == HsSecret(h, n.ver, root, "s", th1)
    x == NewSess(TRUE, FALSE, 0, "", k1 \o r.vd, hsq, hss, root, PskMaster(h, d.hint), r.hb, IF r.opsel = <<>> THEN 0 ELSE r.opsel[1])
    y == IF cPSKX \in n.rsc THEN x ELSE Establish(C, st, x, "", "") IN
  R0(L(sid \notin DOMAIN st.sess, "C09.unique") \cup LS(SelVer(C, d, r), {"C24.selection"})
     \cup L(r.hb = C.hb, "C04.heartbeat")
     \cup L(IF cPSKX \in n.rsc THEN r.ctx # "" ELSE r.ctx = "", "C20.context")
     \cup L(r.ctx # "" => Fresh(st, e, r.ctx), "C21.context")
     \cup L(r.msh = SumHash(C, n, d.ms), "C20.summary")
     \cup LS(r.vdt = Mac(h, FinKey(h, n.ver, hss), th1), {"C20.verify", "C06.verify"}),
     [Use(st1, Sel(r.ctx = "", {}, {r.ctx})) EXCEPT !.sess = (sid :> y) @@ @])
OkFin(C, st, sid, q, o, e) == LET d == q.d r == o.d n == st.n h == n.hash x == st.sess[sid] qh == QHash(C, st, x)
    fs == FinFs(C, st, x, q) f0 == CHOOSE f \in fs : TRUE
    f1 == f0 \o Hex(q.m, 4) \o d.sig \o d.vd \o Hex(o.m, r.tbm)
    hv == Mac(h, FinKey(h, n.ver, x.hss), D(C, st, st.A \o x.rch \o x.K \o qh \o f1))
    st1 == Resets(st, sid, FIN) IN
  IF fs = {} THEN R0({}, st1)       \* reported as served although it must be refused
  ELSE R0(LS(Clear(n) => r.vdt = hv, {"C06.verify"}), [st1 EXCEPT !.sess[sid] = Establish(C, st, [x EXCEPT !.M = {""}], f1 \o r.vd, qh)])
OkPskFin(C, st, sid, q, o, e) == LET d == q.d x == st.sess[sid] fs == PskFs(C, st, x, q) f0 == CHOOSE f \in fs : TRUE
    f1 == f0 \o Hex(q.m, 4) \o d.vd \o o.m st1 == Resets(st, sid, PSKF) IN
  IF fs = {} THEN R0({}, st1) ELSE R0({}, [st1 EXCEPT !.sess[sid] = Establish(C, st, [x EXCEPT !.M = {""}], f1, "")])
Updated(n, x, kop) ==
  LET u == UpdSecret(n.hash, n.ver, x.Sq) w == UpdSecret(n.hash, n.ver, x.Ss) IN
  IF kop = 1 THEN [x EXCEPT !.Sq = u, !.nq = 0]
  ELSE IF kop = 2 THEN [x EXCEPT !.Sq = u, !.nq = 0, !.Ss = w, !.ns = 0] ELSE x
OkKeyUpdate(C, st, sid, q, o, e) == LET d == q.d r == o.d IN
  R0(L(r.kop = d.kop /\ r.tag = d.tag, "C08.echo"), Resets(st, sid, KUPD))     \* the keys were already replaced, see Step
OkEncReq(C, st, sid, q, o, e) == R0(L(o.d.enc.op = DIGESTS /\ o.d.enc.exact /\ o.d.enc.ver = st.n.ver, "C14.order"), Resets(st, sid, ENCREQ))
OkEncDel(C, st, sid, q, o, e) == LET d == q.d r == o.d i == d.inn st1 == Resets(st, sid, ENCDEL)
    ack == L(st.n.ver >= 18 => r.ack = d.rid, "C14.ack")
    asks(t) == r.pt = 1 /\ r.enc.op = CERT /\ r.enc.exact /\ r.enc.ver = st.n.ver /\ r.enc.slot = 0 /\ r.enc.off = Blen(t.t) /\ r.enc.len > 0
    fits == Fits(C, st.n, st, i)
    begun == {IF t.t = "-" THEN [t EXCEPT !.t = ""] ELSE t : t \in st.temp}
    longer == {Extended(t, i) : t \in fits} IN
  IF i.op = 1 THEN R0(ack \cup L(\E t \in begun : asks(t), "C14.order"), [st1 EXCEPT !.temp = {t \in begun : asks(t)}])
  ELSE IF i.op = ERROR THEN R0(ack \cup L(r.pt = 0, "C14.order"), st1)
  ELSE IF i.rem > 0 THEN R0(ack \cup L(\E t \in longer : asks(t), "C14.order"), [st1 EXCEPT !.temp = {t \in longer : asks(t)}])
  ELSE R0(ack \cup L(r.pt = 2 /\ r.rslot = 0, "C14.order"), [st1 EXCEPT !.temp = {NoTemp}, !.peer[0] = (CHOOSE t \in longer : TRUE).t])
OkVend(C, st, sid, q, o, e) ==
  R0(L(Len(e.vends) = 1 /\ e.vends[1].i = q.d.pay /\ o.d.pay = e.vends[1].o, "C15.vendor"), Resets(st, sid, VEND))

OkRsp(C, st, sid, q, o, e) == LET op == q.d.op IN
  CASE op = VERSION -> OkVersion(C, st, q, o, e)      [] op = CAPS -> OkCaps(C, st, q, o, e)
    [] op = ALGS -> OkAlgs(C, st, q, o, e)            [] op = DIGESTS -> OkDigests(C, st, sid, q, o, e)
    [] op = CERT -> OkCert(C, st, sid, q, o, e)       [] op = CHALL -> OkChallenge(C, st, sid, q, o, e)
    [] op = MEAS -> OkMeas(C, st, sid, q, o, e)       [] op = KEX -> OkKex(C, st, q, o, e)
    [] op = PSKX -> OkPsk(C, st, q, o, e)             [] op = FIN -> OkFin(C, st, sid, q, o, e)
    [] op = PSKF -> OkPskFin(C, st, sid, q, o, e)     [] op = KUPD -> OkKeyUpdate(C, st, sid, q, o, e)
    [] op = HBEAT -> R0({}, Resets(st, sid, HBEAT))   [] op = ENDS -> R0({}, [st EXCEPT !.sess = [s \in DOMAIN @ \ {sid} |-> @[s]],
                                                                                 !.BC = IF st.ph < 6 THEN {""} ELSE @])
    [] op = ENCREQ -> OkEncReq(C, st, sid, q, o, e)   [] op = ENCDEL -> OkEncDel(C, st, sid, q, o, e)
    [] op = VEND -> OkVend(C, st, sid, q, o, e)       [] OTHER -> R0({}, st)

\* the size a success response would have, for the limit the requester announced
WantLen(C, st, d, e) == LET n == st.n hs == HSize(n.hash) IN
  CASE d.op = ALGS -> IF n.ver >= 17 THEN 52 ELSE 36
    [] d.op = DIGESTS -> 4 + hs * Len(C.slots)
    [] d.op = CERT -> 8 + Min(C.portion, Min(d.len, Blen(Chain(C, n, d.slot)) - d.off))
    [] d.op = CHALL -> 38 + hs + Sel(d.ms = 0, 0, hs) + ASize(n.asym)
    [] d.op = MEAS -> 42 + Blen(MeasRec(C, d.mop)) + Sel(0 \in Rng(d.atb), ASize(n.asym), 0)
    [] d.op = KEX -> 42 + DSize(n.dhe) + Sel(d.ms = 0, 0, hs) + OpLen(C, n, d) + ASize(n.asym) + Sel(Clear(n), 0, hs)
    [] d.op = PSKX -> 12 + Sel(d.ms = 0, 0, hs) + Sel(cPSKX \in n.rsc, 64, 0) + OpLen(C, n, d) + hs
    [] d.op = FIN -> 4 + Sel(Clear(n), hs, 0)
    [] d.op = VEND -> IF Len(e.vends) = 1 THEN 9 + Blen(d.vid) + Blen(e.vends[1].o) ELSE 9
    [] d.op = ENCREQ -> 8 [] d.op = ENCDEL -> 16 [] OTHER -> 4

PropOf(op) == CASE op = VERSION -> "C03" [] op \in {CAPS, ALGS} -> "C04" [] op = DIGESTS -> "C13" [] op = CERT -> "C12"
                [] op = CHALL -> "C10" [] op = MEAS -> "C11" [] op = KEX -> "C06" [] op = FIN -> "C05"
                [] op \in {PSKX, PSKF} -> "C20" [] op = KUPD -> "C08" [] op \in {ENCREQ, ENCDEL} -> "C14"
                [] op = ENDS -> "C09" [] op = VEND -> "C15" [] OTHER -> "C07"

\* ------------------------------------------------------------------ one request, in the clear (sid = "") or in session sid
\* The state st is the one after the record was accepted.
Handle(C, st, sid, e) ==
  LET q == e.q d == q.d n == st.n
      v0 == IF sid = "" THEN VerdictPlain(C, st, d) ELSE VerdictSess(C, st, st.sess[sid], q)
      fsid == IF sid = "" /\ d.op = FIN THEN st.last ELSE sid           \* the session a finish speaks for
      v1 == IF v0.w = "fin" THEN VerdictFin(C, st, st.sess[st.last], q) ELSE v0
      v == IF v1.w # "vend" THEN v1
           ELSE IF Len(e.vends) # 1 THEN Refused({"C15"})
           ELSE IF e.vends[1].fail = "1" THEN No(Usual, {"C15"}) ELSE Ok
      big == v.w \in {"ok", "any"} /\ n.rqdts # 0 /\ d.op \notin {VERSION, CAPS} /\ (n.hash # 0 \/ d.op = ALGS) /\ WantLen(C, st, d, e) > n.rqdts
      fault == e.fault # ""
      none == Len(e.o) = 0
      o == e.o[1]
      rop == IF none THEN -1 ELSE o.d.op
      good == ~none /\ rop = RspOf(d.op)
      err == ~none /\ rop = ERROR
      lost == ~none /\ o.lost
      \* keys are replaced before the response is protected
      stk == IF d.op = KUPD /\ sid # "" /\ good /\ d.wf THEN [st EXCEPT !.sess[sid] = Updated(n, @, d.kop)] ELSE st
      chan == IF none THEN {}
              ELSE IF sid = "" THEN L(o.k = "plain", "C19.channel")
              ELSE LET x == stk.sess[sid] IN
                     L(o.k = "sec" /\ o.auth /\ o.sid = sid /\ o.S = Traffic(n.ver, x.Ss) /\ o.alg = n.aead, "C19.channel")
                     \cup L(o.k = "sec" /\ o.auth, "C07.record")
                     \cup LS(o.k = "sec" /\ o.auth => o.S = Traffic(n.ver, x.Ss), {"C06.key"} \cup Sel(d.op = KUPD, {"C08.key"}, {}))
                     \cup L(o.k = "sec" /\ o.auth => o.seq = x.ns /\ o.hseq, "C07.number") \cup L(~o.app, "C15.kind")
      sts == IF sid # "" /\ ~none THEN [stk EXCEPT !.sess[sid].ns = @ + 1] ELSE stk
      form == IF none THEN {}
              ELSE L(o.exact, "C25.frame") \cup LS(o.k = "plain" \/ (o.k = "sec" /\ o.auth) => o.d.exact, {"C19.form"})
                   \cup L(IF rop = 4 THEN o.d.ver = 16 ELSE IF st.ph < 2 /\ rop # 97 THEN TRUE ELSE IF rop = 97 THEN o.d.ver = d.ver ELSE o.d.ver = n.ver, "C02.header")
                   \cup L(good /\ n.rqdts # 0 /\ rop # 4 => o.mlen <= n.rqdts, "C16.size")
                   \cup L(e.apps = <<>>, "C15.handler") \cup L(Len(e.vends) > 0 => d.op = VEND, "C15.vendor")
      readable == none \/ o.k = "plain" \/ (o.k = "sec" /\ o.auth)
      kind == IF none \/ good \/ err THEN {} ELSE {"C19.kind", "C18.kind"}
      verdict ==
        (IF good THEN {p \o ".served" : p \in IF v.w = "no" THEN v.p ELSE {}} \cup L(~fault \/ e.fault = "hash_ctx_finalize", "C22.fault")
         ELSE IF err THEN (IF fault THEN {} ELSE IF v.w = "no" THEN L(o.d.p1 \in v.c, "C19.code")
                           ELSE IF v.w = "any" THEN L(o.d.p1 \in v.c \cup Sel(big, {ETooLarge}, {}), "C19.code")
                           ELSE IF big THEN L(o.d.p1 = ETooLarge, "C16.code")
                           ELSE {PropOf(d.op) \o ".refused"} \cup LS(o.d.p1 # ETooLarge, {"C16.spurious"}))
         ELSE IF none THEN (IF v.w = "ok" /\ ~big /\ ~fault /\ (sid = "" \/ stk.sess[sid].ns # -1) THEN {PropOf(d.op) \o ".silent"} ELSE {})
         ELSE {})
      r == OkRsp(C, sts, IF d.op = FIN THEN fsid ELSE sid, q, o, e)
      ref == LET a0 == RefusedResets(sts, sid, d.op)
                 \* an internal failure may have cost the transcript
                 a == IF fault /\ d.op = CERT THEN [a0 EXCEPT !.BC = @ \cup {""}] ELSE a0 IN
             IF fsid # "" /\ fsid \in DOMAIN a.sess THEN [a EXCEPT !.sess[fsid] = SoilF(@, q)] ELSE a
      \* a success response that could not be sent
      unsent == IF d.op = VERSION THEN [InitSt EXCEPT !.used = r.st.used]
                ELSE IF d.op \in {CAPS, ALGS} THEN ref
                ELSE LET b == [ref EXCEPT !.BC = @ \cup r.st.BC, !.used = r.st.used]
                         c == IF sid = "" THEN [b EXCEPT !.M = @ \cup r.st.M]
                              ELSE IF sid \in DOMAIN r.st.sess THEN [b EXCEPT !.sess[sid].M = @ \cup r.st.sess[sid].M] ELSE b
                         d2 == IF d.op = ENCDEL THEN [c EXCEPT !.temp = r.st.temp, !.peer = r.st.peer] ELSE c
                     IN d2
      \* a refused certificate portion may drop the partial chain; a portion that had to be accepted shows which partial chain it was not
      early == ~Both(n, cENCAP) \/ n.ver < 17 \/ st.ph < 5 \/ d.ver # n.ver \/ (v.w = "no" /\ Fits(C, n, st, d.inn) # {})
      odd(t) == d.inn.plen = 0 \/ Blen(t.t) + d.inn.plen + d.inn.rem > 4095
      temp2 == IF ~(d.op = ENCDEL /\ d.wf /\ sid # "" /\ d.inn.wf) THEN ref.temp
               ELSE IF d.inn.op # 2 THEN ref.temp \cup {[t EXCEPT !.t = ""] : t \in {t \in ref.temp : t.t = "-"}}
               ELSE IF fault THEN ref.temp \cup {NoTemp} \cup {Extended(t, d.inn) : t \in {t \in ref.temp : PortionOK(t, d.inn)}}
               ELSE IF early THEN ref.temp
               ELSE {t \in ref.temp : ~PortionOK(t, d.inn) \/ odd(t) \/ (d.inn.rem = 0 /\ ~PeerOK(C, n, t.t \o d.inn.data))} \cup {NoTemp}
                    \cup {Extended(t, d.inn) : t \in {t \in ref.temp : PortionOK(t, d.inn) /\ odd(t)}}
      halfway == d.op = KUPD /\ sid # "" /\ none /\ e.fault = "aead_encrypt" /\ v.w # "no" /\ e.haspost
                 /\ (\E i \in 1..Len(e.post.sess) : e.post.sess[i].sid = sid /\ e.post.sess[i].rq = 0)
      \* the requester's chain was complete, its acknowledgement could not be protected
      kept == d.op = ENCDEL /\ sid # "" /\ none /\ e.fault = "aead_encrypt" /\ v.w # "no" /\ e.haspost /\ d.inn.op = 2 /\ d.inn.rem = 0
              /\ (\E t \in Fits(C, n, st, d.inn) : e.post.peer[1] = Extended(t, d.inn).t)
      ref2 == IF kept THEN [ref EXCEPT !.peer[0] = e.post.peer[1], !.temp = temp2]
              ELSE IF halfway THEN [ref EXCEPT !.sess[sid] = Updated(n, @, d.kop)] ELSE [ref EXCEPT !.temp = temp2]
      \* the requester's FINISH signature has to be judged by the algorithm negotiated for it
      algo == d.op = FIN /\ fsid # "" /\ fsid \in DOMAIN st.sess /\ ~fault
              /\ LET x == st.sess[fsid] IN (good /\ OtherAlg(C, st, x, q)) \/ (~good /\ v.w = "ok" /\ x.mut /\ n.rasym # n.asym)
  IN IF ~readable THEN [l |-> chan \cup form, st |-> sts]
     ELSE IF algo THEN [l |-> {"C14.finalgo"}, st |-> sts]
     ELSE IF good /\ v.w = "no" THEN [l |-> chan \cup form \cup verdict, st |-> sts]
     ELSE IF good THEN [l |-> chan \cup form \cup verdict \cup r.l, st |-> IF lost THEN unsent ELSE r.st]
     ELSE [l |-> chan \cup form \cup kind \cup verdict, st |-> ref2]

\* ------------------------------------------------------------------ application data in session sid
ErrApp == "455252"          \* what the recorded application handler is told to fail with
\* the largest message there is room for
BufSize == 4096
HandleApp(C, st, sid, e) ==
  LET q == e.q x == st.sess[sid] n == st.n none == Len(e.o) = 0 o == e.o[1]
      fault == e.fault # "" ok == Len(e.apps) = 1 /\ e.apps[1].o # ErrApp
      sts == IF none THEN st ELSE [st EXCEPT !.sess[sid].ns = @ + 1] IN
  IF ~x.est THEN [l |-> L(e.apps = <<>>, "C15.early") \cup L(none, "C15.early"), st |-> sts]
  ELSE [l |-> L(Len(e.apps) = 1 \/ fault \/ q.mlen > BufSize, "C15.handler") \cup L(Len(e.apps) = 1 => e.apps[1].sid = sid /\ e.apps[1].i = q.m, "C15.delivery")
              \cup (IF none THEN L(~ok \/ fault \/ x.ns = -1, "C15.answer")
                    ELSE L(ok, "C15.answer") \cup L(~fault, "C22.fault") \cup L(e.vends = <<>>, "C15.vendor")
                         \cup L(o.k = "sec" /\ o.auth /\ o.sid = sid /\ o.S = Traffic(n.ver, x.Ss) /\ o.alg = n.aead, "C07.channel")
                         \cup L(o.k = "sec" /\ o.auth => o.seq = x.ns /\ o.hseq, "C07.number")
                         \cup L(o.k = "sec" /\ o.auth => o.app /\ (ok => o.m = e.apps[1].o), "C15.answer") \cup L(o.exact, "C25.frame")),
        st |-> sts]

\* ------------------------------------------------------------------ records
\* Does the incoming record count as the next one of its session?
Accepts(st, q) == /\ q.k \in {"sec", "secbad"} /\ q.auth /\ q.sid \in DOMAIN st.sess
                  /\ LET x == st.sess[q.sid] IN q.S = Traffic(st.n.ver, x.Sq) /\ q.seq \in {x.nq} \cup x.alt /\ q.seq # -1 /\ q.alg = st.n.aead /\ q.hseq
\* bytes after the record (beyond the transport's own padding) or after the message: may be rejected
Sloppy(C, q) == q.tail > 0 \/ (q.pad > 0 /\ (q.rest \/ C.tr # "doe" \/ q.pad > 3))
Nothing(e) == L(Len(e.o) = 0, "C07.reply") \cup L(e.apps = <<>> /\ e.vends = <<>>, "C07.delivered")
Consume(st, sid) == [st EXCEPT !.sess[sid].nq = @ + 1]

Outcome(C, st, e) == LET q == e.q IN
  IF e.rf \/ q.k \in {"none", "junk"} THEN [l |-> L(Len(e.o) = 0, "C25.junk") \cup L(e.apps = <<>> /\ e.vends = <<>>, "C25.junk"), st |-> st]
  ELSE IF q.k = "plain" THEN Handle(C, st, "", e)
  ELSE IF q.sid \in DOMAIN st.sess /\ st.sess[q.sid].unk THEN [l |-> {}, st |-> st]
  ELSE IF ~Accepts(st, q) THEN [l |-> Nothing(e), st |-> st]
  ELSE LET x == st.sess[q.sid]
           st0 == [st EXCEPT !.sess[q.sid].nq = q.seq, !.sess[q.sid].alt = {}]
           done == Consume(st0, q.sid)
           run == IF q.app THEN HandleApp(C, done, q.sid, e) ELSE Handle(C, done, q.sid, e)
           idle == Len(e.o) = 0 /\ e.apps = <<>> /\ e.vends = <<>>
           others == ({x.nq} \cup x.alt) \ {q.seq}
           also(t, ns) == IF q.sid \in DOMAIN t.sess THEN [t EXCEPT !.sess[q.sid].alt = ns \ {t.sess[q.sid].nq}] ELSE t
           \* a record that was dropped may or may not have used up its number.  The implementation reports the numbers of an
           \* established session; for one still handshaking every possible number is kept.
           skip == [l |-> {}, st |-> IF x.est
                       THEN IF e.haspost /\ (\E i \in 1..Len(e.post.sess) : e.post.sess[i].sid = q.sid /\ e.post.sess[i].rq = x.nq) THEN st ELSE done
                       ELSE also(done, others \cup {q.seq})] IN
       IF q.k = "secbad" THEN [l |-> Nothing(e), st |-> skip.st]
       ELSE IF e.fault # "" /\ idle THEN [l |-> {}, st |-> IF e.fault = "aead_decrypt" THEN st ELSE run.st]
       ELSE IF idle /\ x.ns = -1 THEN skip
       ELSE IF Sloppy(C, q) /\ idle THEN skip
       ELSE IF idle /\ others # {} THEN IF run.l = {} THEN [l |-> {}, st |-> also(run.st, others)]
                                        ELSE [l |-> {}, st |-> LET z == CHOOSE z \in others : TRUE IN
                                                 [st EXCEPT !.sess[q.sid].nq = z, !.sess[q.sid].alt = others \ {z}]]
       ELSE run

\* ------------------------------------------------------------------ the state the implementation reports
SessView(x) == [state |-> Sel(x.est, "est", "hs"), psk |-> x.psk, nq |-> x.nq, ns |-> x.ns]
PostLabels(st, p, more) ==
  LET n == st.n
      ss == {p.sess[i].sid : i \in 1..Len(p.sess)}
      at(s) == p.sess[CHOOSE i \in 1..Len(p.sess) : p.sess[i].sid = s]
      live == DOMAIN st.sess
      tag(c, base) == IF c THEN {} ELSE base \cup {m \o ".state" : m \in more}
  IN tag(p.conn = st.ph, {"C01.phase"})
     \cup (IF st.ph >= 2 THEN tag(p.ver = n.ver, {"C02.negotiated"}) \cup
             tag(Rng(p.rqc) = n.rqc /\ Rng(p.rsc) = n.rsc /\ p.rqct = n.rqct /\ p.rqdts = n.rqdts /\ p.rqmax = n.rqmax, {"C04.negotiated"}) ELSE {})
     \cup (IF st.ph >= 3 THEN tag(p.mspec = n.mspec /\ p.mhash = n.mhash /\ p.hash = n.hash /\ p.asym = n.asym /\ p.dhe = n.dhe /\ p.aead = n.aead
                                  /\ p.rasym = n.rasym /\ p.ks = n.ks /\ p.opq = n.opq, {"C04.negotiated"}) ELSE {})
     \cup tag(ss \subseteq live, {"C09.extra"}) \cup tag(live \subseteq ss, {"C09.missing"})
     \cup tag(Len(p.sess) = Cardinality(ss) /\ Len(p.sess) <= MaxSess, {"C09.unique"})
     \cup tag(st.ph <= 1 /\ p.conn <= 1 => p.sess = <<>> , {"C03.session"})
     \cup UNION {LET x == st.sess[s] y == at(s) IN
            IF x.unk THEN {} ELSE
            tag((y.state = 2) = x.est, {"C05.established"}) \cup tag((y.psk = 1) = x.psk, {"C20.kind"})
            \cup tag(x.psk \/ (y.mut # 0) = x.mut, {"C14.requested"})
            \cup tag(~x.est \/ y.rq = x.nq, {"C07.receive"}) \cup tag(~x.est \/ y.rs = x.ns, {"C07.send"}) : s \in ss \cap live}
     \cup UNION {tag(p.peer[i + 1] = st.peer[i], {"C14.chain"}) : i \in 0..7}

\* after a reported violation: go on from what the implementation reports
Resync(st, p) ==
  LET ss == {p.sess[i].sid : i \in 1..Len(p.sess)}
      at(s) == p.sess[CHOOSE i \in 1..Len(p.sess) : p.sess[i].sid = s] IN
  [st EXCEPT !.ph = p.conn,
     !.n = [ver |-> p.ver, rqc |-> Rng(p.rqc), rsc |-> Rng(p.rsc), rqct |-> p.rqct, rsct |-> p.rsct, mspec |-> p.mspec, mhash |-> p.mhash, hash |-> p.hash,
            asym |-> p.asym, dhe |-> p.dhe, aead |-> p.aead, rasym |-> p.rasym, ks |-> p.ks, opq |-> p.opq, rqdts |-> p.rqdts, rqmax |-> p.rqmax],
     !.peer = [i \in 0..7 |-> p.peer[i + 1]],
     !.sess = [s \in ss |-> IF s \in DOMAIN st.sess /\ st.sess[s].est = (at(s).state = 2)
                            THEN IF st.sess[s].est THEN [st.sess[s] EXCEPT !.nq = at(s).rq, !.ns = at(s).rs, !.alt = {}] ELSE st.sess[s]
                            ELSE [NewSess(FALSE, FALSE, 0, "", "", "", "", "", "", 0, 0) EXCEPT !.unk = TRUE, !.est = at(s).state = 2]]]
=============================================================================
