------------------------------ MODULE Control ------------------------------
(* The responder as a transition system: every request kind, correct and defective, in every control state.

   The state IS the state of module Responder, and every step is taken through Responder!Outcome: the model makes a symbolic
   request and the symbolic answer, so the rules that judge recorded runs are the rules that are model-checked here.
   For every reachable control state and every action TLC checks that
     - the specification accepts a conforming answer (it is not contradictory) and rejects the wrong one: a success where the
       request must be refused, an error or silence where it must be served, a wrong signature, verify-data, key or number
       (it is not vacuous);
     - the invariants below hold;
   and prints the edge.  The edges are then replayed into the real responder (mbt/replay.py), every edge in turn.   *)
EXTENDS Responder
CONSTANTS Actions, Offers, MaxLive, Losses, Skip
ModelDig(C, a, s) == "H" \o ToString(a) \o "(" \o s \o ")"
\* ------------------------------------------------------------------ the configuration
H3(x) == [k \in {"1", "2", "4"} |-> x \o k]
QChain == "AAAABBBB"
C == [tr |-> "mctp", vers |-> <<16, 17, 18>>, secver |-> <<16, 17>>, rspcaps |-> <<1, 2, 4, 6, 7, 8, 9, 11, 12, 13, 14, 15>>, hash |-> <<1>>, asym |-> <<7>>, dhe |-> <<4>>,
      aead |-> <<1>>, rasym |-> <<7>>, ks |-> <<0>>, opq |-> <<1>>, mspecb |-> <<0>>, mhash |-> 2, dts |-> 4096, max |-> 4096, hb |-> 0, rsct |-> 0,
      slots |-> <<0>>, nmeas |-> 2, portion |-> 512, blocks |-> <<"m1", "m2">>, chain |-> [x \in {"0"} |-> H3("CHAINCHAIN0")], ch |-> [x \in {"0"} |-> H3("chainhash")],
      msum |-> [k \in {"1", "2", "4"} |-> [x \in {"1", "255"} |-> "sum" \o x]],
      qch |-> [x \in {QChain} |-> [ok |-> [k \in {"1", "2", "4"} |-> TRUE], h |-> H3("qhash"), tag |-> "REQLEAF0"]]]
QFull == {1, 2, 6, 7, 8, 9, 10, 12, 13, 14}
\* what a requester may offer: header version and capability bits
Offer(o) == CASE o = "full" -> [v |-> 18, f |-> QFull] [] o = "nomut" -> [v |-> 18, f |-> QFull \ {8, 12}] [] o = "clear" -> [v |-> 18, f |-> QFull \cup {15}] [] o = "clearnm" -> [v |-> 18, f |-> (QFull \cup {15}) \ {8, 12}]
              [] o = "v11" -> [v |-> 17, f |-> QFull] [] o = "v10" -> [v |-> 16, f |-> {}] [] o = "few" -> [v |-> 18, f |-> QFull \ {13, 14}]
SetToSeq(S) == LET F[T \in SUBSET S] == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : \A y \in T : x <= y IN <<x>> \o F[T \ {x}] IN F[S]
VARIABLES st, cnt, slot, acc
vars == <<st, cnt, slot, acc>>
\* slot: which session holds which place (1..MaxLive); acc: the (key, number) pairs accepted and used so far
Init == st = InitSt /\ cnt = 0 /\ slot = [i \in 1..MaxLive |-> ""] /\ acc = {}
Tok(n) == LET s == ToString(cnt) IN n \o SubSeq("00000", 1, 5 - Len(s)) \o s       \* a fresh 8-character message
Fill(n) == LET F[i \in 0..n] == IF i = 0 THEN "" ELSE F[i - 1] \o "." IN F[n]
\* ------------------------------------------------------------------ requests
\* <<kind, variant>>; "bad" is a truncated message, "ver" one with another header version
Plain == {<<"VERSION", "ok">>, <<"VERSION", "bad">>, <<"VERSION", "ver">>} \cup {<<"CAPS", o>> : o \in Offers \cup {"bad", "ver", "flags"}}
         \cup {<<"ALGS", v>> : v \in {"ok", "bad", "ver", "none", "order"}} \cup {<<"DIGESTS", v>> : v \in {"ok", "bad", "ver"}}
         \cup {<<"CERT", v>> : v \in {"ok", "bad", "ver", "slot", "off"}} \cup {<<"CHALL", v>> : v \in {"ok", "sum", "bad", "ver", "slot", "ms"}}
         \cup {<<"MEAS", v>> : v \in {"ok", "sig", "all", "bad", "ver", "idx", "slot"}} \cup {<<"KEX", v>> : v \in {"ok", "sum", "novers", "bad", "ver", "slot", "ms"}}
         \cup {<<"PSKX", v>> : v \in {"ok", "sum", "bad", "ver", "ms"}} \cup {<<"FIN", v>> : v \in {"ok", "mac", "sig", "noatt", "bad", "ver"}}
         \cup {<<k, v>> : k \in {"PSKF", "HBEAT", "KUPD", "ENDS", "ENCREQ", "ENCDEL"}, v \in {"plain", "bad"}} \cup {<<"VEND", v>> : v \in {"ok", "fail", "bad"}} \cup {<<"RIR", "ok">>, <<"ODD", "ok">>}
InSess == {<<k, v>> : k \in {"DIGESTS", "HBEAT", "ENDS"}, v \in {"ok", "bad", "ver"}} \cup {<<"CERT", "ok">>, <<"CERT", "slot">>}
         \cup {<<"MEAS", v>> : v \in {"ok", "sig", "bad", "idx"}} \cup {<<"KUPD", v>> : v \in {"1", "2", "3", "0", "bad", "ver"}}
         \cup {<<"FIN", v>> : v \in {"ok", "mac", "sig", "noatt", "bad", "ver"}} \cup {<<"PSKF", v>> : v \in {"ok", "mac", "bad", "ver"}}
         \cup {<<"ENCREQ", v>> : v \in {"ok", "ver"}} \cup {<<"ENCDEL", v>> : v \in {"dig", "first", "last", "whole", "wrong", "hollow", "kind", "notready", "bad"}}
         \cup {<<"VEND", v>> : v \in {"ok", "bad"}} \cup {<<k, "ok">> : k \in {"VERSION", "CAPS", "ALGS", "CHALL", "KEX", "PSKX", "RIR", "ODD"}}
         \cup {<<"APP", v>> : v \in {"ok", "fail"}} \cup {<<"REC", v>> : v \in {"forged", "old", "skip", "other"}}
Code(k) == CASE k = "VERSION" -> VERSION [] k = "CAPS" -> CAPS [] k = "ALGS" -> ALGS [] k = "DIGESTS" -> DIGESTS [] k = "CERT" -> CERT [] k = "CHALL" -> CHALL
             [] k = "MEAS" -> MEAS [] k = "KEX" -> KEX [] k = "PSKX" -> PSKX [] k = "FIN" -> FIN [] k = "PSKF" -> PSKF [] k = "HBEAT" -> HBEAT [] k = "KUPD" -> KUPD
             [] k = "ENDS" -> ENDS [] k = "ENCREQ" -> ENCREQ [] k = "ENCDEL" -> ENCDEL [] k = "VEND" -> VEND [] k = "RIR" -> RIR [] OTHER -> 133
OnlyX(x, v) == Sel(x.F = {}, "", CHOOSE f \in x.F : \A g \in x.F : Len(f) <= Len(g))
\* the decoded request; x: the session a finish speaks for
Stub == NewSess(FALSE, FALSE, 0, "", "", "", "", "", "", 0, 0)
Req(k, v, x) ==
  LET n == st.n
      ver == IF k = "VERSION" THEN Sel(v = "ver", 17, 16) ELSE IF k = "CAPS" THEN (IF v \in Offers THEN Offer(v).v ELSE Sel(v = "ver", 33, 18))
             ELSE Sel(v = "ver", Sel(n.ver = 18, 17, 18), n.ver)
      m == Tok("Q_" \o SubSeq(k, 1, 1))
      base == [op |-> Code(k), wf |-> v # "bad", ver |-> ver, used |-> 99, p1 |-> 0, p2 |-> 0, opvers |-> Sel(v = "novers", <<>>, <<16, 17>>), oplist |-> v # "novers"]
      f0 == OnlyX(x, "") qh == IF x.mut THEN (IF PeerOK(C, n, st.peer[0]) THEN PeerHash(C, n, st.peer[0]) ELSE "none") ELSE ""
      fk == FinKey(n.hash, n.ver, x.hsq) h0 == f0 \o Hex(m, 4)
      sg == IF x.mut THEN Tok("SIG") ELSE ""
  IN CASE k = "CAPS" -> base @@ [flags |-> SetToSeq(IF v = "flags" THEN {8} ELSE IF v \in Offers THEN Offer(v).f ELSE QFull), dts |-> 4096, max |-> 4096, ct |-> 0]
       [] k = "ALGS" -> base @@ [exta |-> 0, exth |-> 0, cnt |-> Sel(n.ver < 17, 0, 4), len |-> Sel(n.ver < 17, Sel(v = "order", 33, 32), 48), opq |-> Sel(n.ver < 18, <<>>, <<1>>), asym |-> <<7>>, hash |-> Sel(v = "none", <<>>, <<1>>),
                                 mspec |-> <<0>>, st |-> IF n.ver < 17 THEN <<>>
                                    ELSE IF v = "order" THEN <<[t |-> 2, n |-> 32, a |-> <<4>>], [t |-> 2, n |-> 32, a |-> <<4>>], [t |-> 4, n |-> 32, a |-> <<7>>], [t |-> 5, n |-> 32, a |-> <<0>>]>>
                                    ELSE <<[t |-> 2, n |-> 32, a |-> <<4>>], [t |-> 3, n |-> 32, a |-> <<1>>], [t |-> 4, n |-> 32, a |-> <<7>>], [t |-> 5, n |-> 32, a |-> <<0>>]>>]
       [] k = "CERT" -> base @@ [slot |-> Sel(v = "slot", 1, 0), off |-> Sel(v = "off", 60, 0), len |-> 512]
       [] k = "CHALL" -> base @@ [slot |-> Sel(v = "slot", 1, 0), ms |-> Sel(v = "ms", 2, Sel(v = "sum", 255, 0))]
       [] k = "MEAS" -> base @@ [atb |-> Sel(v \in {"sig", "slot"}, <<0>>, <<>>), slot |-> Sel(v = "slot", 1, 0), mop |-> Sel(v = "idx", 9, Sel(v = "all", 255, 1))]
       [] k = "KEX" -> base @@ [slot |-> Sel(v = "slot", 1, 0), ms |-> Sel(v = "ms", 2, Sel(v = "sum", 1, 0)), rsid |-> Tok("sid"), exch |-> Tok("xkq"), len |-> 0]
       [] k = "PSKX" -> base @@ [ms |-> Sel(v = "ms", 2, Sel(v = "sum", 1, 0)), rsid |-> Tok("sid"), hint |-> "68", len |-> 0]
       [] k = "FIN" -> LET sgt == IF ~x.mut THEN "" ELSE Sig("REQLEAF0", n.hash, n.rasym, CtxFin, D(C, st, st.A \o x.rch \o x.K \o qh \o h0))
                           vd == Mac(n.hash, fk, D(C, st, st.A \o x.rch \o x.K \o qh \o h0 \o sg)) IN
                       base @@ [atb |-> Sel(x.mut # (v = "noatt"), <<0>>, <<>>), sig |-> sg, sigt |-> Sel(v = "sig", "wrong", sgt), vd |-> Tok("VDQ"), vdt |-> Sel(v = "mac", "wrong", vd)]
       [] k = "PSKF" -> base @@ [sig |-> "", vd |-> Tok("VDP"), vdt |-> Sel(v = "mac", "wrong", Mac(n.hash, fk, D(C, st, st.A \o x.K \o h0)))]
       [] k = "KUPD" -> base @@ [kop |-> CASE v = "1" -> 1 [] v = "2" -> 2 [] v = "3" -> 3 [] v = "0" -> 0 [] OTHER -> 2, tag |-> 7]
       [] k = "ENDS" -> base @@ [attr |-> 0]
       [] k = "VEND" -> base @@ [pay |-> "7061", vid |-> "", std |-> 0]
       [] k = "ENCDEL" -> base @@ [rid |-> 0, inn |->
              [op |-> CASE v = "dig" -> 1 [] v = "kind" -> 3 [] v = "notready" -> ERROR [] OTHER -> 2, wf |-> TRUE, ver |-> n.ver, p1 |-> Sel(v = "notready", ENotReady, 0), slot |-> 0,
               plen |-> CASE v = "whole" -> 4 [] v = "hollow" -> 0 [] OTHER -> 2, rem |-> CASE v = "first" -> 2 [] v = "hollow" -> 2 [] OTHER -> 0,
               data |-> CASE v = "first" -> "AAAA" [] v = "last" -> "BBBB" [] v = "whole" -> QChain [] v = "hollow" -> "" [] OTHER -> "XXXX"]]
       [] OTHER -> base
\* ------------------------------------------------------------------ conforming answers
ErrRsp(c) == [op |-> ERROR, ver |-> Sel(st.ph < 2, 16, st.n.ver), exact |-> TRUE, p1 |-> c, wf |-> TRUE]
OkMsg(k, v, d, sid, x) ==        \* the answer a correct responder gives; x: the session a finish speaks for (or any)
  LET n == st.n m == Tok("Q_" \o SubSeq(k, 1, 1)) o == Tok("S_" \o SubSeq(k, 1, 1)) \o Tok("TBM") \o Tok("END")
      b == [op |-> RspOf(d.op), ver |-> Sel(d.op = VERSION, 16, Sel(d.op = CAPS, d.ver, n.ver)), exact |-> TRUE, wf |-> TRUE, tbs |-> 4, tbm |-> 8]
      q8 == Hex(m, 99) tb == Hex(o, 4) tm == Hex(o, 8)
      one(z) == CHOOSE t \in z : TRUE
      M == IF sid = "" THEN st.M ELSE st.sess[sid].M
      longer == {Extended(t, d.inn) : t \in Fits(C, n, st, d.inn)}
      enc(t) == [op |-> CERT, exact |-> TRUE, ver |-> n.ver, slot |-> 0, off |-> Blen(t.t), len |-> 512]
  IN CASE k = "VERSION" -> b @@ [vers |-> C.vers]
       [] k = "CAPS" -> b @@ [flags |-> C.rspcaps, ct |-> 0, dts |-> 4096, max |-> 4096]
       [] k = "ALGS" -> b @@ [mspec |-> <<0>>, mhash |-> <<1>>, asym |-> <<7>>, hash |-> d.hash, opq |-> Sel(n.ver < 18, <<>>, <<1>>), exta |-> 0, exth |-> 0, cnt |-> Sel(n.ver < 17, 0, 4),
                               len |-> 36 + Sel(n.ver < 17, 0, 16), st |-> d.st]
       [] k = "DIGESTS" -> b @@ [mask |-> <<0>>, digs |-> <<ChainHash(C, n, 0)>>]
       [] k = "CERT" -> b @@ [slot |-> 0, data |-> Chain(C, n, 0), plen |-> Blen(Chain(C, n, 0)), rem |-> 0]
       [] k = "CHALL" -> b @@ [slot |-> d.slot, ch |-> ChainHash(C, n, d.slot), mask |-> <<0>>, msh |-> SumHash(C, n, d.ms), nonce |-> Tok("nnc"),
                               sigt |-> Sig("RSPLEAF0", n.hash, n.asym, CtxChal, D(C, st, st.A \o one(st.BC) \o q8 \o tb))]
       [] k = "MEAS" -> b @@ [nblk |-> Len(MeasIdx(C, d.mop)), blk |-> MeasIdx(C, d.mop), rec |-> MeasRec(C, d.mop), p1 |-> 2, slot |-> d.slot, nonce |-> Tok("nnc"),
                              sigt |-> Sig("RSPLEAF0", n.hash, n.asym, CtxMeas, D(C, st, Sel(n.ver >= 18, st.A, "") \o one(M) \o q8 \o tb))]
       [] k = "KEX" -> LET rch == ChainHash(C, n, d.slot) root == DhRoot(n.hash, n.dhe, d.exch, Tok("xks")) th1 == D(C, st, st.A \o rch \o q8 \o tm) IN
                       b @@ [opok |-> TRUE, opsel |-> Sel(d.oplist, <<16>>, <<>>), rsid |-> Tok("ses"), exch |-> Tok("xks"), mut |-> Sel(Both(n, cMUT), <<2>>, <<>>), vd |-> Sel(Clear(n), "", Tok("VDS")),
                             hb |-> 0, rnd |-> Tok("nnc"), msh |-> SumHash(C, n, d.ms), sigt |-> Sig("RSPLEAF0", n.hash, n.asym, CtxKex, D(C, st, st.A \o rch \o q8 \o tb)),
                             vdt |-> Mac(n.hash, FinKey(n.hash, n.ver, HsSecret(n.hash, n.ver, root, "s", th1)), th1)]
       [] k = "PSKX" -> LET root == PskRoot(n.hash, d.hint) th1 == D(C, st, st.A \o q8 \o tm) IN
                       b @@ [opok |-> TRUE, opsel |-> Sel(d.oplist, <<16>>, <<>>), rsid |-> Tok("ses"), ctx |-> Tok("nnc"), hb |-> 0, msh |-> SumHash(C, n, d.ms), vd |-> Tok("VDS"),
                             vdt |-> Mac(n.hash, FinKey(n.hash, n.ver, HsSecret(n.hash, n.ver, root, "s", th1)), th1)]
       [] k = "FIN" -> LET f1 == OnlyX(x, "") \o Hex(m, 4) \o d.sig \o d.vd \o tm IN
                       b @@ [vd |-> Sel(Clear(n), Tok("VDF"), ""), vdt |-> Mac(n.hash, FinKey(n.hash, n.ver, x.hss), D(C, st, st.A \o x.rch \o x.K \o QHash(C, st, x) \o f1))]
       [] k = "KUPD" -> b @@ [kop |-> d.kop, tag |-> d.tag]
       [] k = "ENCREQ" -> b @@ [enc |-> [op |-> DIGESTS, exact |-> TRUE, ver |-> n.ver]]
       [] k = "ENCDEL" -> b @@ [ack |-> d.rid, rslot |-> 0, pt |-> IF d.inn.op = 1 THEN 1 ELSE IF d.inn.op = ERROR THEN 0 ELSE IF d.inn.rem > 0 THEN 1 ELSE 2,
                                enc |-> IF d.inn.op = 1 THEN enc(LET t == one(st.temp) IN Sel(t.t = "-", [t |-> ""], t)) ELSE IF d.inn.op = 2 /\ d.inn.rem > 0 /\ longer # {} THEN enc(one(longer)) ELSE enc([t |-> ""])]
       [] k = "VEND" -> b @@ [pay |-> "6170"]
       [] OTHER -> b
\* the exchange as it would be recorded
Event(k, v, d, sid, res, code, x, lost) ==
  LET s == sid # "" y == IF s THEN st.sess[sid] ELSE x
      m == Tok("Q_" \o SubSeq(k, 1, 1))
      om == Tok("S_" \o SubSeq(k, 1, 1)) \o Tok("TBM") \o Tok("END") \o Sel(k = "ALGS", Fill(2 * (36 + Sel(st.n.ver < 17, 0, 16)) - 24), "")
      q == IF s THEN [k |-> "sec", m |-> m, d |-> d, sid |-> sid, S |-> Traffic(st.n.ver, y.Sq), seq |-> y.nq, app |-> k = "APP", auth |-> TRUE, alg |-> st.n.aead, hseq |-> TRUE, tail |-> 0, pad |-> 0, rest |-> FALSE, mlen |-> 4]
           ELSE [k |-> "plain", m |-> m, d |-> d, sid |-> "", S |-> "", seq |-> 0, app |-> FALSE, auth |-> TRUE]
      \* the response to an accepted key update travels under the new keys
      z == IF s /\ k = "KUPD" /\ res = "ok" THEN Updated(st.n, [y EXCEPT !.nq = @ + 1], d.kop) ELSE y
      o == [k |-> Sel(s, "sec", "plain"), m |-> om, d |-> IF res = "ok" THEN OkMsg(k, v, d, sid, x) ELSE ErrRsp(code), lost |-> lost, auth |-> TRUE, exact |-> TRUE, mlen |-> 8, app |-> FALSE,
            sid |-> sid, S |-> IF s THEN Traffic(st.n.ver, z.Ss) ELSE "", seq |-> IF s THEN z.ns ELSE 0, hseq |-> TRUE, alg |-> st.n.aead]
  IN [q |-> q, o |-> IF res = "none" THEN <<>> ELSE IF k = "APP" THEN <<[o EXCEPT !.app = TRUE, !.m = "616e"]>> ELSE <<o>>, rf |-> FALSE, sf |-> lost, fault |-> "", rands |-> <<Tok("nnc")>>, pubs |-> <<Tok("xks")>>,
      apps |-> IF k = "APP" THEN <<[sid |-> sid, i |-> m, o |-> Sel(v = "fail", ErrApp, "616e")]>> ELSE <<>>,
      vends |-> IF k = "VEND" /\ v # "bad" THEN <<[i |-> "7061", fail |-> Sel(v = "fail", "1", "0"), o |-> "6170"]>> ELSE <<>>, haspost |-> FALSE, post |-> <<>>]
\* ------------------------------------------------------------------ what the control state is
Class(z) == {Sel(t = "", 0, 1) : t \in z}
View == <<st.ph, st.n.ver, Both(st.n, cMUT), Clear(st.n), Both(st.n, cHB), st.n.hash # 0, Class(st.BC), Class(st.M), {t.t : t \in st.temp}, st.peer[0] # "",
          [i \in 1..MaxLive |-> IF slot[i] = "" THEN <<>> ELSE LET x == st.sess[slot[i]] IN <<x.est, x.psk, x.mut, Class(x.M), Cardinality(x.F) > 1, slot[i] = st.last>>]>>
\* ------------------------------------------------------------------ steps
Place(s2, sl) == [i \in 1..MaxLive |->
   IF sl[i] # "" /\ sl[i] \in DOMAIN s2.sess THEN sl[i]
   ELSE LET new == DOMAIN s2.sess \ Rng(sl) free == {j \in 1..MaxLive : sl[j] = "" \/ sl[j] \notin DOMAIN s2.sess} IN
        IF new # {} /\ i = (CHOOSE j \in free : \A g \in free : j <= g) THEN CHOOSE s \in new : TRUE ELSE ""]
\* the control state after: computed in the next state
Edge(i, a, res, lost) == PrintT(<<"E", ToString(View), i, a[1], a[2], res, lost, ToString(View')>>)
Say(ok, what, a) == IF ok THEN TRUE ELSE Assert(FALSE, <<what, a, st.ph>>)
Results(v) == IF v.w = "ok" THEN {"ok"} ELSE IF v.w = "any" THEN (IF st.ph >= 3 /\ st.n.hash = 0 THEN {"err"} ELSE {"ok", "err"}) ELSE {"err"}
Live(k) == k \in {"KEX", "PSKX"} /\ Cardinality(DOMAIN st.sess) >= MaxLive
Verdict(k, v, sid, q, x) ==
  LET v0 == IF sid = "" THEN VerdictPlain(C, st, q.d) ELSE VerdictSess(C, st, st.sess[sid], q)
      v1 == IF v0.w = "fin" THEN VerdictFin(C, st, x, q) ELSE v0 IN
  IF v1.w # "vend" THEN v1 ELSE IF v = "fail" THEN No(Usual, {"C15"}) ELSE Ok
\* pairs (key, number) that protected a record so far
Pairs(e) == (IF e.q.k = "sec" THEN {<<e.q.S, e.q.seq>>} ELSE {}) \cup UNION {IF e.o[j].k = "sec" THEN {<<e.o[j].S, e.o[j].seq>>} ELSE {} : j \in 1..Len(e.o)}
Take(i, a) ==
  LET k == a[1] v == a[2] sid == IF i = 0 THEN "" ELSE slot[i]
      x == IF sid # "" THEN st.sess[sid] ELSE IF st.last \in DOMAIN st.sess THEN st.sess[st.last] ELSE Stub
      d == Req(k, v, x)
      q0 == Event(k, v, d, sid, "none", 0, x, FALSE).q
      vd == IF k = "APP" THEN (IF ~x.est \/ v = "fail" THEN No({}, {}) ELSE Ok) ELSE Verdict(k, v, sid, q0, x)
      code == IF vd.c = {} THEN 0 ELSE CHOOSE c \in vd.c : TRUE
      rs == IF k = "APP" THEN (IF vd.w = "ok" THEN {"ok"} ELSE {"none"}) ELSE Results(vd) \cup (IF vd.w = "no" THEN {"none"} ELSE {})
  IN \E res \in rs : \E lost \in (IF Losses /\ res = "ok" /\ k \notin {"APP", "HBEAT", "VEND"} THEN {FALSE, TRUE} ELSE {FALSE}) :
       LET e0 == Event(k, v, d, sid, res, code, x, lost)
           e == IF k = "APP" /\ ~x.est THEN [e0 EXCEPT !.apps = <<>>] ELSE e0
           out == Outcome(C, st, e)
           l == out.l
       IN /\ Say(l = {}, <<"a conforming answer is rejected", res, l, vd>>, a)
          \* the wrong answers
          /\ Say(~(vd.w = "no" /\ k # "APP" /\ RspOf(d.op) # -1 /\ d.wf) \/ Outcome(C, st, [e EXCEPT !.o = <<[Event(k, v, d, sid, "err", code, x, FALSE).o[1] EXCEPT !.d = [op |-> RspOf(d.op), ver |-> Sel(d.op = VERSION, 16, st.n.ver), exact |-> TRUE]]>>]).l # {},
                 <<"a success is accepted where the request must be refused">>, a)
          /\ Say(~(vd.w = "ok" /\ res = "ok" /\ k # "APP") \/ Outcome(C, st, Event(k, v, d, sid, "err", EInvalid, x, FALSE)).l # {}, <<"an error is accepted where the request must be served">>, a)
          /\ Say(~(vd.w = "ok" /\ res = "ok") \/ Outcome(C, st, [Event(k, v, d, sid, "none", 0, x, FALSE) EXCEPT !.apps = <<>>]).l # {}, <<"silence is accepted where the request must be served">>, a)
          /\ Say(~(res = "ok" /\ sid # "") \/ Outcome(C, st, [e EXCEPT !.o[1].S = "other"]).l # {}, <<"a wrong key is accepted">>, a)
          /\ Say(~(res = "ok" /\ sid # "") \/ Outcome(C, st, [e EXCEPT !.o[1].seq = @ + 1]).l # {}, <<"a wrong number is accepted">>, a)
          /\ Say(~(res = "ok" /\ (k \in {"CHALL", "KEX"} \/ (k = "MEAS" /\ v = "sig"))) \/ Outcome(C, st, [e EXCEPT !.o[1].d.sigt = "other"]).l # {}, <<"a wrong signature is accepted">>, a)
          /\ Say(~(res = "ok" /\ (k = "PSKX" \/ (k = "KEX" /\ ~Clear(st.n)) \/ (k = "FIN" /\ Clear(st.n)))) \/ Outcome(C, st, [e EXCEPT !.o[1].d.vdt = "other"]).l # {}, <<"wrong verify-data is accepted">>, a)
          /\ Say(~(res = "ok" /\ k \in {"CHALL", "MEAS"}) \/ Outcome(C, st, [e EXCEPT !.rands = <<>>]).l # {}, <<"a nonce from nowhere is accepted">>, a)
          /\ Say(Pairs(e) \cap acc = {}, <<"a key and number protect two records">>, a)
          /\ st' = out.st /\ cnt' = cnt + 1 /\ slot' = Place(out.st, slot) /\ acc' = {p \in acc \cup Pairs(e) : \E s \in DOMAIN out.st.sess : p[1] \in {Traffic(out.st.n.ver, out.st.sess[s].Sq), Traffic(out.st.n.ver, out.st.sess[s].Ss)}}
          /\ Edge(i, a, res, lost)
\* records nobody who holds the keys would send now
Forge(i, a) ==
  LET sid == slot[i] x == st.sess[sid] d == Req("HBEAT", "ok", x)
      e0 == Event("HBEAT", "ok", d, sid, "none", 0, x, FALSE)
      e == CASE a[2] = "forged" -> [e0 EXCEPT !.q.auth = FALSE, !.q.S = ""] [] a[2] = "old" -> [e0 EXCEPT !.q.seq = x.nq - 1] [] a[2] = "skip" -> [e0 EXCEPT !.q.seq = x.nq + 1]
             [] OTHER -> [e0 EXCEPT !.q.S = Traffic(st.n.ver, x.Ss)]
      out == Outcome(C, st, e) IN
  /\ (a[2] = "old" => x.nq > 0)
  /\ Say(out.l = {} /\ out.st = st, <<"a record that must be ignored has an effect">>, a)
  /\ Say(Outcome(C, st, [e EXCEPT !.o = Event("HBEAT", "ok", d, sid, "ok", 0, x, FALSE).o]).l # {}, <<"an answer to a forged record is accepted">>, a)
  /\ UNCHANGED vars /\ Edge(i, a, "none", FALSE)
Next == \/ \E a \in Plain : a[1] \in Actions /\ a[2] \notin Skip /\ ~Live(a[1]) /\ Take(0, a)
        \/ \E i \in 1..MaxLive : slot[i] # "" /\ \E a \in InSess : a[1] \in Actions \cup {"REC"} /\ a[2] \notin Skip /\ IF a[1] = "REC" THEN Forge(i, a) ELSE Take(i, a)
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------------ invariants of the design
\* sessions exist only on negotiated connections, each with its own keys, different in the two directions
NoEarlySession == st.sess # <<>> => st.ph >= 3
OwnKeys == \A a, b \in DOMAIN st.sess : /\ st.sess[a].Sq # st.sess[a].Ss
                                        /\ a # b => {st.sess[a].Sq, st.sess[a].Ss} \cap {st.sess[b].Sq, st.sess[b].Ss} = {}
\* an established session's keys are derived from a transcript that ends with its finish exchange, and from the negotiation
Bound == \A s \in DOMAIN st.sess : LET x == st.sess[s] IN x.est => Cardinality(x.F) = 1 /\ (x.psk \/ \A f \in x.F : f # "")
\* a chain is kept only when it is complete
Chains == st.peer[0] # "" => PeerOK(C, st.n, st.peer[0])
\* nothing is left of an earlier connection before the new one is negotiated
Fresh0 == st.ph \in {0, 1} => st.sess = <<>> /\ st.BC = {""} /\ st.M = {""} /\ st.n = NoNeg /\ st.peer = NoPeer /\ st.temp = {NoTemp} /\ st.last = ""
Inv == NoEarlySession /\ OwnKeys /\ Bound /\ Chains /\ Fresh0
=============================================================================
