----------------------------- MODULE ReqControl -----------------------------
(* The requester as a transition system: every operation of its interface, answered correctly or wrongly in every exchange,
   in every control state.  As in module Control, the state is the state of module Requester and every step is taken
   through Requester!Outcome, the operator that judges recorded runs.  For every reachable control state, operation, exchange
   of that operation and way to answer it TLC checks that
     - the specification accepts what a conforming requester does (requests, reported status), and
     - rejects the opposite (with Deep): success reported for an answer that must not be taken, failure for one that must be, a request
       with a wrong version, key, number or a stale nonce, going on after a failure, busy and not ready mixed up;
     - the invariants below hold;
   and prints the edge for replay into the real requester (mbt/fam_qctl.py).                                        *)
EXTENDS Requester, TLCExt
CONSTANTS Ops, Vary, MaxLive, RspCaps, Deep
\* a digest of the bytes (TLC's own 32 bit fingerprint keeps the terms short)
ModelDig(C, a, s) == "H" \o ToString(a) \o "(" \o ToString(TLCFP(s)) \o ")"
H3(x) == [k \in {"1", "2", "4"} |-> x \o k]
PChain == "CCCCDDDDEEEE"
C == [tr |-> "mctp", vers |-> <<16, 17, 18>>, reqcaps |-> <<1, 2, 6, 7, 8, 9, 10, 12, 13, 14, 15>>, rqct |-> 0, hash |-> <<1>>, asym |-> <<7>>, dhe |-> <<4>>, aead |-> <<1>>, rasym |-> <<7>>,
      ks |-> <<0>>, opq |-> <<1>>, mspecb |-> <<0>>, dts |-> 4096, max |-> 4096, slots |-> <<0>>, chain |-> [x \in {"0"} |-> H3("OWNCHAIN0")], ch |-> [x \in {"0"} |-> H3("ownhash")],
      qch |-> [x \in {PChain} |-> [ok |-> [k \in {"1", "2", "4"} |-> TRUE], h |-> H3("peerhash"), tag |-> "RSPLEAF0"]]]
SetToSeq(S) == LET F[T \in SUBSET S] == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : \A y \in T : x <= y IN <<x>> \o F[T \ {x}] IN F[S]
\* what responders may announce
Full == <<1, 2, 4, 6, 7, 8, 9, 11, 12, 13, 14>>
InClear == Full \o <<15>>
Plain == <<1, 2, 4, 6, 7, 9, 10, 13, 14>>
VARIABLES st, cnt, slot
vars == <<st, cnt, slot>>
Init == st = InitSt /\ cnt = 0 /\ slot = [i \in 1..MaxLive |-> ""]
\* tokens: eight characters, unique per step (cnt) and exchange (i)
Pad(n, w) == LET s == ToString(n) IN SubSeq("00000", 1, w - Len(s)) \o s
Tok(c, i) == c \o ToString(i % 10) \o Pad(cnt, 4)
Tok8(c, i) == Tok(c, i)                                     \* c is three characters long
\* ------------------------------------------------------------------ operations
Arg == [sid |-> "", slot |-> 0, msum |-> 0, mop |-> 0, atb |-> <<>>, kop |-> 0, rslot |-> -1, hint |-> "", data |-> "", usepsk |-> FALSE]
PlainOps == {<<"init", "ok">>, <<"version", "ok">>, <<"version", "v11">>, <<"version", "v10">>, <<"capability", "ok">>, <<"algorithm", "ok">>, <<"digest", "ok">>,
             <<"certificate", "one">>, <<"certificate", "two">>, <<"certificate", "slot8">>, <<"challenge", "ok">>, <<"challenge", "sum">>, <<"measurement", "one">>, <<"measurement", "all">>, <<"measurement", "num">>,
             <<"measurement", "sig">>, <<"kex", "ok">>, <<"kex", "sum">>, <<"kex", "mut0">>, <<"kex", "mut1">>, <<"kex", "mut2">>, <<"psk", "ok">>, <<"start", "kex">>, <<"start", "mut1">>, <<"start", "mut2">>, <<"start", "psk">>, <<"vendor", "ok">>}
SessOps == {<<"digest", "ok">>, <<"certificate", "one">>, <<"measurement", "one">>, <<"measurement", "sig">>, <<"vendor", "ok">>, <<"finish", "ok">>, <<"finish", "rslot">>, <<"pskfinish", "ok">>, <<"mutauth", "ok">>,
            <<"heartbeat", "ok">>, <<"keyupdate", "1">>, <<"keyupdate", "2">>, <<"keyupdate", "0">>, <<"end", "ok">>, <<"appsend", "ok">>, <<"apprecv", "ok">>}
Args(o, v, sid) ==
  LET b == [Arg EXCEPT !.sid = sid] IN
  CASE o = "certificate" -> [b EXCEPT !.slot = Sel(v = "slot8", 8, 0)]
    [] o = "challenge" -> [b EXCEPT !.msum = Sel(v = "sum", 255, 0)]
    [] o = "measurement" -> [b EXCEPT !.mop = CASE v = "all" -> 255 [] v = "num" -> 0 [] OTHER -> 1, !.atb = Sel(v = "sig", <<0>>, <<>>)]
    [] o = "kex" -> [b EXCEPT !.msum = Sel(v = "sum", 1, 0)]
    [] o = "psk" -> [b EXCEPT !.hint = "68"]
    [] o = "start" -> [b EXCEPT !.usepsk = (v = "psk")]
    [] o = "keyupdate" -> [b EXCEPT !.kop = CASE v = "1" -> 1 [] v = "2" -> 2 [] OTHER -> 0]
    [] o = "finish" -> [b EXCEPT !.rslot = Sel(v = "rslot", 0, -1)]
    [] o \in {"vendor", "appsend"} -> [b EXCEPT !.data = "7061"]
    [] OTHER -> b
\* ------------------------------------------------------------------ the request a conforming requester sends
Ask(R, e, k, i) ==
  LET n == R.st.n a == e.a sid == R.sid m == Tok8("Q_" \o SubSeq("VCADEHMKFPGBUSNW", 1, 1), i)
      x == IF sid # "" THEN R.st.sess[sid] ELSE NewSess(FALSE, {}, 0, "", "", "", "", "", "", 0, 0)
      insec == sid # "" /\ ~(k = FIN /\ Clear(n))
      b == [op |-> k, wf |-> TRUE, ver |-> Sel(k = VERSION, 16, n.ver), used |-> 99]
      mt == x.mut # {} qh == IF mt THEN Own(C, n, R.st.lslot) ELSE ""
      f0 == CHOOSE f \in x.F : TRUE h0 == f0 \o Hex(m, 4) sg == IF mt THEN Tok8("SIG", i) ELSE ""
      own == OwnChain(C, n, R.st.lslot) q == R.enc
      inn == IF q.op = DIGESTS /\ q.wf THEN [op |-> 1, wf |-> TRUE, ver |-> n.ver, mask |-> <<0>>, digs |-> <<Own(C, n, 0)>>]
             ELSE IF q.op = CERT /\ q.wf THEN LET c == OwnChain(C, n, 0) IN [op |-> 2, wf |-> TRUE, ver |-> n.ver, slot |-> 0, plen |-> Blen(c) - q.off, data |-> Sub(c, q.off, Blen(c)), rem |-> 0]
             ELSE [op |-> ERROR, wf |-> TRUE, ver |-> n.ver]
      d == CASE k = CAPS -> b @@ [flags |-> Sel(n.ver >= 17, C.reqcaps, <<>>), ct |-> 0, dts |-> C.dts, max |-> C.max]
             [] k = ALGS -> b @@ [mspec |-> C.mspecb, opq |-> C.opq, asym |-> C.asym, hash |-> C.hash, exta |-> 0, exth |-> 0, len |-> 99,
                                  st |-> [j \in 1..4 |-> [t |-> j + 1, n |-> 32, a |-> CASE j = 1 -> C.dhe [] j = 2 -> C.aead [] j = 3 -> C.rasym [] OTHER -> C.ks]]]
             [] k = CERT -> b @@ [slot |-> a.slot, off |-> Blen(R.t), len |-> Sel(R.z = -1, 512, Want(R))]
             [] k = CHALL -> b @@ [slot |-> a.slot, ms |-> a.msum, nonce |-> Tok8("nnc", i)]
             [] k = MEAS -> b @@ [mop |-> a.mop, atb |-> a.atb, slot |-> a.slot, nonce |-> Sel(a.atb = <<>>, "", Tok8("nnc", i))]
             [] k = KEX -> b @@ [slot |-> a.slot, ms |-> a.msum, rnd |-> Tok8("nnc", i), exch |-> Tok8("xkq", i), oplist |-> TRUE, opvers |-> <<16, 17>>, rsid |-> "q" \o Pad(cnt % 1000, 3)]
             [] k = PSKX -> b @@ [hint |-> a.hint, ms |-> a.msum, ctx |-> Tok8("nnc", i), oplist |-> TRUE, opvers |-> <<16, 17>>, rsid |-> "q" \o Pad(cnt % 1000, 3)]
             [] k \in {FIN, PSKF} -> b @@ [atb |-> Sel(mt, <<0>>, <<>>), slot |-> Sel(e.op = "finish", Sel(a.rslot >= 0, a.rslot, 0), Sel(mt, R.st.lslot, 0)), sig |-> sg, vd |-> Tok8("VDQ", i),
                                           sigt |-> Sel(mt, Sig("REQLEAF0", n.hash, n.rasym, CtxFin, D(C, R.st, R.st.A \o x.rch \o x.K \o qh \o h0)), ""),
                                           vdt |-> Mac(n.hash, FinKey(n.hash, n.ver, x.hsq), D(C, R.st, R.st.A \o x.rch \o x.K \o qh \o h0 \o sg))]
             [] k = KUPD -> b @@ [kop |-> Sel(i = 1, a.kop, 3), tag |-> i]
             [] k = ENDS -> b @@ [attr |-> 0]
             [] k = VEND -> b @@ [pay |-> a.data]
             [] k = ENCDEL -> b @@ [rid |-> R.rid, inn |-> inn]
             [] OTHER -> b
  IN [k |-> Sel(insec, "sec", "plain"), m |-> m, d |-> d, auth |-> TRUE, exact |-> TRUE, mlen |-> 99, app |-> FALSE, sid |-> sid, S |-> IF insec THEN Traffic(n.ver, x.Sq) ELSE "",
      seq |-> IF insec THEN x.nq ELSE 0, hseq |-> TRUE, alg |-> n.aead]
\* ------------------------------------------------------------------ the answers
\* ways to answer wrongly
Wrong(k, insec) == {"ver", "inv", "busy", "notready", "kind", "trunc", "mute", "lost"} \cup (IF insec THEN {"resync", "decrypt", "forged", "old", "skip", "other", "plainch", "app"} ELSE {"secch"})
  \cup (CASE k = VERSION -> {"none"} [] k = CAPS -> {"flags"} [] k = ALGS -> {"offer"} [] k = CERT -> {"slot", "long", "hollow", "bad", "over"} [] k = CHALL -> {"sig", "slot", "hash", "ctx"}
          [] k = MEAS -> {"sig", "rec"} [] k = KEX -> {"sig", "vd", "opsel", "nosel"} [] k = PSKX -> {"vd", "opsel", "nosel"} [] k = FIN -> {"vd"} [] k = KUPD -> {"tag", "op"}
          [] k = ENCREQ -> {"odd"} [] k = ENCDEL -> {"pt3", "odd"} [] OTHER -> {})
\* those that change nothing for this request
Moot(n, e, k, var) == (k = MEAS /\ var = "sig" /\ e.a.atb = <<>>) \/ (var = "vd" /\ k = FIN /\ ~Clear(n)) \/ (var = "vd" /\ k = KEX /\ Clear(n))
Honest(R, e, s, k, i, av) ==
  LET n == R.st.n a == e.a raw == Tok8("S_R", i) \o Tok8("TBM", i) \o Tok8("END", i) sid == R.sid
      b == [op |-> RspOf(k), ver |-> Sel(k = VERSION, 16, n.ver), wf |-> TRUE, used |-> 99, exact |-> TRUE, raw |-> raw, tbs |-> 4, tbm |-> 8, p1 |-> 0]
      tbs == Hex(raw, 4) two == av = "two" /\ R.z = -1
      M == IF sid = "" THEN R.st.M ELSE R.st.sess[sid].M
      nb == Sel(a.mop = 255, 2, Sel(a.mop = 0, 0, 1))
      mut == CASE av = "mut0" -> <<0>> [] av = "mut1" -> <<1>> [] av = "mut2" -> <<2>> [] OTHER -> <<>>
      one(z) == CHOOSE t \in z : TRUE
      off == Blen(R.t)
  IN CASE k = VERSION -> b @@ [vers |-> CASE av = "v11" -> <<16, 17>> [] av = "v10" -> <<16>> [] OTHER -> <<16, 17, 18>>]
       [] k = CAPS -> b @@ [flags |-> IF n.ver = 16 THEN <<1, 2, 4>> ELSE RspCaps, ct |-> 0, dts |-> 4096, max |-> 4096]
       [] k = ALGS -> b @@ [mspec |-> <<0>>, mhash |-> <<1>>, asym |-> C.asym, hash |-> C.hash, opq |-> Sel(n.ver >= 18, C.opq, <<>>), exta |-> 0, exth |-> 0, cnt |-> Sel(n.ver >= 17, 4, 0), len |-> 36 + Sel(n.ver >= 17, 16, 0),
                             st |-> IF n.ver >= 17 THEN [j \in 1..4 |-> [t |-> j + 1, n |-> 32, a |-> CASE j = 1 -> C.dhe [] j = 2 -> C.aead [] j = 3 -> C.rasym [] OTHER -> C.ks]] ELSE <<>>]
       [] k = DIGESTS -> b @@ [mask |-> <<0>>, digs |-> <<PeerHash(C, n, PChain)>>]
       [] k = CERT -> LET len == IF two THEN 2 ELSE Blen(PChain) - off IN b @@ [slot |-> a.slot, plen |-> len, rem |-> Blen(PChain) - off - len, data |-> Sub(PChain, off, len)]
       [] k = CHALL -> b @@ [slot |-> a.slot, atb |-> <<>>, ch |-> PeerHash(C, n, PChain), sigt |-> Sig("RSPLEAF0", n.hash, n.asym, CtxChal, D(C, R.st, R.st.A \o one(R.st.BC) \o Hex(s.m, 99) \o tbs))]
       [] k = MEAS -> b @@ [nblk |-> nb, blk |-> [j \in 1..nb |-> j], rec |-> Sel(nb = 0, "", "6d31"), dmtf |-> TRUE, slot |-> a.slot, p1 |-> Sel(a.mop = 0, 2, 0),
                            sigt |-> Sig("RSPLEAF0", n.hash, n.asym, CtxMeas, D(C, R.st, MeasA(R.st) \o one(M) \o Hex(s.m, 99) \o tbs))]
       [] k = KEX -> LET r0 == b @@ [opok |-> TRUE, opsel |-> <<16>>, rsid |-> "r" \o Pad(cnt % 1000, 3), exch |-> Tok8("xks", i), mut |-> mut, rslot |-> 0, vd |-> Sel(Clear(n), "", Tok8("VDS", i)), hb |-> 0]
                         z == KexSess(C, R.st, e, s, r0) IN
                     r0 @@ [sigt |-> Sig("RSPLEAF0", n.hash, n.asym, CtxKex, z.tbs), vdt |-> Mac(n.hash, FinKey(n.hash, n.ver, z.x.hss), z.th1)]
       [] k = PSKX -> LET r0 == b @@ [opok |-> TRUE, opsel |-> <<16>>, rsid |-> "r" \o Pad(cnt % 1000, 3), ctx |-> Sel(cPSKX \in n.rsc, Tok8("ctx", i), ""), vd |-> Tok8("VDS", i), hb |-> 0]
                          z == PskSess(C, R.st, e, s, r0) IN r0 @@ [vdt |-> Mac(n.hash, FinKey(n.hash, n.ver, z.x.hss), z.th1)]
       [] k = FIN -> LET x == R.st.sess[sid] qh == IF x.mut # {} THEN Own(C, n, R.st.lslot) ELSE "" f == one(x.F) IN
                     b @@ [vd |-> "", vdt |-> Mac(n.hash, FinKey(n.hash, n.ver, x.hss), D(C, R.st, R.st.A \o x.rch \o x.K \o qh \o f \o Hex(s.m, 4) \o s.d.sig \o s.d.vd \o Hex(raw, 8)))]
       [] k = KUPD -> b @@ [kop |-> s.d.kop, tag |-> s.d.tag]
       [] k = ENCREQ -> b @@ [rid |-> 7, enc |-> [op |-> DIGESTS, ver |-> n.ver, wf |-> TRUE]]
       [] k = ENCDEL -> LET inn == s.d.inn IN b @@ [ack |-> R.rid, rid |-> 7 + i, rslot |-> 0, pt |-> IF inn.op = 1 THEN 1 ELSE IF inn.op = 2 THEN 2 ELSE 0,
                                                   enc |-> IF inn.op = 1 THEN [op |-> CERT, ver |-> n.ver, wf |-> TRUE, slot |-> 0, off |-> 0, len |-> 512] ELSE [op |-> -1, ver |-> n.ver, wf |-> FALSE]]
       [] k = VEND -> b @@ [pay |-> "6170"]
       [] OTHER -> b
Err(b, c) == [b EXCEPT !.op = ERROR, !.p1 = c]
Odd(n) == [op |-> MEAS, ver |-> n.ver, wf |-> TRUE]
Spoil(R, k, r, var) == LET n == R.st.n IN
  CASE var = "ver" -> [r EXCEPT !.ver = Sel(@ = 17, 18, 17)] [] var = "inv" -> Err(r, EInvalid) [] var = "busy" -> Err(r, EBusy) [] var = "notready" -> Err(r, ENotReady)
    [] var = "resync" -> Err(r, EResync) [] var = "decrypt" -> Err(r, EDecrypt) [] var = "kind" -> [r EXCEPT !.op = Sel(k = HBEAT, 108, 104)] [] var = "trunc" -> [r EXCEPT !.wf = FALSE]
    [] var = "none" -> [r EXCEPT !.vers = <<19>>] [] var = "flags" -> [r EXCEPT !.flags = IF n.ver = 16 THEN <<2>> ELSE <<1, 2, 9>>]
    [] var = "offer" -> [r EXCEPT !.hash = <<2>>] [] var = "slot" -> [r EXCEPT !.slot = 1] [] var = "long" -> [r EXCEPT !.plen = 600] [] var = "hollow" -> [r EXCEPT !.plen = 0, !.data = "", !.rem = 5]
    [] var = "bad" -> [r EXCEPT !.data = "FF" \o Sub(@, 1, Blen(@))] [] var = "over" -> [r EXCEPT !.rem = @ + 4090]
    [] var = "sig" -> [r EXCEPT !.sigt = "wrong"] [] var = "ctx" -> [r EXCEPT !.sigt = Sig("RSPLEAF0", n.hash, n.asym, CtxMeas, "x")] [] var = "hash" -> [r EXCEPT !.ch = "otherhash"] [] var = "rec" -> [r EXCEPT !.nblk = @ + 1]
    [] var = "vd" -> [r EXCEPT !.vdt = "wrong"] [] var = "opsel" -> [r EXCEPT !.opsel = <<18>>] [] var = "nosel" -> [r EXCEPT !.opsel = <<>>]
    [] var = "tag" -> [r EXCEPT !.tag = @ + 1] [] var = "op" -> [r EXCEPT !.kop = 4 - @] [] var = "pt3" -> [r EXCEPT !.pt = 3]
    [] var = "odd" -> IF k = ENCREQ THEN [r EXCEPT !.enc = Odd(n)] ELSE [r EXCEPT !.pt = 1, !.enc = Odd(n)]
    [] OTHER -> r
Xchg(R, e, k, i, av, var) ==
  LET n == R.st.n s == Ask(R, e, k, i) sid == R.sid insec == s.k = "sec"
      d == Spoil(R, k, Honest(R, e, s, k, i, av), var)
      x == IF insec THEN (IF k = KUPD THEN Updated(n, R.st.sess[sid], s.d.kop) ELSE R.st.sess[sid]) ELSE NewSess(FALSE, {}, 0, "", "", "", "", "", "", 0, 0)
      sec == (insec /\ var # "plainch") \/ var = "secch"
      f == [k |-> Sel(sec, "sec", "plain"), m |-> d.raw, d |-> d, auth |-> var # "forged", app |-> var = "app", exact |-> TRUE, mlen |-> 99, sid |-> sid,
            S |-> IF var \in {"forged", "secch"} THEN "" ELSE IF ~sec THEN "" ELSE IF var = "other" THEN Traffic(n.ver, x.Sq) ELSE Traffic(n.ver, x.Ss),
            seq |-> IF ~sec THEN 0 ELSE CASE var = "old" -> x.ns - 1 [] var = "skip" -> x.ns + 1 [] OTHER -> x.ns, hseq |-> TRUE, alg |-> n.aead, tail |-> 0, pad |-> 0, rest |-> FALSE]
  IN [s |-> s, lost |-> var = "lost", got |-> var \notin {"lost", "mute"}, r |-> f]
\* ------------------------------------------------------------------ a whole operation: [e, R, done]
\* at: the exchange that is answered wrongly (0: none), var: how; tk: whether an answer the specification leaves open is taken
RECURSIVE Play(_, _, _, _, _, _, _)
Play(R, e, i, av, at, var, tk) ==
  IF R.w # "go" \/ R.k < 0 \/ i > 8 \/ MayAsk(C, R.st, e, R.k, R.sid) \notin {"go", Sel(tk, "any", "go")} THEN [e |-> e, R |-> R, kind |-> 0]
  ELSE LET k == R.k v == Sel(i = at, var, "ok")
           x == Xchg(R, e, k, i, av, v)
           e2 == [e EXCEPT !.ex = Append(@, x), !.rands = Append(@, Tok8("nnc", i)), !.pubs = Append(@, Tok8("xkq", i)), !.broke = @ \/ ~x.got]
           yes == Exch(C, R, e2, x, TRUE) no == Exch(C, R, e2, x, FALSE)
           can == yes.w = "go" must == no.w # "fail"
       IN IF can /\ (must \/ tk) THEN Play(yes, e2, i + 1, av, at, var, tk) ELSE [e |-> e2, R |-> no, kind |-> k]
Kinds(e) == {e.ex[j].s.d.op : j \in 1..Len(e.ex)}
Ret(p) == IF p.R.w = "go" /\ p.R.k = -2 THEN "ok" ELSE IF p.R.w = "fail" /\ p.R.err \in {"busy", "notready"} THEN p.R.err ELSE "other"
OkVal(e, R) == LET r == e.ex[Len(e.ex)].r.d IN
  CASE Len(e.ex) = 0 \/ e.ex[Len(e.ex)].s.d.op \notin {MEAS, KEX, PSKX, FIN, PSKF, VEND} -> ""
    [] e.op = "measurement" -> ToString(Sel(e.a.mop = 0, r.p1, r.nblk)) \o "," \o ToString(r.nblk) \o "," \o Sel(r.rec = "", "-", r.rec)
    [] e.op \in {"kex", "psk", "start"} -> R.sid [] e.op = "vendor" -> r.pay [] OTHER -> ""
Call(o, a) == [op |-> o, a |-> a, ex |-> <<>>, ret |-> "", val |-> "", fault |-> "", rands |-> <<>>, pubs |-> <<>>, broke |-> FALSE, haspost |-> FALSE, post |-> <<>>]
\* ------------------------------------------------------------------ what the control state is
Class(z) == {IF t = "" THEN 0 ELSE IF t = Unknown THEN 2 ELSE 1 : t \in z}
View == <<st.ph, st.n.ver, Clear(st.n), Class(st.BC), Class(st.M), st.peer[0] # "", st.made, st.lslot,
          [i \in 1..MaxLive |-> IF slot[i] = "" THEN <<>> ELSE LET x == st.sess[slot[i]] IN <<x.est, x.psk, x.mut, Class(x.M), Cardinality(x.F) > 1, x.unk>>]>>
Place(s2, sl) == [i \in 1..MaxLive |->
   IF sl[i] # "" /\ sl[i] \in DOMAIN s2.sess THEN sl[i]
   ELSE LET new == DOMAIN s2.sess \ Rng(sl) free == {j \in 1..MaxLive : sl[j] = "" \/ sl[j] \notin DOMAIN s2.sess} IN
        IF new # {} /\ i = (CHOOSE j \in free : \A g \in free : j <= g) THEN CHOOSE s \in new : TRUE ELSE ""]
Edge(i, a, at, var, ret) == PrintT(<<"E", ToString(View), i, a[1], a[2], ToString(at) \o var, ret, ToString(View')>>)
Say(ok, what, a) == IF ok THEN TRUE ELSE Assert(FALSE, <<what, a, st.ph>>)
\* ------------------------------------------------------------------ steps
Bad(e) == Outcome(C, st, e).l # {}
WithEx(e, j, x) == [e EXCEPT !.ex[j] = x]
Take1(i, a, at, var, tk) ==
  LET sid == IF i = 0 THEN "" ELSE slot[i]
      e0 == Call(a[1], Args(a[1], a[2], sid))
      p == TLCEval(Play(Start(C, st, e0, sid), e0, 1, a[2], at, var, tk))
      ret == Ret(p)
      e == [p.e EXCEPT !.ret = ret, !.val = Sel(ret = "ok", OkVal(p.e, p.R), "")]
      out == TLCEval(Outcome(C, st, e))
      n == Len(e.ex) last == e.ex[n]
      judged == ~(sid # "" /\ st.sess[sid].unk)
  IN /\ Say(out.l = {}, <<"a conforming run is rejected", out.l, ret, at, var, n>>, a)
     /\ Deep /\ judged /\ n > 0 =>
        /\ Say(ret # "ok" \/ Bad([e EXCEPT !.ret = "other"]) \/ p.kind # 0 \/ tk, <<"a failure is accepted where the answer must be taken">>, a)
        /\ Say(p.R.w # "fail" \/ tk \/ Exch(C, Run(C, Start(C, st, e0, sid), [e EXCEPT !.ex = SubSeq(@, 1, n - 1), !.ret = "ok"], 1), [e EXCEPT !.ret = "ok"], last, TRUE).w = "go" \/ Bad([e EXCEPT !.ret = "ok", !.val = OkVal(p.e, p.R)]),
               <<"success is accepted for a wrong answer", at, var>>, a)
        /\ Say(p.R.w # "fail" \/ Bad([e EXCEPT !.ex = Append(@, last)]), <<"going on after a failure is accepted", at, var>>, a)
        /\ Say(ret # "busy" \/ (Bad([e EXCEPT !.ret = "notready"]) /\ Bad([e EXCEPT !.ret = "other"])), <<"busy is mixed up", at, var>>, a)
        /\ Say(ret # "notready" \/ (Bad([e EXCEPT !.ret = "busy"]) /\ Bad([e EXCEPT !.ret = "other"])), <<"not ready is mixed up", at, var>>, a)
        \* the request: judged where nothing was answered
        /\ var = "mute" \/ at = 0 =>
           /\ Say(Bad(WithEx(e, n, [last EXCEPT !.s.d.ver = 33])), <<"a wrong version is accepted", at, var>>, a)
           /\ Say(last.s.k # "sec" \/ Bad(WithEx(e, n, [last EXCEPT !.s.S = "other"])), <<"a wrong key is accepted", at, var>>, a)
           /\ Say(last.s.k # "sec" \/ Bad(WithEx(e, n, [last EXCEPT !.s.seq = @ + 1])), <<"a wrong number is accepted", at, var>>, a)
           /\ Say(last.s.k # "sec" \/ Bad(WithEx(e, n, [last EXCEPT !.s.k = "plain"])), <<"a request outside its session is accepted", at, var>>, a)
           /\ Say(Kinds(e) \cap {CHALL, KEX, PSKX} = {} \/ Bad([e EXCEPT !.rands = <<>>]), <<"a nonce from nowhere is accepted">>, a)
     /\ st' = out.st /\ cnt' = cnt + 1 /\ slot' = Place(out.st, slot)
     /\ Edge(i, a, at, var, ret)
\* application data
App(i, a, var) ==
  LET sid == slot[i] x == st.sess[sid] n == st.n
      e0 == Call(a[1], [Args(a[1], a[2], sid) EXCEPT !.data = "7061"])
      s == [k |-> "sec", m |-> "7061", d |-> [op |-> 97, wf |-> TRUE], auth |-> TRUE, exact |-> TRUE, mlen |-> 2, app |-> TRUE, sid |-> sid, S |-> Traffic(n.ver, x.Sq), seq |-> x.nq, hseq |-> TRUE, alg |-> n.aead]
      f == [s EXCEPT !.S = CASE var = "forged" -> "" [] var = "other" -> Traffic(n.ver, x.Sq) [] OTHER -> Traffic(n.ver, x.Ss), !.auth = var # "forged", !.seq = CASE var = "old" -> x.ns - 1 [] var = "skip" -> x.ns + 1 [] OTHER -> x.ns, !.m = "6170"] @@ [tail |-> 0, pad |-> 0, rest |-> FALSE]
      ok == var = "ok" /\ x.est
      e == IF a[1] = "appsend" THEN [e0 EXCEPT !.ex = IF x.est THEN <<[s |-> s, lost |-> var = "lost", got |-> FALSE, r |-> f]>> ELSE <<>>, !.ret = Sel(ok, "ok", "other")]
           ELSE [e0 EXCEPT !.ex = <<[s |-> s, lost |-> FALSE, got |-> var # "mute", r |-> f]>>, !.ret = Sel(ok, "ok", "other"), !.val = Sel(ok, "6170", "")]
      out == Outcome(C, st, e) IN
  /\ (a[1] = "apprecv" => x.est) /\ (var = "old" => x.ns > 0)
  /\ Say(out.l = {}, <<"a conforming run is rejected", out.l, var>>, a)
  /\ (Deep /\ ~x.unk => /\ Say(ok \/ Bad([e EXCEPT !.ret = "ok", !.val = "6170"]), <<"success is accepted", var>>, a)
                /\ Say(~ok \/ Bad([e EXCEPT !.ret = "other"]), <<"failure is accepted", var>>, a)
                /\ Say(~ok \/ a[1] # "apprecv" \/ Bad([e EXCEPT !.val = "6171"]), <<"other data is accepted", var>>, a)
                /\ Say(~ok \/ a[1] # "appsend" \/ Bad([e EXCEPT !.ex[1].s.seq = @ + 1]), <<"a wrong number is accepted", var>>, a))
  /\ st' = out.st /\ cnt' = cnt + 1 /\ slot' = Place(out.st, slot) /\ Edge(i, a, 1, var, e.ret)
Room(a) == a[1] \notin {"kex", "psk", "start"} \/ Cardinality(DOMAIN st.sess) < MaxLive
\* what a caller may do at all: requests the specification leaves to nobody are not asked for
Enabled(e, sid) == ~Misuse(st, e) /\ First(C, st, e) # -1 /\ (First(C, st, e) > 0 => MayAsk(C, st, e, First(C, st, e), sid) # "any")
Steps(i, a) ==
  LET sid == IF i = 0 THEN "" ELSE slot[i] e0 == Call(a[1], Args(a[1], a[2], sid))
      p0 == Play(Start(C, st, e0, sid), e0, 1, a[2], 0, "ok", TRUE) N == Len(p0.e.ex) IN
  /\ Enabled(e0, sid) /\ Room(a)
  /\ \/ \E tk \in (IF a[1] \in {"start", "challenge", "measurement"} THEN {TRUE, FALSE} ELSE {TRUE}) : Take1(i, a, 0, "ok", tk)
     \/ \E at \in 1..N : p0.e.ex[at].s.d.op \in Vary /\ \E var \in Wrong(p0.e.ex[at].s.d.op, p0.e.ex[at].s.k = "sec") :
          /\ ~Moot(st.n, e0, p0.e.ex[at].s.d.op, var) /\ (var = "old" => p0.e.ex[at].s.sid \in DOMAIN st.sess /\ st.sess[p0.e.ex[at].s.sid].ns > 0)
          /\ \E tk \in {TRUE, FALSE} : Take1(i, a, at, var, tk)
AppSteps(i, a) == \E var \in (IF a[1] = "appsend" THEN {"ok", "lost"} ELSE {"ok", "forged", "old", "skip", "other", "mute"}) : App(i, a, var)
Next == \/ \E a \in PlainOps : a[1] \in Ops /\ Steps(0, a)
        \/ \E i \in 1..MaxLive : slot[i] # "" /\ ~st.sess[slot[i]].unk /\ \E a \in SessOps : a[1] \in Ops /\ IF a[1] \in {"appsend", "apprecv"} THEN AppSteps(i, a) ELSE Steps(i, a)
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------------ invariants of the design
NoEarlySession == st.sess # <<>> => st.ph >= 3 \/ st.ph < 0
OwnKeys == \A a, b \in DOMAIN st.sess : /\ st.sess[a].Sq # st.sess[a].Ss
                                        /\ a # b => {st.sess[a].Sq, st.sess[a].Ss} \cap {st.sess[b].Sq, st.sess[b].Ss} = {}
Bound == \A s \in DOMAIN st.sess : LET x == st.sess[s] IN x.est /\ ~x.unk => Cardinality(x.F) = 1
\* a chain is kept only when it verified
Chains == st.peer[0] # "" => ChainOK(C, st.n, st.peer[0])
Fresh0 == st.ph \in {0, 1} => st.sess = <<>> /\ st.BC = {""} /\ st.M = {""} /\ st.peer = NoPeer
\* a certificate session rests on a verified chain
Rooted == \A s \in DOMAIN st.sess : st.sess[s].psk \/ st.sess[s].rch # "" \/ st.sess[s].unk
Inv == NoEarlySession /\ OwnKeys /\ Bound /\ Chains /\ Fresh0 /\ Rooted
=============================================================================
