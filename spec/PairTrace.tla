----------------------------- MODULE PairTrace -----------------------------
(* The real requester and the real responder connected to each other, with somebody on the wire.  Both specifications run
   over the recorded events of their side; between the two, whenever an operation of the requester has ended:

   - a session the requester has was agreed with the responder: same negotiation, same chain, same exchange (the responder
     made it, from the same messages), whatever was done to the messages in between;
   - a session the responder finished was asked for by the requester with exactly these messages;
   - both then use the same parameters;
   - what the responder's application was given in a session is what the requester sent there, in that order, nothing twice;
   - as long as nobody touched the wire, every operation succeeds and the two ends are in step.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)
TraceDig(C, a, s) == LET k == ToString(a) \o ":" \o s IN IF k \in DOMAIN C.dig THEN C.dig[k] ELSE "none"
Q == INSTANCE Requester WITH DigOf <- TraceDig
S == INSTANCE Responder WITH DigOf <- TraceDig
VARIABLES sc, i, q, s, h
vars == <<sc, i, q, s, h>>
Ev(x) == Trace[x].ev
\* h: what either side ever agreed to, and the application data sent and not yet delivered per session
H0 == [qk |-> {}, sk |-> {}, sent |-> <<>>]
Init == sc \in 1..Len(Trace) /\ i = 0 /\ q = Q!InitSt /\ s = S!InitSt /\ h = H0
Report(x, k, l) == IF l = {} THEN TRUE ELSE PrintT(<<"VIOL", Trace[x].sc, k, l>>)
Rng(z) == {z[j] : j \in 1..Len(z)}
L(ok, l) == IF ok THEN {} ELSE {l}
\* ------------------------------------------------------------------ one event of either side
StepS(x, k, t) == LET C == Trace[x].cs e == Ev(x)[k] IN
  IF e.ret \in {"panic", "crash"} THEN [l |-> {"C17.panic"}, st |-> t]
  ELSE LET r == S!Outcome(C, t, e) l == r.l \cup (IF e.haspost THEN S!PostLabels(r.st, e.post, {}) ELSE {}) IN
       [l |-> l, st |-> IF l = {} \/ ~e.haspost THEN r.st ELSE S!Resync(r.st, e.post)]
StepQ(x, k, t) == LET C == Trace[x].cq e == Ev(x)[k] IN
  IF e.ret \in {"panic", "crash"} THEN [l |-> IF Q!Misuse(t, e) THEN {} ELSE {"C17.panic"}, st |-> t]
  ELSE LET r == Q!Outcome(C, t, e) l == r.l \cup (IF e.haspost THEN Q!PostLabels(r.st, e.post, {}) ELSE {}) IN
       [l |-> l, st |-> IF l = {} \/ ~e.haspost THEN r.st ELSE Q!Resync(r.st, e.post)]
\* ------------------------------------------------------------------ what the two have to agree on
Deal(n, A, x) == <<n.ver, n.hash, n.asym, n.dhe, n.aead, n.rasym, n.rqc, n.rsc, A, x.psk, x.rch, x.K>>
Deals(t) == {<<y, Deal(t.n, t.A, t.sess[y])>> : y \in {y \in DOMAIN t.sess : ~t.sess[y].unk}}
Asked(t) == {y \in DOMAIN t.sess : ~t.sess[y].unk /\ t.sess[y].est /\ ~(t.sess[y].psk /\ S!cPSKX \notin t.n.rsc)}
Agree(tq, ts, hh) ==
  UNION {L(d \in hh.sk, IF d[2][10] THEN "C20.agree" ELSE "C06.agree") : d \in Deals(tq)}
  \cup UNION {LET d == <<y, Deal(ts.n, ts.A, ts.sess[y])>> IN L(d \in hh.qk, "C05.agree") : y \in Asked(ts)}
\* nobody touched the wire
Same(tq, ts) == /\ DOMAIN tq.sess = DOMAIN ts.sess
                /\ \A y \in DOMAIN tq.sess : LET a == tq.sess[y] b == ts.sess[y] IN
                     ~a.unk /\ ~b.unk /\ a.est = b.est /\ a.Sq = b.Sq /\ a.Ss = b.Ss /\ a.M = b.M /\ (a.est => a.nq = b.nq /\ a.ns = b.ns) /\ a.secver = b.secver /\ a.hb = b.hb
InStep(e, tq, ts) ==
  L(e.ret = "ok", "C27.failed")
  \cup (IF e.ret # "ok" THEN {} ELSE
        L(Deal(tq.n, tq.A, [psk |-> FALSE, rch |-> "", K |-> ""]) = Deal(ts.n, ts.A, [psk |-> FALSE, rch |-> "", K |-> ""]) \/ tq.ph < 3, "C27.parameters")
        \cup L(tq.ph < 3 \/ e.op = "appsend" \/ Same(tq, ts), "C27.step")
        \cup L(Q!Unknown \in tq.BC \/ tq.BC \cap ts.BC # {}, "C27.transcript"))
\* application data
\* (the responder hears of it while the requester's operation is still going on)
RECURSIVE Op(_, _)
Op(x, k) == IF k > Len(Ev(x)) THEN 0 ELSE IF Ev(x)[k].e = "req" THEN k ELSE Op(x, k + 1)
Sending(x, k, hh) == LET j == Op(x, k) IN
  IF j = 0 \/ (k > 1 /\ Ev(x)[k - 1].e # "req") THEN hh
  ELSE LET o == Ev(x)[j] y == o.a.sid IN
       IF o.op # "appsend" THEN hh
       ELSE [hh EXCEPT !.sent = (y :> Append(IF y \in DOMAIN hh.sent THEN hh.sent[y] ELSE <<>>, o.a.data)) @@ hh.sent]
SentIn(hh, y) == IF y \in DOMAIN hh.sent THEN hh.sent[y] ELSE <<>>
Next == /\ i < Len(Ev(sc)) /\ i' = i + 1 /\ sc' = sc
        /\ LET e == Ev(sc)[i'] h0 == Sending(sc, i', h) IN
           IF e.e = "rsp"
           THEN LET r == StepS(sc, i', s)
                    a == IF Len(e.apps) = 1 THEN e.apps[1] ELSE [sid |-> "", i |-> ""]
                    snt == SentIn(h0, a.sid)
                    ks == {j \in 1..Len(snt) : snt[j] = a.i}
                    bad == L(Len(e.apps) # 1 \/ ks # {}, "C07.invented") IN
                /\ Report(sc, i', r.l \cup bad) /\ s' = r.st /\ q' = q
                /\ h' = [h0 EXCEPT !.sk = @ \cup Deals(r.st),
                                  !.sent = IF Len(e.apps) = 1 /\ ks # {}
                                           THEN (a.sid :> SubSeq(snt, (CHOOSE j \in ks : \A m \in ks : j <= m) + 1, Len(snt))) @@ @ ELSE @]
           ELSE LET r == StepQ(sc, i', q)
                    h2 == [h0 EXCEPT !.qk = @ \cup Deals(r.st)]
                    ag == IF r.l # {} THEN {} ELSE Agree(r.st, s, h2)
                    ins == IF e.honest /\ r.l = {} THEN InStep(e, r.st, s) ELSE {} IN
                /\ Report(sc, i', r.l \cup ag \cup ins) /\ q' = r.st /\ s' = s /\ h' = h2
        /\ IF i' = Len(Ev(sc)) THEN PrintT(<<"DONE", Trace[sc].sc, i'>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
