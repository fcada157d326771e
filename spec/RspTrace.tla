------------------------------ MODULE RspTrace ------------------------------
(* Validates recorded runs of the real responder against module Responder.  Every line of the trace file is one
   scenario; TLC walks the events of all scenarios, evaluating the specification's obligations on each.          *)
EXTENDS Responder, Json, IOUtils
TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)
TraceDig(C, a, s) == LET k == ToString(a) \o ":" \o s IN IF k \in DOMAIN C.dig THEN C.dig[k] ELSE "none"
VARIABLES sc, i, st
vars == <<sc, i, st>>
Ev(s) == Trace[s].ev
Cfg(s) == Trace[s].cfg
Init == sc \in 1..Len(Trace) /\ i = 0 /\ st = InitSt
Report(s, k, l) == l = {} \/ PrintT(<<"VIOL", Trace[s].sc, k, l>>)
Step(s, k, t) == LET C == Cfg(s) e == Ev(s)[k] IN
  IF e.e = "setseq" THEN Resync(t, e.post)
  ELSE IF e.ret \in {"panic", "crash"}
       THEN IF PrintT(<<"VIOL", Trace[s].sc, k, {"C17.panic"} \cup (IF e.fault # "" THEN {"C22.panic"} ELSE {})>>) THEN t ELSE t
  ELSE LET r == Outcome(C, t, e)
           more == (IF e.fault # "" THEN {"C22"} ELSE {}) \cup (IF e.sf THEN {"C23"} ELSE {})
                   \cup (IF Len(e.o) = 0 \/ (e.o[1].k # "junk" /\ e.o[1].auth /\ ~e.o[1].app /\ e.o[1].d.op = ERROR) THEN {"C19"} ELSE {})
           pl == IF e.haspost /\ "C14.finalgo" \notin r.l THEN PostLabels(r.st, e.post, more) ELSE {}
           l == r.l \cup pl IN
       IF Report(s, k, l) THEN (IF l = {} THEN r.st ELSE IF e.haspost THEN Resync(r.st, e.post) ELSE r.st) ELSE t
Next == /\ i < Len(Ev(sc)) /\ i' = i + 1 /\ sc' = sc /\ st' = Step(sc, i + 1, st)
        /\ (i' = Len(Ev(sc)) => PrintT(<<"DONE", Trace[sc].sc, i'>>))
Spec == Init /\ [][Next]_vars
=============================================================================
