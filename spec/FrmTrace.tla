------------------------------ MODULE FrmTrace ------------------------------
(* Validates recorded framing operations and certificate format checks against modules Transport and X509. *)
EXTENDS Transport, X509, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i
Init == sc \in 1..Len(Trace) /\ i = 0
Next == /\ i < Len(Trace[sc].ev) /\ i' = i + 1 /\ sc' = sc
        /\ LET e == Trace[sc].ev[i'] l == IF e.what = "x509" THEN JudgeCert(e) ELSE Judge(e) IN IF l = {} THEN TRUE ELSE PrintT(<<"VIOL", Trace[sc].sc, i', l>>)
        /\ IF i' = Len(Trace[sc].ev) THEN PrintT(<<"DONE", Trace[sc].sc, i'>>) ELSE TRUE
Spec == Init /\ [][Next]_<<sc, i>>
=============================================================================
