------------------------------ MODULE CostTrace ------------------------------
(* Validation of recorded work: see Cost.tla and harness/cost_driver.cpp.    *)
EXTENDS Cost, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, i, u
vars == <<tr, i, u>>

Init == tr \in 1..Len(Traces) /\ i = 0 /\ u = Nothing
Next == /\ i < Len(Traces[tr].ev)
        /\ LET b == Traces[tr].ev[i + 1]
           IN /\ IF Bounded(u, b) THEN TRUE ELSE PrintT(<<"REJECT", Traces[tr].id, i + 1>>) /\ FALSE
              /\ u' = After(u, b)
        /\ i' = i + 1
        /\ tr' = tr
        /\ (i + 1 = Len(Traces[tr].ev)) => PrintT(<<"DONE", Traces[tr].id, i + 1>>)
Spec == Init /\ [][Next]_vars
=============================================================================
