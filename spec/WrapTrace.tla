------------------------------ MODULE WrapTrace ------------------------------
(* Validation of recorded calls of real wrappers: see Trace.tla.  What a     *)
(* wrapper remembers shows only in later calls, so it is all inferred.       *)
EXTENDS WrapCore, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Wrappers == 1..4

VARIABLES tr, i, w
vars == <<tr, i, w>>

Judge(v, e) ==
  {o.w : o \in {o \in WStep(v, e) : /\ o.x = e.x /\ o.n = e.n /\ o.r = e.r
                                    /\ e.mod = 0
                                    /\ WP(Prop, v, e, [x |-> e.x, n |-> e.n, r |-> e.r, w |-> o.w])
                                    /\ Remembering(o.w)}}

Init == /\ tr \in 1..Len(Traces)
        /\ i = 0
        /\ w = WWorld(Wrappers)
Next == /\ i < Len(Traces[tr].ev)
        /\ LET S == Judge(w, Traces[tr].ev[i + 1])
           IN /\ IF S = {} THEN PrintT(<<"REJECT", Traces[tr].id, i + 1>>) /\ FALSE ELSE TRUE
              /\ w' \in S
        /\ i' = i + 1
        /\ tr' = tr
        /\ (i + 1 = Len(Traces[tr].ev)) => PrintT(<<"DONE", Traces[tr].id, i + 1>>)
Spec == Init /\ [][Next]_vars
=============================================================================
