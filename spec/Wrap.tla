-------------------------------- MODULE Wrap --------------------------------
(* The wrappers as a state machine over small domains, for TLC: see LRU.tla. *)
EXTENDS WrapCore, TLCExt

CONSTANTS
  Wrappers,   \* wrapper objects
  Keys,       \* arguments
  Kinds,      \* kinds of functions
  Vals,       \* base values returned
  Caps,       \* capacities; -1: none given
  Ttls,       \* times to live; -1: wrap, otherwise timed_wrap
  Durs,       \* durations of evaluations
  MaxNow,     \* bound on time
  Ops,        \* operations included
  Dump        \* print the transitions?

VARIABLES w, ev
vars == <<w, ev>>

Event(op, a) == [op |-> op, a |-> a \o [j \in 1..(6 - Len(a)) |-> 0]]
On == {h \in Wrappers : w.core.cs[h].on}
Do(op, a) == /\ op \in Ops
             /\ \E o \in WStep(w, Event(op, a)) : w' = o.w /\ ev' = [e |-> Event(op, a), o |-> o]

Make == \E h \in Wrappers \ On, kind \in Kinds, n \in Caps, t \in Ttls : Do("mk", <<h, kind, 0, n, t>>)
Drop == \E h \in On : Do("rm", <<h>>)
Call == \E h \in On, k \in Keys, v \in Vals, d \in Durs :
          \E thr \in {-1} \cup (IF w.kd[h] = Recursive THEN 0..k ELSE {k}) : Do("call", <<h, k, thr, v, d>>)
Tick == Do("tick", <<1>>)
ClockJump == Do("sysj", <<-100>>)

Init == w = WWorld(Wrappers) /\ ev = [e |-> Event("sysj", <<>>), o |-> 0]
Next == Make \/ Drop \/ Call \/ Tick \/ ClockJump
Spec == Init /\ [][Next]_vars

Lawful == [][\A p \in {"C21", "C22"} : WP(p, w, ev'.e, ev'.o) \/ (PrintT(<<"BROKEN", p, ev'>>) /\ FALSE)]_vars
TypeOK == Remembering(w)

Bounded == w.core.now <= MaxNow
View == w
Seen(W) == <<W.core, W.kd>>      \* the history does not matter to what can happen
Emit == Dump => PrintT(<<"T", TLCFP(Seen(w)), TLCFP(Seen(w')), ev'.e.op, ev'.e.a, <<>>, FALSE>>)
=============================================================================
