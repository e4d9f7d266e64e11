------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* Why different caches may be used by different threads: operations that  *)
(* concern different caches commute.  Whichever comes first, the outcomes  *)
(* of both are the same and so is the world afterwards, for every world    *)
(* reached and every pair of operations.  Hence each thread sees what it   *)
(* would see alone, which is what tools/threads.py requires of recordings. *)
(***************************************************************************)
EXTENDS LRU

CONSTANT Slip   \* "": none; "common": a mistake to be found

\* The caches an operation reads or changes.
Concerned(e) ==
  CASE e.op \in {"copy", "move", "swap", "eq"} -> {e.a[1], e.a[2]}
    [] e.op \in InsOps \cup AccOps \cup MakeOps \cup {"del", "era", "erai", "clr", "shr", "cap", "cb", "ccb", "fro", "exp"} ->
         {e.a[1]}
    [] OTHER -> Slots

Result(v, e) ==
  IF Slip = "common" /\ e.op = "cap"
  THEN {[o EXCEPT !.w.cs = [s \in Slots |-> IF v.cs[s].on THEN [@[s] EXCEPT !.cap = e.a[2]] ELSE @[s]]] : o \in Step(v, e)}
  ELSE Step(v, e)
SameOutcome(o, p) == o.x = p.x /\ o.n = p.n /\ o.r = p.r /\ o.f = p.f
Commute(v, d, e) ==
  \A o \in Result(v, d) : \A p \in Result(o.w, e) :
    \E q \in Result(v, e) : SameOutcome(q, p) /\ \E r \in Result(q.w, d) : SameOutcome(r, o) /\ r.w = p.w

\* d was the operation before, e is the next one.
Apart == [][(ev.e.op # "nop" /\ Concerned(ev.e) \cap Concerned(ev'.e) = {}) => Commute(ev.at, ev.e, ev'.e)]_vars
Pairs == <<w, mem, ev.at, ev.e>>
==============================================================================
