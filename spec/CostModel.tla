------------------------------ MODULE CostModel ------------------------------
(***************************************************************************)
(* Why the bank of Cost.tla is good enough: a hash table that doubles when *)
(* it is full, and does one unit of work per entry it moves, never asks    *)
(* for more than was paid in; one that also gives buckets back with each   *)
(* entry removed does, as does a search through all entries.               *)
(***************************************************************************)
EXTENDS Cost

CONSTANTS Most,   \* entries at most
          Slip    \* "": none; "tidy", "search": a mistake to be found

VARIABLES s, b, u, ok
vars == <<s, b, u, ok>>

Batch(op, work, size) == [op |-> op, n |-> 1, tot |-> work, most |-> work, size |-> size]
Do(op, work, size, buckets) ==
  LET e == Batch(op, work, size)
  IN s' = size /\ b' = buckets /\ ok' = Bounded(u, e) /\ u' = After(u, e)

Init == s = 0 /\ b = 1 /\ u = Nothing /\ ok = TRUE
Insert == s < Most /\ IF s + 1 > b THEN Do("ins", 1 + s + 1, s + 1, 2 * b) ELSE Do("ins", 1, s + 1, b)
Evict == /\ s > 0
         /\ Do("ins", IF Slip = "search" THEN 2 + s ELSE 2, s, b)
Erase == s > 0 /\ IF Slip = "tidy" /\ 2 * (s - 1) <= b /\ b > 1 THEN Do("era", 1 + s, s - 1, b \div 2)
                  ELSE Do("era", 1, s - 1, b)
Look == Do("get", 1, s, b)
Clear == Do("clr", s, 0, b)
Copy == Do("copy", s + b, s, b)
Next == Insert \/ Evict \/ Erase \/ Look \/ Clear \/ Copy
Spec == Init /\ [][Next]_vars

NeverDear == ok
=============================================================================
