-------------------------------- MODULE Cost --------------------------------
(***************************************************************************)
(* How much work operations may take, whatever the number of entries.      *)
(*                                                                         *)
(* A batch is a number of calls of one operation: [op, n, tot, most, size],*)
(* with the work of all calls and of the dearest one, in units of work,    *)
(* and the number of entries afterwards.  There are three kinds:           *)
(*  - what only looks a key up, or at one entry, or replaces a value, or   *)
(*    exchanges caches takes at most Strict, each time;                    *)
(*  - what adds and removes entries may be dear now and then (a hash table *)
(*    grows) but is cheap on average: it is paid for from a bank, into     *)
(*    which each entry added or removed pays a Deposit, and which holds    *)
(*    no more than what a table with that many entries needs to grow;      *)
(*  - what concerns all entries takes at most Linear for each there was.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Strict, Deposit, Ceiling, Linear

Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a < b THEN b ELSE a

Looking == {"get", "upd", "same", "conv", "look", "walk", "stats", "swap"}
Changing == {"ins", "churn", "era", "erai", "shr", "cap", "capd", "insr"}
Whole == {"copy", "clr", "tour"}
Free == {"new", "tick", "mon", "cb"}

\* Entries added and removed by a batch.
Changed(u, b) ==
  CASE b.op = "churn" -> 2 * b.n
    [] b.op = "cap" -> Greater(u.size - b.size, 0) + 1
    [] OTHER -> b.n + 1

\* u: [size, peak, bank]
Nothing == [size |-> 0, peak |-> 0, bank |-> 0]
Paid(u, b) == u.bank + Deposit * Changed(u, b) - b.tot
After(u, b) ==
  CASE b.op = "new" -> Nothing
    [] b.op \in Changing -> [size |-> b.size, peak |-> Greater(u.peak, Greater(b.size, u.size)),
                             bank |-> Lesser(Paid(u, b), Ceiling * (b.size + 16))]
    [] OTHER -> [u EXCEPT !.size = b.size]
Bounded(u, b) ==
  CASE b.op \in Looking \/ (b.op = "exp" /\ b.n > 0) -> b.most <= Strict
    [] b.op \in Changing -> Paid(u, b) >= 0
    [] b.op \in Whole \/ (b.op = "exp" /\ b.n = 0) -> b.most <= Linear * (u.peak + 16)
    [] b.op \in Free -> TRUE
=============================================================================
