--------------------------------- MODULE LRU ---------------------------------
(***************************************************************************)
(* The specification of LRU::Cache and LRU::TimedCache as a state machine  *)
(* over small domains, for TLC.                                            *)
(*                                                                         *)
(* Every public operation is an action; Ops selects the ones a model       *)
(* includes.  The properties of LRUProps are checked on every transition   *)
(* (Lawful), and the transitions can be printed, from where tools/tours.py *)
(* turns them into operation sequences for the real code that cover each   *)
(* transition of the model.                                                *)
(***************************************************************************)
EXTENDS LRUProps, TLCExt

CONSTANTS
  Slots,      \* caches
  Handles,    \* iterators
  Keys,       \* keys asked with
  Vals,       \* values stored
  Caps,       \* capacities given
  Timed,      \* timed caches?
  Ttls,       \* times to live in ticks
  Fids,       \* identities of hash and equality; 7: keys are equivalent when equal after division by 10
  Gran,       \* ticks per unit of the duration type
  MaxNow,     \* bound on time
  Moments,    \* ticks that may pass during an access or insertion (besides 0)
  MaxStats,   \* bound on the number of statistics objects
  MaxCount,   \* bound on the number of accesses counted
  MaxCbs,     \* bound on the number of callbacks of a kind
  CbIds,      \* ids of callbacks; from 100 on they throw
  Lists,      \* element lists for ranges
  NewForms,   \* ways of construction
  Ops,        \* operations included
  FaultOps,   \* operations that may be interrupted by an exception of user code or allocation
  Memory,     \* how many of the latest operations count as part of the state (see View)
  Dump        \* print the transitions?

VARIABLES w, ev, mem
vars == <<w, ev, mem>>

Event(op, a, l) == [op |-> op, a |-> a \o [j \in 1..(5 - Len(a)) |-> 0], l |-> l]
On == {s \in Slots : w.cs[s].on}
Off == Slots \ On
Held == {h \in Handles : w.hs[h].on}
KeyOr0(s) == RawKeys(w.cs[s]) \cup {0}
MaxCap == CHOOSE n \in Caps : \A m \in Caps : m <= n

\* What is left in a cache that was moved from is not specified, so that all
\* sensible possibilities are explored.
Resolve(v) ==
  LET S == {s \in Slots : v.cs[s].uns}
  IN IF S = {} THEN {v}
     ELSE LET s == CHOOSE s \in S : TRUE
          IN {[v EXCEPT !.cs[s].uns = FALSE],
              [v EXCEPT !.cs[s].uns = FALSE, !.cs[s].es = <<>>]}

Do(op, a, l) ==
  /\ op \in Ops
  /\ w.now + Meanwhile(Event(op, a, l)) <= MaxNow
  /\ \E b \in Instants(w, Event(op, a, l)) :
     \E o \in Step(b, Event(op, a, l))
            \cup (IF op \in FaultOps THEN Faulted(b, Event(op, a, l)) ELSE {}) : \E v \in Resolve(o.w) :
       /\ w' = Later(w, Event(op, a, l), [o EXCEPT !.w = v]).w
       /\ ev' = [e |-> Event(op, a, l), o |-> [o EXCEPT !.w = v], at |-> b]
       /\ mem' = Keep(<<<<op, a, l>>>> \o mem, Memory)

Construct == \E s \in Off, form \in NewForms, n \in Caps, t \in (IF Timed THEN Ttls ELSE {-1}), l \in Lists,
                fid \in Fids :
  /\ form \in {0, 1} => l = <<>>
  /\ form \in {1, 3, 5, 7, 8, 10, 13, 14} => n = MaxCap
  /\ Do("new", <<s, form, n, t, fid>>, l)
Assign == \E s \in On, l \in Lists : Do("asg", <<s, 0>>, l)
Copy == \E d \in Slots, s \in On : Do("copy", <<d, s, IF d \in On THEN 10 ELSE 0>>, <<>>)
Move == \E d \in Slots, s \in On : d # s /\ Do("move", <<d, s, IF d \in On THEN 10 ELSE 0>>, <<>>)
Swap == \E d \in On, s \in On : Do("swap", <<d, s, 0>>, <<>>)
Destroy == \E s \in On : Do("del", <<s>>, <<>>)
Insert == \E s \in On, k \in Keys, v \in Vals, d \in {0} \cup Moments :
  Do("ins", <<s, k, v, 0, d>>, <<>>)
InsertRange == \E s \in On, l \in Lists : Do("insr", <<s, 0>>, l)
Lookup == \E s \in On, k \in Keys, form \in {0, 4}, d \in {0} \cup Moments :
  Do("acc", <<s, k, form, d>>, <<>>)
LookupMany == \E s \in On, k \in Keys, form \in {0, 4} : Do("acn", <<s, k, form, 2>>, <<>>)
Write == \E s \in On, k \in Keys, v \in Vals, form \in {0, 2, 4} : Do("wr", <<s, k, v, form>>, <<>>)
Erase == \E s \in On, k \in Keys : Do("era", <<s, k, 0>>, <<>>)
EraseIterator == \E s \in On : \E k \in KeyOr0(s) : Do("erai", <<s, k, 0>>, <<>>)
Clear == \E s \in On : Do("clr", <<s>>, <<>>)
Shrink == \E s \in On, n \in 0..MaxCap : Do("shr", <<s, n>>, <<>>)
Recapacitate == \E s \in On, n \in Caps : Do("cap", <<s, n>>, <<>>)
Equal == \E a, b \in On : Do("eq", <<a, b>>, <<>>)
FrontBack == \E s \in On, form \in {0, 1} : Do("fro", <<s, form>>, <<>>)
Monitor ==
  \/ \E s \in On, l \in {<<>>} \cup {<<<<k, 0>>>> : k \in Keys} :
       Len(w.st) < MaxStats /\ Do("mon", <<s, 3, 0>>, l)
  \/ \E s \in On, t \in DOMAIN w.st : Do("mon", <<s, 7, t>>, <<>>)
  \/ \E s \in On, t \in DOMAIN w.st : Len(w.st) < MaxStats /\ Do("mon", <<s, 12, t>>, <<>>)
  \/ \E s \in On : Do("mon", <<s, 11, 0>>, <<>>)
StopMonitoring == \E s \in On : Do("stp", <<s>>, <<>>)
Stats == \E s \in On : Do("sta", <<s, 0>>, <<>>)
StatsOp == \E t \in DOMAIN w.st, what \in 0..10, k \in Keys :
  (what \in {2, 4} => k = CHOOSE x \in Keys : TRUE) /\ Do("sop", <<t, what, k>>, <<>>)
AddCallback == \E s \in On, type \in 0..2, id \in CbIds :
  /\ Len(CASE type = 0 -> w.cs[s].hc [] type = 1 -> w.cs[s].mc [] OTHER -> w.cs[s].ac) < MaxCbs
  /\ Do("cb", <<s, type, id, 0>>, <<>>)
ClearCallbacks == \E s \in On, type \in 0..3 : Do("ccb", <<s, type>>, <<>>)
Expiry == \E s \in On, what \in 1..2, k \in Keys :
  /\ w.cs[s].ttl >= 0
  /\ what = 1 => k = CHOOSE x \in Keys : TRUE
  /\ Do("exp", <<s, what, k>>, <<>>)
ClearExpired == \E s \in On : w.cs[s].ttl >= 0 /\ Do("exp", <<s, 0, 0>>, <<>>)
Tick == w.now < MaxNow /\ Do("tick", <<1>>, <<>>)
ClockJump == Do("sysj", <<-100>>, <<>>)
Observe == Do("nop", <<>>, <<>>)
HGet == \E h \in Handles, s \in On, kd \in {0, 1, 3} :
  \/ \E how \in {0, 1} : Do("hget", <<h, s, kd, how, 0>>, <<>>)
  \/ ~Ordered(kd) /\ \E k \in Keys : Do("hget", <<h, s, kd, 2, k>>, <<>>)
  \/ \E k \in RawKeys(w.cs[s]) : Do("hget", <<h, s, kd, 3, k>>, <<>>)
HMove == \E h \in Held, what \in 0..3 : Do("hmov", <<h, what>>, <<>>)
HDeref == \E h \in Held, form \in 0..4 :
  (form < 2 => w.hs[h].k # 0) /\ Do("hder", <<h, form>>, <<>>)
HWrite == \E h \in Held, v \in Vals, form \in {0, 1} :
  /\ w.hs[h].kd < 2 /\ (form # 1 => w.hs[h].k # 0)
  /\ Do("hwr", <<h, v, form>>, <<>>)
HValid == \E h \in Held, form \in 0..2 :
  (form = 2 => w.cs[w.hs[h].c].ttl >= 0) /\ Do("hval", <<h, form>>, <<>>)
HErase == \E h \in Held : Do("hera", <<h>>, <<>>)
HConvert == \E h \in Held, g \in Handles, form \in {0, 1, 2, 3, 7} : h # g /\ Do("hcnv", <<h, g, form>>, <<>>)
HSwap == \E h, g \in Held : h < g /\ Do("hswp", <<h, g>>, <<>>)
HEqual == \E h, g \in Held :
  /\ w.hs[h].c = w.hs[g].c \/ Ordered(w.hs[h].kd) # Ordered(w.hs[g].kd)
  /\ (w.hs[h].kd >= 2) = (w.hs[g].kd >= 2)
  /\ Do("heq", <<h, g>>, <<>>)

Init == w = World(Slots, Handles, Gran) /\ ev = [e |-> Event("nop", <<>>, <<>>), o |-> 0, at |-> 0] /\ mem = <<>>
Next ==
  \/ Construct \/ Assign \/ Copy \/ Move \/ Swap \/ Destroy
  \/ Insert \/ InsertRange \/ Lookup \/ Write \/ Erase \/ EraseIterator
  \/ Clear \/ Shrink \/ Recapacitate \/ Equal \/ FrontBack
  \/ Monitor \/ StopMonitoring \/ Stats \/ StatsOp \/ AddCallback \/ ClearCallbacks
  \/ Expiry \/ ClearExpired \/ Tick \/ ClockJump \/ Observe
  \/ HGet \/ HMove \/ HDeref \/ HWrite \/ HValid \/ HErase \/ HConvert \/ HEqual
  \/ HSwap \/ LookupMany
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ checked
\* Each property of LRUProps holds on each transition.
Lawful == [][\A p \in AllProperties :
               P(p, ev'.at, ev'.e, ev'.o) \/ (PrintT(<<"BROKEN", p, ev'>>) /\ FALSE)]_vars
TypeOK ==
  /\ WellFormed(w)
  /\ \A s \in Slots : w.cs[s].mon \in 0..Len(w.st)
  /\ \A h \in Handles : w.hs[h].on => /\ w.cs[w.hs[h].c].on
                                      /\ (w.hs[h].k # 0) => (RawPos(w.cs[w.hs[h].c], w.hs[h].k) # 0)
  /\ \A s \in DOMAIN w.st :
       LET RECURSIVE S(_)
           S(D) == IF D = {} THEN 0
                   ELSE LET k == CHOOSE k \in D : TRUE
                        IN w.st[s].km[k].h + w.st[s].km[k].m + S(D \ {k})
       IN (S(DOMAIN w.st[s].km) <= w.st[s].acc) \/ ("sop" \in Ops)
\* Every operation has an outcome wherever it is applicable: see the guards above.

\* ------------------------------------------------------------------ exploration
Bounded == \A s \in DOMAIN w.st : w.st[s].acc <= MaxCount
\* The behaviour of the machine depends on w alone.  A program may nevertheless
\* remember more, so that the graph explored can distinguish worlds reached by
\* different latest operations: its tours then take each sequence of Memory + 1
\* operations that is possible, from each world.
View == <<w, mem>>
Emit == Dump => PrintT(<<"T", TLCFP(View), TLCFP(View'), ev'.e.op, ev'.e.a, ev'.e.l, ev'.o.x = "Fault">>)
=============================================================================
