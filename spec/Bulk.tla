-------------------------------- MODULE Bulk --------------------------------
(***************************************************************************)
(* Caches with many entries.  The operations are those of LRUCore, each    *)
(* done with every one of the keys k, k+1, ..., k+n-1 in turn, and caches  *)
(* are described by runs of such keys, so that a hundred thousand entries  *)
(* take no more room than three: a run                                     *)
(*   [k first key, n length, d value less key, t time of insertion]        *)
(* stands for n entries next to each other in the order of use.            *)
(* BulkModel.tla checks that this is LRUCore, folded.                      *)
(*                                                                         *)
(* A world is                                                              *)
(*   now, cs   slot -> [on, cap, ttl, rs runs from the least to the most   *)
(*             recently used, mon statistics monitored or 0, cb <<hit,     *)
(*             miss, access callbacks registered>>, fn epoch of the        *)
(*             function wrapped or -1]                                     *)
(*   st        sequence of statistics [h, m, km], km runs of monitored     *)
(*             keys [k, n, h, m] by key                                    *)
(* Step(w, e) is the set of outcomes [n, r, f, w]: a number, runs found,   *)
(* callbacks fired and the world afterwards.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Most(a, b) == IF a > b THEN a ELSE b
Least(a, b) == IF a < b THEN a ELSE b
One(b) == IF b THEN 1 ELSE 0
AllOf(s) == {s[i] : i \in DOMAIN s}
Smallest(S) == CHOOSE x \in S : \A y \in S : x <= y

NoCaches == [on |-> FALSE, cap |-> 0, ttl |-> -1, rs |-> <<>>, mon |-> 0, cb |-> <<0, 0, 0>>, fn |-> -1]
Beginning(slots) == [now |-> 0, cs |-> [s \in slots |-> NoCaches], st |-> <<>>]

\* ------------------------------------------------------------------ runs
Run(k, n, d, t) == [k |-> k, n |-> n, d |-> d, t |-> t]
Follows(a, b) == a.k + a.n = b.k /\ [b EXCEPT !.k = a.k, !.n = a.n] = a
Put(rs, b) ==
  IF b.n = 0 THEN rs
  ELSE IF rs # <<>> /\ Follows(rs[Len(rs)], b) THEN [rs EXCEPT ![Len(rs)].n = @ + b.n]
  ELSE Append(rs, b)
RECURSIVE Joined(_, _)
Joined(done, rs) == IF rs = <<>> THEN done ELSE Joined(Put(done, Head(rs)), Tail(rs))
Norm(rs) == Joined(<<>>, rs)

RECURSIVE Total(_)
Total(rs) == IF rs = <<>> THEN 0 ELSE Head(rs).n + Total(Tail(rs))

Holds(r, k) == r.k <= k /\ k < r.k + r.n
IndexOf(rs, k) == LET S == {i \in DOMAIN rs : Holds(rs[i], k)} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
\* The part of a run before key a, from a on but before b, and from b on.
Before(r, a) == [r EXCEPT !.n = Most(0, Least(@, a - r.k))]
From(r, b) == LET k == Most(r.k, b) IN [r EXCEPT !.k = k, !.n = Most(0, r.k + r.n - k)]
RECURSIVE CutEach(_, _, _)
CutEach(rs, a, b) ==
  IF rs = <<>> THEN <<>> ELSE <<Before(Head(rs), a), From(Head(rs), b)>> \o CutEach(Tail(rs), a, b)
Cut(rs, k, n) == Norm(CutEach(rs, k, k + n))
\* Without the m least recently used.
RECURSIVE Drop(_, _)
Drop(rs, m) ==
  IF m <= 0 \/ rs = <<>> THEN rs
  ELSE IF m >= Head(rs).n THEN Drop(Tail(rs), m - Head(rs).n)
  ELSE <<[Head(rs) EXCEPT !.k = @ + m, !.n = @ - m]>> \o Tail(rs)
KeepNewest(rs, m) == Drop(rs, Total(rs) - m)
\* Where what is known of key k ends: how many keys from k on, n at most, are like it.
Stretch(rs, k, n) ==
  LET i == IndexOf(rs, k)
  IN IF i # 0 THEN Least(n, rs[i].k + rs[i].n - k)
     ELSE Smallest({n} \cup {r.k - k : r \in {q \in AllOf(rs) : q.k > k /\ q.k < k + n}})

ByKey(rs) == Norm(SortSeq(rs, LAMBDA a, b : a.k < b.k))

Dead(now, c, r) == c.ttl >= 0 /\ now - r.t > c.ttl
\* ------------------------------------------------------------------ operations
\* Insertion: [rs, new, rev]: runs, how many were new, how many were there but expired.
RECURSIVE Filled(_, _, _, _, _, _, _)
Filled(now, c, k, n, d, new, rev) ==
  IF n = 0 \/ c.cap = 0 THEN [rs |-> c.rs, new |-> new, rev |-> rev]
  ELSE LET i == IndexOf(c.rs, k)
           p == Stretch(c.rs, k, n)
           old == i # 0
           dead == old /\ Dead(now, c, c.rs[i])
           run == Run(k, p, d, IF old /\ ~dead THEN c.rs[i].t ELSE now)
           rs == Put(IF old THEN Cut(c.rs, k, p) ELSE c.rs, run)
       IN Filled(now, [c EXCEPT !.rs = KeepNewest(rs, c.cap)], k + p, n - p, d,
                 new + (IF old THEN 0 ELSE p), rev + (IF dead THEN p ELSE 0))

\* Accesses: [rs, r, miss]: runs, what was found, stretches of keys that were not.
RECURSIVE Looked(_, _, _, _, _, _)
Looked(now, c, k, n, r, miss) ==
  IF n = 0 THEN [rs |-> c.rs, r |-> r, miss |-> miss]
  ELSE LET i == IndexOf(c.rs, k)
           p == Stretch(c.rs, k, n)
       IN IF i = 0 \/ Dead(now, c, c.rs[i])
          THEN Looked(now, c, k + p, n - p, r, Append(miss, Run(k, p, 0, 0)))
          ELSE LET run == [c.rs[i] EXCEPT !.k = k, !.n = p]
               IN Looked(now, [c EXCEPT !.rs = Put(Cut(c.rs, k, p), run)], k + p, n - p, Put(r, [run EXCEPT !.t = 0]), miss)

\* Calls of a wrapped function: what is not there is evaluated and inserted.
RECURSIVE Called(_, _, _, _, _, _)
Called(now, c, k, n, r, evals) ==
  IF n = 0 THEN [rs |-> c.rs, r |-> r, n |-> evals]
  ELSE LET i == IndexOf(c.rs, k)
           p == Stretch(c.rs, k, n)
           have == i # 0 /\ ~Dead(now, c, c.rs[i])
           run == Run(k, p, IF have THEN c.rs[i].d ELSE c.fn, IF have THEN c.rs[i].t ELSE now)
           rs == Put(IF i # 0 THEN Cut(c.rs, k, p) ELSE c.rs, run)
       IN Called(now, [c EXCEPT !.rs = IF c.cap = 0 THEN <<>> ELSE KeepNewest(rs, c.cap)], k + p, n - p,
                 Put(r, [run EXCEPT !.t = 0]), evals + (IF have THEN 0 ELSE p))

\* Counting: h hits and m misses for each of the keys of a stretch.
RECURSIVE BumpEach(_, _, _, _, _)
BumpEach(km, a, b, h, m) ==
  IF km = <<>> THEN <<>>
  ELSE LET r == Head(km)
           in == Before(From(r, a), b)
       IN <<Before(r, a), [in EXCEPT !.h = @ + h, !.m = @ + m], From(r, b)>> \o BumpEach(Tail(km), a, b, h, m)
Bump(km, k, n, h, m) == Norm(SelectSeq(BumpEach(km, k, k + n, h, m), LAMBDA r : r.n > 0))
RECURSIVE BumpAll(_, _, _, _)
BumpAll(km, runs, h, m) ==
  IF runs = <<>> THEN km ELSE BumpAll(Bump(km, Head(runs).k, Head(runs).n, h, m), Tail(runs), h, m)

Counted(w, s, q) ==
  IF s = 0 THEN w.st
  ELSE [w.st EXCEPT ![s] = [h |-> @.h + Total(q.r), m |-> @.m + Total(q.miss),
                            km |-> BumpAll(BumpAll(@.km, q.r, 1, 0), q.miss, 0, 1)]]
\* Keys monitored besides.
RECURSIVE Besides(_, _, _)
Besides(km, k, n) ==
  IF n = 0 THEN Norm(SortSeq(km, LAMBDA a, b : a.k < b.k))
  ELSE LET p == Stretch(km, k, n)
       IN Besides(IF IndexOf(km, k) # 0 THEN km ELSE Append(km, [k |-> k, n |-> p, h |-> 0, m |-> 0]), k + p, n - p)
Fresh(k, n) == [h |-> 0, m |-> 0, km |-> Besides(<<>>, k, n)]

Out(n, r, f, w) == [n |-> n, r |-> r, f |-> f, w |-> w]
Just(w) == {Out(0, <<>>, <<0, 0, 0>>, w)}
SetC(w, s, c) == [w EXCEPT !.cs[s] = c]
SetR(w, s, rs) == [w EXCEPT !.cs[s].rs = rs]

\* Whether inserting a key that is there but expired counts as new is left open.
DoFill(w, s, k, n, d) ==
  LET q == Filled(w.now, w.cs[s], k, n, d, 0, 0)
  IN {Out(q.new + j, <<>>, <<0, 0, 0>>, SetR(w, s, q.rs)) : j \in 0..q.rev}
DoLook(w, s, k, n) ==
  LET c == w.cs[s]
      q == Looked(w.now, c, k, n, <<>>, <<>>)
      h == Total(q.r)
      m == Total(q.miss)
  IN {Out(h, q.r, <<h * c.cb[1], m * c.cb[2], (h + m) * c.cb[3]>>, [SetR(w, s, q.rs) EXCEPT !.st = Counted(w, c.mon, q)])}
DoRemove(w, s, k, n) ==
  LET rs == Cut(w.cs[s].rs, k, n)
  IN {Out(Total(w.cs[s].rs) - Total(rs), <<>>, <<0, 0, 0>>, SetR(w, s, rs))}
DoShrink(w, s, n) == Just(SetR(w, s, KeepNewest(w.cs[s].rs, n)))
DoCapacity(w, s, n) == Just([w EXCEPT !.cs[s].rs = KeepNewest(@, n), !.cs[s].cap = n])
Live(now, c) == Norm(SelectSeq(c.rs, LAMBDA r : ~Dead(now, c, r)))
DoClearExpired(w, s) ==
  LET l == Live(w.now, w.cs[s])
  IN {Out(Total(w.cs[s].rs) - Total(l), <<>>, <<0, 0, 0>>, SetR(w, s, l))}
DoAllExpired(w, s) == {Out(One(Live(w.now, w.cs[s]) = <<>>), <<>>, <<0, 0, 0>>, w)}

\* forms: 0 empty; 1 range and capacity, 2 pair of iterators and capacity; 3 range alone, 4 pair of
\* iterators alone, 5 temporary range alone; 6 list and capacity, 7 list alone
Room(form, cap, n) == CASE form \in {0, 1, 2, 6} -> cap [] form \in {3, 4} -> Most(128, n) [] form \in {5, 7} -> n
DoNew(w, s, ttl, form, cap, k, n, d) ==
  LET c == [NoCaches EXCEPT !.on = TRUE, !.cap = Room(form, cap, n), !.ttl = ttl]
  IN Just(SetC(w, s, [c EXCEPT !.rs = Filled(w.now, c, k, IF form = 0 THEN 0 ELSE n, d, 0, 0).rs]))
DoAssign(w, s, k, n, d) ==
  LET c == [w.cs[s] EXCEPT !.rs = <<>>, !.cap = Most(@, n)]
  IN Just(SetC(w, s, [c EXCEPT !.rs = Filled(w.now, c, k, n, d, 0, 0).rs]))
DoDelete(w, s) == Just(SetC(w, s, NoCaches))
DoCopy(w, d, s) == Just(SetC(w, d, w.cs[s]))
Contents(c, from) == [c EXCEPT !.rs = from.rs, !.cap = from.cap, !.ttl = from.ttl]
DoSwap(w, a, b) == Just([w EXCEPT !.cs[a] = Contents(w.cs[a], w.cs[b]), !.cs[b] = Contents(w.cs[b], w.cs[a])])
\* ... and the source is destroyed.
DoMove(w, d, s) ==
  LET c == IF w.cs[d].on THEN w.cs[d] ELSE [NoCaches EXCEPT !.on = TRUE]
  IN Just([w EXCEPT !.cs[d] = Contents(c, w.cs[s]), !.cs[s] = NoCaches])
Ageless(rs) == Norm([i \in DOMAIN rs |-> [rs[i] EXCEPT !.t = 0]])
DoEqual(w, a, b) ==
  LET x == w.cs[a]
      y == w.cs[b]
  IN {Out(q, <<>>, <<0, 0, 0>>, w) :
        q \in IF Ageless(x.rs) # Ageless(y.rs) THEN {0} ELSE IF x.ttl < 0 \/ x.rs = y.rs THEN {1} ELSE {0, 1}}

DoMonitor(w, s, k, n) == Just([w EXCEPT !.cs[s].mon = Len(w.st) + 1, !.st = Append(@, Fresh(k, n))])
DoStop(w, s) == Just([w EXCEPT !.cs[s].mon = 0])
\* what: 0 monitor keys besides, 1 unmonitor keys, 2 reset all, 3 unmonitor all
DoStatsOp(w, s, what, k, n) ==
  IF w.cs[s].mon = 0 THEN {}
  ELSE Just([w EXCEPT !.st[w.cs[s].mon].km =
               CASE what = 0 -> Besides(@, k, n)
                 [] what = 1 -> Cut(@, k, n)
                 [] what = 2 -> Norm([i \in DOMAIN @ |-> [@[i] EXCEPT !.h = 0, !.m = 0]])
                 [] what = 3 -> <<>>])
DoCallback(w, s, type, n) == Just([w EXCEPT !.cs[s].cb[type + 1] = @ + n])
DoClearCallbacks(w, s, type) == Just([w EXCEPT !.cs[s].cb[type + 1] = 0])
DoTick(w, n) == Just([w EXCEPT !.now = @ + n])

DoWrap(w, s, ttl, cap) == Just(SetC(w, s, [NoCaches EXCEPT !.on = TRUE, !.cap = cap, !.ttl = ttl, !.fn = 0]))
DoCall(w, s, k, n, d) ==
  LET q == Called(w.now, [w.cs[s] EXCEPT !.fn = d], k, n, <<>>, 0)
  IN {Out(q.n, q.r, <<0, 0, 0>>, [SetR(w, s, q.rs) EXCEPT !.cs[s].fn = d])}

Step(w, e) ==
  CASE e.op = "new" -> DoNew(w, e.a[1], e.a[2], e.a[3], e.a[4], e.a[5], e.a[6], e.a[7])
    [] e.op = "asg" -> DoAssign(w, e.a[1], e.a[2], e.a[3], e.a[4])
    [] e.op = "del" -> DoDelete(w, e.a[1])
    [] e.op = "fil" -> DoFill(w, e.a[1], e.a[2], e.a[3], e.a[4])
    [] e.op = "lok" -> DoLook(w, e.a[1], e.a[2], e.a[3])
    [] e.op = "rem" -> DoRemove(w, e.a[1], e.a[2], e.a[3])
    [] e.op = "shr" -> DoShrink(w, e.a[1], e.a[2])
    [] e.op = "cap" -> DoCapacity(w, e.a[1], e.a[2])
    [] e.op = "clr" -> DoShrink(w, e.a[1], 0)
    [] e.op = "cex" -> DoClearExpired(w, e.a[1])
    [] e.op = "aex" -> DoAllExpired(w, e.a[1])
    [] e.op = "copy" -> DoCopy(w, e.a[1], e.a[2])
    [] e.op = "move" -> DoMove(w, e.a[1], e.a[2])
    [] e.op = "swap" -> DoSwap(w, e.a[1], e.a[2])
    [] e.op = "eq" -> DoEqual(w, e.a[1], e.a[2])
    [] e.op = "mon" -> DoMonitor(w, e.a[1], e.a[2], e.a[3])
    [] e.op = "stp" -> DoStop(w, e.a[1])
    [] e.op = "sop" -> DoStatsOp(w, e.a[1], e.a[2], e.a[3], e.a[4])
    [] e.op = "cb" -> DoCallback(w, e.a[1], e.a[2], e.a[3])
    [] e.op = "ccb" -> DoClearCallbacks(w, e.a[1], e.a[2])
    [] e.op = "tick" -> DoTick(w, e.a[1])
    [] e.op = "wrap" -> DoWrap(w, e.a[1], e.a[2], e.a[3])
    [] e.op = "call" -> DoCall(w, e.a[1], e.a[2], e.a[3], e.a[4])
    [] e.op = "nop" -> Just(w)
=============================================================================
