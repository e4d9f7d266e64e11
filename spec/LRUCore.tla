------------------------------- MODULE LRUCore -------------------------------
(***************************************************************************)
(* The abstract machine behind LRU::Cache and LRU::TimedCache.             *)
(*                                                                         *)
(* A world is a record                                                     *)
(*   now   the virtual time in ticks                                       *)
(*   gran  ticks per unit of the caches' duration type                     *)
(*   cs    slot -> cache                                                   *)
(*   st    sequence of statistics objects (shared between caches)          *)
(*   hs    handle -> iterator                                              *)
(*   un    slot -> unordered iteration order if known, else <<-1>>         *)
(*                                                                         *)
(* A cache is a record                                                     *)
(*   on    the object exists                                               *)
(*   cap   capacity;  ttl  time to live in ticks, -1 for an untimed cache  *)
(*   es    the entries, most recently used first, each                     *)
(*         [k key class, rk stored key, v value, t time of insertion]      *)
(*   mon   number of the statistics object monitored, 0 if none            *)
(*   hc, mc, ac   ids of hit, miss and access callbacks, as registered     *)
(*   fid   identity of the hash and equality objects                       *)
(*   uns   contents unspecified (moved-from, not observed yet)             *)
(*                                                                         *)
(* Step(w, e) is the set of outcomes [x, n, r, f, w] the operation e may   *)
(* have in world w: exception, scalar result, further results, callbacks   *)
(* fired, and the world afterwards.  Every named operator below is one     *)
(* public operation; LRU.tla turns them into actions.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoCache == [on |-> FALSE, cap |-> 0, ttl |-> -1, es |-> <<>>, mon |-> 0,
            hc |-> <<>>, mc |-> <<>>, ac |-> <<>>, fid |-> 0, uns |-> FALSE]

NoHandle == [on |-> FALSE, c |-> 0, kd |-> 0, k |-> 0]

DefaultCapacity == 128

World(slots, handles, gran) ==
  [now |-> 0, gran |-> gran, cs |-> [s \in slots |-> NoCache], st |-> <<>>,
   hs |-> [h \in handles |-> NoHandle], un |-> [s \in slots |-> <<-1>>]]

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
B(b) == IF b THEN 1 ELSE 0
Range(s) == {s[i] : i \in DOMAIN s}
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Keep(s, n) == SubSeq(s, 1, Min(n, Len(s)))

\* ------------------------------------------------------------------ entries
Canon(c, k) == IF c.fid = 7 THEN k \div 10 ELSE k

PosOf(es, k) == LET S == {i \in 1..Len(es) : es[i].k = k}
                IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Pos(c, k) == PosOf(c.es, Canon(c, k))
RawPos(c, rk) == LET S == {i \in 1..Len(c.es) : c.es[i].rk = rk}
                 IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

ExpiredE(w, c, e) == c.ttl >= 0 /\ (w.now - e.t) \div w.gran > c.ttl \div w.gran
ExpiredAt(w, c, i) == ExpiredE(w, c, c.es[i])
Usable(w, c, k) == LET i == Pos(c, k) IN i # 0 /\ ~ExpiredAt(w, c, i)

Front(es, i) == <<es[i]>> \o Without(es, i)

SetC(w, ci, c) == [w EXCEPT !.cs[ci] = c]
SetE(w, ci, es) == [w EXCEPT !.cs[ci].es = es]

\* ------------------------------------------------------------------ outcomes
Out(x, n, r, f, w) == [x |-> x, n |-> n, r |-> r, f |-> f, w |-> w]
Ok(n, r, w) == Out("", n, r, <<>>, w)
Err(x, w) == Out(x, 0, <<>>, <<>>, w)

\* ---------------------------------------------------- statistics & callbacks
Count(w, s, k, hit, n) ==   \* n accesses of k
  IF s = 0 THEN w.st
  ELSE [w.st EXCEPT ![s] =
         [acc |-> @.acc + n, hit |-> @.hit + n * B(hit),
          km |-> IF k \in DOMAIN @.km
                 THEN [@.km EXCEPT ![k] = [h |-> @.h + n * B(hit), m |-> @.m + n * B(~hit)]]
                 ELSE @.km]]

\* Callbacks are <<id, kind, key, value or flag>>; an id of 100 or more throws.
Calls(c, k, v, hit) ==
  LET own == IF hit THEN [i \in DOMAIN c.hc |-> <<c.hc[i], 0, k, v>>]
             ELSE [i \in DOMAIN c.mc |-> <<c.mc[i], 1, k, 0>>]
  IN own \o [i \in DOMAIN c.ac |-> <<c.ac[i], 2, k, B(hit)>>]
Bad(f) == {i \in DOMAIN f : f[i][1] >= 100}
UpToFirst(f) == SubSeq(f, 1, CHOOSE i \in Bad(f) : \A j \in Bad(f) : i <= j)

\* Accesses of k by whatever means, n in a row: the possible [hit, callbacks fired, world afterwards].
\* Equivalent keys are one key: which spelling statistics and callbacks see, the
\* stored one or the one asked with, is left open.
Spellings(c, k) == LET i == Pos(c, k) IN IF i = 0 THEN {k} ELSE {k, c.es[i].rk}
AccessesN(w, ci, k, n) ==
  LET c == w.cs[ci]
      i == Pos(c, k)
      hit == Usable(w, c, k)
  IN {[hit |-> hit,
       f |-> Calls(c, kc, IF hit THEN c.es[i].v ELSE 0, hit),
       w |-> [w EXCEPT !.st = Count(w, c.mon, ks, hit, n),
                       !.cs[ci].es = IF hit THEN Front(c.es, i) ELSE @]] :
        ks \in Spellings(c, k), kc \in Spellings(c, k)}
Accesses(w, ci, k) == AccessesN(w, ci, k, 1)

\* forms: 0,1 find  2,3 contains  4,5 lookup  6,7 operator[]   (odd: const)
LookupErrors(c, k) ==
  IF Pos(c, k) = 0 THEN {"KeyNotFound"} ELSE {"KeyNotFound", "KeyExpired"}

Interrupted(w, ci, a) ==   \* a callback threw: the access counted, nothing else
  {Out("Fault", 0, <<>>, UpToFirst(a.f), a.w),
   Out("Fault", 0, <<>>, UpToFirst(a.f), SetE(a.w, ci, w.cs[ci].es))}

Accessed(w, ci, k, form, a) ==
  LET e == a.w.cs[ci].es[1]
      r == CASE form \in {0, 1} -> <<e.v, 1, e.rk>>
             [] form \in {2, 3} -> <<>>
             [] OTHER -> <<e.v, 1>>
  IN IF Bad(a.f) # {} THEN Interrupted(w, ci, a)
     ELSE IF a.hit THEN {Out("", 1, r, a.f, a.w)}
     ELSE IF form \in 0..3 THEN {Out("", 0, <<>>, a.f, a.w)}
     ELSE {Out(x, 0, <<>>, a.f, a.w) : x \in LookupErrors(w.cs[ci], k)}
DoAccess(w, ci, k, form) ==
  UNION {Accessed(w, ci, k, form, a) : a \in Accesses(w, ci, k)}

\* The same access n times over, of a cache without callbacks.
DoAccessMany(w, ci, k, form, n) ==
  IF w.cs[ci].hc \o w.cs[ci].mc \o w.cs[ci].ac # <<>> THEN {}
  ELSE UNION {Accessed(w, ci, k, form, a) : a \in AccessesN(w, ci, k, n)}

\* Writing through references and iterators.
Written(w, ci, k, v, form, a) ==
  IF Bad(a.f) # {} THEN Interrupted(w, ci, a)
  ELSE IF a.hit THEN {Out("", 1, <<>>, a.f, [a.w EXCEPT !.cs[ci].es[1].v = v])}
  ELSE IF form \in {2, 3} THEN {Out("", 0, <<>>, a.f, a.w)}
  ELSE {Out(x, 0, <<>>, a.f, a.w) : x \in LookupErrors(w.cs[ci], k)}
DoWrite(w, ci, k, v, form) ==
  LET i == Pos(w.cs[ci], k)
  IN IF form \in {4, 5}     \* while iterating: not an access, expired or not
     THEN {Ok(B(i # 0), <<>>, IF i = 0 THEN w ELSE [w EXCEPT !.cs[ci].es[i].v = v])}
     ELSE UNION {Written(w, ci, k, v, form, a) : a \in Accesses(w, ci, k)}

\* ------------------------------------------------------------------ insertion
\* The set of [w, new] an insertion of (k, v) may lead to.
Inserted(w, ci, k, v) ==
  LET c == w.cs[ci]
      i == Pos(c, k)
      fresh == [k |-> Canon(c, k), rk |-> k, v |-> v, t |-> w.now]
  IN IF c.cap = 0 THEN {[w |-> w, new |-> FALSE]}
     ELSE IF i = 0 THEN
       {[w |-> SetE(w, ci, <<fresh>> \o Keep(c.es, c.cap - 1)), new |-> TRUE]}
     ELSE IF ~ExpiredAt(w, c, i) THEN
       {[w |-> SetE(w, ci, <<[c.es[i] EXCEPT !.v = v]>> \o Without(c.es, i)), new |-> FALSE]}
     ELSE  \* revived: new or not is not specified, nor which spelling is kept
       {[w |-> SetE(w, ci, <<[fresh EXCEPT !.rk = rk]>> \o Without(c.es, i)), new |-> b] :
          b \in BOOLEAN, rk \in {k, c.es[i].rk}}

InsertResult(o, ci, form) ==
  LET c == o.w.cs[ci]
  IN Ok(B(o.new),
        IF form = 5 THEN <<>>
        ELSE IF c.cap = 0 THEN <<0, 0, 1, 1>>
        ELSE <<c.es[1].rk, c.es[1].v, 1, 1>>, o.w)

DoInsert(w, ci, k, v, form) ==
  {InsertResult(o, ci, form) : o \in Inserted(w, ci, k, v)}

RECURSIVE InsertedAll(_, _, _, _)
InsertedAll(w, ci, l, n) ==
  IF l = <<>> THEN {[w |-> w, n |-> n]}
  ELSE UNION {InsertedAll(o.w, ci, Tail(l), n + B(o.new)) :
                o \in Inserted(w, ci, l[1][1], l[1][2])}

DoInsertRange(w, ci, l, form) ==
  {Ok(o.n, <<1>>, o.w) : o \in InsertedAll(w, ci, l, 0)}

\* -------------------------------------------------- construction & assignment
\* forms: see the driver; what matters is where the capacity comes from.
CapacityOf(form, cap, n) ==
  CASE form \in {0, 2, 4, 6, 9, 11, 12, 15, 17, 19, 20, 23} -> cap
    [] form = 1 -> DefaultCapacity
    [] form \in {3, 5, 10, 13, 14, 16, 18, 22} -> Max(DefaultCapacity, n)
    [] form \in {7, 8, 21, 24} -> n

DoNew(w, ci, form, cap, ttl, fid, l) ==
  LET c == [NoCache EXCEPT !.on = TRUE, !.cap = CapacityOf(form, cap, Len(l)),
                           !.ttl = ttl, !.fid = IF form = 1 THEN 0 ELSE fid]
  IN {Ok(1, <<>>, o.w) :
        o \in InsertedAll(SetC(w, ci, c), ci, IF form \in {0, 1} THEN <<>> ELSE l, 0)}

DoAssign(w, ci, l) ==
  LET c == [w.cs[ci] EXCEPT !.es = <<>>, !.cap = Max(@, Len(l))]
  IN {Ok(1, <<>>, o.w) : o \in InsertedAll(SetC(w, ci, c), ci, l, 0)}

DoCopy(w, d, s) == {Ok(0, <<>>, SetC(w, d, w.cs[s]))}

\* Monitoring and callbacks belong to the object and do not move.
Contents(c, from) == [c EXCEPT !.es = from.es, !.cap = from.cap, !.ttl = from.ttl,
                               !.fid = from.fid]
DoMove(w, d, s) ==
  LET src == w.cs[s]
      dst == IF w.cs[d].on THEN w.cs[d] ELSE [NoCache EXCEPT !.on = TRUE, !.cap = src.cap, !.fid = src.fid]
  IN {Ok(0, <<>>, [w EXCEPT !.cs[d] = Contents(dst, src),
                            !.cs[s] = [Contents(src, dst) EXCEPT !.uns = TRUE, !.ttl = src.ttl]])}
DoSwap(w, a, b) ==
  {Ok(0, <<>>, [w EXCEPT !.cs[a] = Contents(w.cs[a], w.cs[b]),
                         !.cs[b] = Contents(w.cs[b], w.cs[a])])}
DoDelete(w, ci) == {Ok(0, <<>>, SetC(w, ci, NoCache))}

KVs(c) == [i \in DOMAIN c.es |-> <<c.es[i].rk, c.es[i].v>>]
Ts(c) == [i \in DOMAIN c.es |-> c.es[i].t]
EqResult(b) == <<B(b), B(~b), B(b), B(~b)>>
SameKeys(x, y) == (x.fid = 7) = (y.fid = 7)
DoEqual(w, a, b) ==
  LET x == w.cs[a]
      y == w.cs[b]
      may == IF KVs(x) # KVs(y) THEN {FALSE}
             ELSE IF x.ttl < 0 \/ Ts(x) = Ts(y) THEN {TRUE}
             ELSE BOOLEAN    \* same entries inserted at different times
  IN \* comparing containers whose keys are compared differently has no defined outcome
     IF ~SameKeys(x, y) THEN {Ok(0, <<B(q), B(~q), B(p), B(~p)>>, w) : q \in BOOLEAN, p \in BOOLEAN}
     ELSE {Ok(0, EqResult(q), w) : q \in may}

\* ------------------------------------------------------------------ removal
DoErase(w, ci, k) ==
  LET i == Pos(w.cs[ci], k)
  IN {IF i = 0 THEN Ok(0, <<>>, w) ELSE Ok(1, <<>>, SetE(w, ci, Without(w.cs[ci].es, i)))}
EraseAt(w, ci, rk, r) ==
  LET i == RawPos(w.cs[ci], rk)
  IN IF rk = 0 THEN {Out("InvalidIterator", 0, r, <<>>, w)}
     ELSE IF i = 0 THEN {}
     ELSE {Out("", 0, r, <<>>, SetE(w, ci, Without(w.cs[ci].es, i)))}
DoEraseIt(w, ci, rk) == {[o EXCEPT !.n = B(o.x = "")] : o \in EraseAt(w, ci, rk, <<>>)}
DoClear(w, ci) == {Ok(0, <<>>, SetE(w, ci, <<>>))}
DoShrink(w, ci, n) == {Ok(0, <<>>, SetE(w, ci, Keep(w.cs[ci].es, n)))}
DoCapacity(w, ci, n) ==
  {Ok(0, <<>>, [w EXCEPT !.cs[ci].es = Keep(@, n), !.cs[ci].cap = n])}

\* ------------------------------------------------------------------ monitoring
NoStats == [acc |-> 0, hit |-> 0, km |-> <<>>]
FreshStats(ks) == [acc |-> 0, hit |-> 0, km |-> [k \in ks |-> [h |-> 0, m |-> 0]]]
DoMonitor(w, ci, form, s, l) ==
  IF form \in {7, 8} THEN {Ok(s, <<>>, [w EXCEPT !.cs[ci].mon = s])}
  ELSE IF form = 11 THEN {Ok(0, <<>>, [w EXCEPT !.cs[ci].mon = 0])}
  ELSE IF form >= 12 THEN {Ok(Len(w.st) + 1, <<>>, [w EXCEPT !.cs[ci].mon = Len(w.st) + 1, !.st = Append(@, w.st[s])])}
  ELSE {Ok(Len(w.st) + 1, <<>>,
           [w EXCEPT !.cs[ci].mon = Len(w.st) + 1,
                     !.st = Append(@, FreshStats({l[i][1] : i \in DOMAIN l}))])}
DoStop(w, ci) == {Ok(0, <<>>, [w EXCEPT !.cs[ci].mon = 0])}
DoStats(w, ci) ==
  LET m == w.cs[ci].mon
  IN {IF m = 0 THEN Err("NotMonitoring", w) ELSE Ok(m, <<1, m>>, w)}

Restrict(f, S) == [x \in S |-> f[x]]
DoStatsOp(w, s, what, k) ==
  LET km == w.st[s].km
      mine == k \in DOMAIN km
      set(m) == [w EXCEPT !.st[s].km = m]
      zero == [h |-> 0, m |-> 0]
      needs == what \in {1, 3, 5, 6, 7, 8, 9}
  IN IF needs /\ ~mine THEN {Err("UnmonitoredKey", w)}
     ELSE {CASE what = 0 -> Ok(0, <<>>, IF mine THEN w
                  ELSE set([x \in DOMAIN km \cup {k} |-> IF x = k THEN zero ELSE km[x]]))
             [] what = 1 -> Ok(0, <<>>, set(Restrict(km, DOMAIN km \ {k})))
             [] what = 2 -> Ok(0, <<>>, set(<<>>))
             [] what = 3 -> Ok(0, <<>>, set([km EXCEPT ![k] = zero]))
             [] what = 4 -> Ok(0, <<>>, set([x \in DOMAIN km |-> zero]))
             [] what = 5 -> Ok(km[k].h, <<>>, w)
             [] what = 6 -> Ok(km[k].m, <<>>, w)
             [] what = 7 -> Ok(km[k].h + km[k].m, <<>>, w)
             [] what \in {8, 9} -> Ok(0, <<km[k].h, km[k].m, km[k].h + km[k].m>>, w)
             [] what = 10 -> Ok(B(mine), <<>>, w)}

DoCallback(w, ci, type, id) ==
  {Ok(0, <<>>, CASE type = 0 -> [w EXCEPT !.cs[ci].hc = Append(@, id)]
                 [] type = 1 -> [w EXCEPT !.cs[ci].mc = Append(@, id)]
                 [] OTHER -> [w EXCEPT !.cs[ci].ac = Append(@, id)])}
DoClearCallbacks(w, ci, type) ==
  {Ok(0, <<>>, [w EXCEPT !.cs[ci].hc = IF type \in {0, 3} THEN <<>> ELSE @,
                         !.cs[ci].mc = IF type \in {1, 3} THEN <<>> ELSE @,
                         !.cs[ci].ac = IF type \in {2, 3} THEN <<>> ELSE @])}

\* ------------------------------------------------------------------ expiry
Alive(w, c) == SelectSeq(c.es, LAMBDA e : ~ExpiredE(w, c, e))
DoClearExpired(w, ci) ==
  LET c == w.cs[ci] IN {Ok(Len(c.es) - Len(Alive(w, c)), <<>>, SetE(w, ci, Alive(w, c)))}
DoAllExpired(w, ci) == {Ok(B(Alive(w, w.cs[ci]) = <<>>), <<>>, w)}
DoHasExpired(w, ci, k) ==
  LET i == Pos(w.cs[ci], k) IN {Ok(B(i # 0 /\ ExpiredAt(w, w.cs[ci], i)), <<>>, w)}
DoTick(w, d) == {Ok(0, <<>>, [w EXCEPT !.now = @ + d])}

DoFront(w, ci, form) ==
  LET es == w.cs[ci].es
  IN {IF es = <<>> THEN Err("EmptyCache", w)
      ELSE Ok(IF form = 0 THEN es[1].rk ELSE es[Len(es)].rk, <<>>, w)}

\* ------------------------------------------------------------------ iterators
\* kd: 0 unordered, 1 ordered, 2 const unordered, 3 const ordered; k = 0: end
\* Ordered iteration goes from the least to the most recently used entry.
Ordered(kd) == kd \in {1, 3}
SetH(w, h, c, kd, k) == [w EXCEPT !.hs[h] = [on |-> TRUE, c |-> c, kd |-> kd, k |-> k]]
RawKeys(c) == {c.es[i].rk : i \in DOMAIN c.es}
\* Where unordered iteration starts / goes on: exact if the order is known.
UnBegin(w, ci) ==
  LET u == w.un[ci]
  IN IF w.cs[ci].es = <<>> THEN {0} ELSE IF u = <<-1>> THEN RawKeys(w.cs[ci]) ELSE {u[1]}
UnNext(w, ci, k) ==
  LET u == w.un[ci]
      S == {i \in DOMAIN u : u[i] = k}
  IN IF u = <<-1>> \/ S = {} THEN RawKeys(w.cs[ci]) \cup {0}
     ELSE {IF i = Len(u) THEN 0 ELSE u[i + 1] : i \in S}

DoHGet(w, h, ci, kd, how, k) ==
  LET c == w.cs[ci]
      at(k2) == Ok(k2, <<>>, SetH(w, h, ci, kd, k2))
  IN CASE how = 0 -> IF Ordered(kd) THEN {at(IF c.es = <<>> THEN 0 ELSE c.es[Len(c.es)].rk)}
                     ELSE {at(k2) : k2 \in UnBegin(w, ci)}
       [] how = 1 -> {at(0)}
       [] how = 2 ->
            UNION {LET k2 == IF a.hit THEN a.w.cs[ci].es[1].rk ELSE 0
                   IN IF Bad(a.f) # {} THEN Interrupted(w, ci, a)
                      ELSE {Out("", k2, <<>>, a.f, SetH(a.w, h, ci, kd, k2))} :
                     a \in Accesses(w, ci, k)}
       [] how = 3 -> IF RawPos(c, k) = 0 THEN {} ELSE {at(k)}

DoHMove(w, h, what) ==
  LET x == w.hs[h]
      c == w.cs[x.c]
      i == RawPos(c, x.k)
      n == Len(c.es)
      old == IF what \in {1, 3} /\ x.k # 0 THEN x.k ELSE -1
      to(k) == Ok(k, <<old>>, [w EXCEPT !.hs[h].k = k])
  IN IF x.k # 0 /\ i = 0 THEN {}
     ELSE IF what \in {0, 1}
          THEN IF x.k = 0 THEN {}
               ELSE IF Ordered(x.kd) THEN {to(IF i = 1 THEN 0 ELSE c.es[i - 1].rk)}
               ELSE {to(k) : k \in UnNext(w, x.c, x.k)}
          ELSE IF ~Ordered(x.kd) \/ n = 0 \/ i = n THEN {}
               ELSE {to(IF x.k = 0 THEN c.es[1].rk ELSE c.es[i + 1].rk)}

\* Checked uses of an iterator fail past the end and on expired entries.
HandleError(w, x) ==
  IF x.k = 0 THEN "InvalidIterator"
  ELSE IF ExpiredAt(w, w.cs[x.c], RawPos(w.cs[x.c], x.k)) THEN "KeyExpired" ELSE ""

DoHDeref(w, h, form) ==
  LET x == w.hs[h]
      e == w.cs[x.c].es[RawPos(w.cs[x.c], x.k)]
      err == HandleError(w, x)
  IN IF form \in {0, 1} THEN {Ok(0, <<e.rk, e.v>>, w)}
     ELSE IF form = 5 THEN {Ok(0, <<e.rk, e.v, 1>>, w)}   \* as an entry, compared with pairs
     ELSE IF err # "" THEN {Err(err, w)}
     ELSE {Ok(0, CASE form = 2 -> <<e.rk>> [] form = 3 -> <<e.v>>
                   [] form = 6 -> <<e.rk, e.v, 1>> [] OTHER -> <<e.rk, e.v>>, w)}
DoHWrite(w, h, v, form) ==
  LET x == w.hs[h]
      i == RawPos(w.cs[x.c], x.k)
      err == HandleError(w, x)
  IN IF form = 1 /\ err # "" THEN {Err(err, w)}
     ELSE {Ok(0, <<>>, [w EXCEPT !.cs[x.c].es[i].v = v])}
DoHValid(w, h, form) ==
  LET x == w.hs[h]
      err == HandleError(w, x)
  IN {CASE form = 0 -> Ok(B(err = ""), <<>>, w)
        [] form = 1 -> IF err = "" THEN Ok(0, <<>>, w) ELSE Err(err, w)
        [] OTHER -> Ok(B(err = "KeyExpired"), <<>>, w)}
DoHErase(w, h) ==
  LET x == w.hs[h] IN EraseAt(w, x.c, x.k, <<x.c, x.k>>)
\* conversions, copies and assignments of iterators: the kind of the result
\* (forms from 10 on move what is converted)
ConvKind(kd, form) ==
  CASE form \in {3, 4, 5, 6, 13} -> kd
    [] kd \in {0, 1} /\ form \in {7, 17} -> kd + 2
    [] kd = 0 /\ form \in {0, 10} -> 1
    [] kd = 0 /\ form \in {1, 11} -> 3
    [] kd = 0 /\ form \in {2, 12} -> 2
    [] kd \in {1, 2} /\ form \in {0, 10} -> 3
    [] OTHER -> -1
DoHConv(w, h, g, form) ==
  LET x == w.hs[h]
      kd == ConvKind(x.kd, form)
  IN IF kd = -1 THEN {}
     ELSE IF x.k = 0 /\ ~Ordered(x.kd) /\ Ordered(kd) THEN {Err("InvalidIteratorConversion", w)}
     ELSE {Ok(x.k, <<>>, SetH(w, g, x.c, kd, x.k))}
\* Swapping two iterators of the same kind.
DoHSwap(w, h, g) ==
  LET x == w.hs[h]
      y == w.hs[g]
  IN IF ~y.on \/ x.kd # y.kd \/ h = g THEN {}
     ELSE {Ok(0, <<y.k, x.k>>, [w EXCEPT !.hs[h] = y, !.hs[g] = x])}
\* Iterators are equal when they denote the same position of the same cache.
DoHEqual(w, h, g) ==
  {Ok(0, EqResult(w.hs[h].k = w.hs[g].k /\ w.hs[h].c = w.hs[g].c), w)}

\* ------------------------------------------------------------------ dispatch
\* Iterators an operation may invalidate are given up: those into a cache that
\* was assigned, moved, swapped or destroyed, unordered ones when an insertion
\* may have rehashed, and those whose entry is gone or was replaced.
Dropped(w, e, w2, x) ==
  LET c == w2.cs[x.c] IN
  \/ ~x.on
  \/ ~c.on
  \/ x.k # 0 /\ RawPos(c, x.k) = 0
  \/ e.op \in {"asg", "insr", "clr", "del"} /\ x.c = e.a[1]
  \/ e.op = "copy" /\ x.c = e.a[1]
  \/ e.op \in {"move", "swap"} /\ x.c \in {e.a[1], e.a[2]}
  \/ e.op = "ins" /\ x.c = e.a[1] /\
       \/ ~Ordered(x.kd)
       \/ LET b == w.cs[x.c]
              i == Pos(b, e.a[2])
          IN i # 0 /\ ExpiredAt(w, b, i) /\ b.es[i].rk = x.k
Sweep(w, e, w2) ==
  IF \A h \in DOMAIN w2.hs : w2.hs[h] = NoHandle THEN w2
  ELSE [w2 EXCEPT !.hs = [h \in DOMAIN @ |-> IF Dropped(w, e, w2, @[h]) THEN NoHandle ELSE @[h]]]

Step0(w, e) ==
  LET a == e.a IN
  CASE e.op = "acc" -> DoAccess(w, a[1], a[2], a[3])
    [] e.op = "acn" -> DoAccessMany(w, a[1], a[2], a[3], a[4])
    [] e.op = "wr" -> DoWrite(w, a[1], a[2], a[3], a[4])
    [] e.op = "ins" -> DoInsert(w, a[1], a[2], a[3], a[4])
    [] e.op = "insr" -> DoInsertRange(w, a[1], e.l, a[2])
    [] e.op = "new" -> DoNew(w, a[1], a[2], a[3], a[4], a[5], e.l)
    [] e.op = "asg" -> DoAssign(w, a[1], e.l)
    [] e.op = "copy" -> DoCopy(w, a[1], a[2])
    [] e.op = "move" -> DoMove(w, a[1], a[2])
    [] e.op = "swap" -> DoSwap(w, a[1], a[2])
    [] e.op = "del" -> DoDelete(w, a[1])
    [] e.op = "eq" -> DoEqual(w, a[1], a[2])
    [] e.op = "era" -> DoErase(w, a[1], a[2])
    [] e.op = "erai" -> DoEraseIt(w, a[1], a[2])
    [] e.op = "clr" -> DoClear(w, a[1])
    [] e.op = "shr" -> DoShrink(w, a[1], a[2])
    [] e.op = "cap" -> DoCapacity(w, a[1], a[2])
    [] e.op = "mon" -> DoMonitor(w, a[1], a[2], a[3], e.l)
    [] e.op = "stp" -> DoStop(w, a[1])
    [] e.op = "sta" -> DoStats(w, a[1])
    [] e.op = "sop" -> DoStatsOp(w, a[1], a[2], a[3])
    [] e.op = "cb" -> DoCallback(w, a[1], a[2], a[3])
    [] e.op = "ccb" -> DoClearCallbacks(w, a[1], a[2])
    [] e.op = "exp" -> CASE a[2] = 0 -> DoClearExpired(w, a[1])
                         [] a[2] = 1 -> DoAllExpired(w, a[1])
                         [] OTHER -> DoHasExpired(w, a[1], a[3])
    [] e.op = "tick" -> DoTick(w, a[1])
    [] e.op = "fro" -> DoFront(w, a[1], a[2])
    [] e.op = "hget" -> DoHGet(w, a[1], a[2], a[3], a[4], a[5])
    [] e.op = "hmov" -> DoHMove(w, a[1], a[2])
    [] e.op = "hder" -> DoHDeref(w, a[1], a[2])
    [] e.op = "hwr" -> DoHWrite(w, a[1], a[2], a[3])
    [] e.op = "hval" -> DoHValid(w, a[1], a[2])
    [] e.op = "hera" -> DoHErase(w, a[1])
    [] e.op = "hcnv" -> DoHConv(w, a[1], a[2], a[3])
    [] e.op = "heq" -> DoHEqual(w, a[1], a[2])
    [] e.op = "hswp" -> DoHSwap(w, a[1], a[2])
    [] e.op \in {"nop", "sysj"} -> {Ok(0, <<>>, w)}

HandleOps == {"hmov", "hder", "hwr", "hval", "hera", "hcnv", "heq", "hswp"}
Step(w, e) ==
  IF e.op \in HandleOps /\ ~w.hs[e.a[1]].on THEN {}
  ELSE {[o EXCEPT !.w = Sweep(w, e, @)] : o \in Step0(w, e)}

\* Time may pass while an operation is running.  Whatever it decides, it decides
\* at one instant of its duration: the worlds it may take place in.
Meanwhile(e) == CASE e.op = "acc" -> e.a[4] [] e.op \in {"ins", "wr"} -> e.a[5] [] OTHER -> 0
Instants(w, e) ==
  IF Meanwhile(e) = 0 THEN {w} ELSE {w, [w EXCEPT !.now = @ + Meanwhile(e)]}
\* The time when it is done.
Later(w, e, o) == IF Meanwhile(e) = 0 THEN o ELSE [o EXCEPT !.w.now = w.now + Meanwhile(e)]

\* ------------------------------------------------------------------ faults
\* What may be left behind when copying, moving or allocating throws in e.
Faulted0(w, e) ==
  {Err("Fault", w)} \cup
  CASE e.op = "insr" ->
         UNION {{Err("Fault", o.w) : o \in InsertedAll(w, e.a[1], SubSeq(e.l, 1, j), 0)} :
                  j \in 0..(Len(e.l) - 1)}
    [] e.op = "asg" ->
         LET c == [w.cs[e.a[1]] EXCEPT !.es = <<>>]
         IN UNION {{Err("Fault", o.w) :
                      o \in InsertedAll(SetC(w, e.a[1], [c EXCEPT !.cap = cap]), e.a[1],
                                        SubSeq(e.l, 1, j), 0)} :
                     j \in 0..(Len(e.l) - 1), cap \in {c.cap, Max(c.cap, Len(e.l))}}
    [] e.op \in {"acc", "hget"} /\ (e.op = "hget" => e.a[4] = 2) ->
         LET c == IF e.op = "hget" THEN e.a[2] ELSE e.a[1]
         IN UNION {{Out("Fault", 0, <<>>, SubSeq(a.f, 1, j), [v EXCEPT !.st = st]) :
                      v \in {w, [w EXCEPT !.cs = a.w.cs]}, st \in {w.st, a.w.st},
                      j \in 0..Len(a.f)} :
                     a \in Accesses(w, c, IF e.op = "hget" THEN e.a[5] ELSE e.a[2])}
    [] e.op \in {"era", "erai", "shr", "cap", "clr"} ->
         \* an interrupted removal may have happened or not
         {Err("Fault", o.w) : o \in Step0(w, e)}
    [] OTHER -> {}
Faulted(w, e) == {[o EXCEPT !.w = Sweep(w, e, @)] : o \in Faulted0(w, e)}
=============================================================================
