----------------------------- MODULE BulkModel -----------------------------
(***************************************************************************)
(* That Bulk.tla is LRUCore with many keys at a time: in every world       *)
(* reached and for every operation, the outcomes are those of doing it     *)
(* with one key after the other.                                           *)
(***************************************************************************)
EXTENDS Bulk

CONSTANTS Slots, Keys, Values, Caps, Horizon, Ops, Slip,
          Ttls    \* times to live and one, 0 for none
C == INSTANCE LRUCore

VARIABLE w

\* ------------------------------------------------------------------ one by one
RECURSIVE Each(_)
Each(rs) ==    \* most recently used first
  IF rs = <<>> THEN <<>>
  ELSE LET r == Head(rs)
       IN Each(Tail(rs)) \o [i \in 1..r.n |-> LET k == r.k + r.n - i IN [k |-> k, rk |-> k, v |-> k + r.d, t |-> r.t]]
Ids(n) == [i \in 1..n |-> i]
Cache(c) ==
  IF ~c.on THEN C!NoCache
  ELSE [C!NoCache EXCEPT !.on = TRUE, !.cap = c.cap, !.ttl = c.ttl, !.es = Each(c.rs), !.mon = c.mon,
                         !.hc = Ids(c.cb[1]), !.mc = Ids(c.cb[2]), !.ac = Ids(c.cb[3])]
Stat(q) == [acc |-> q.h + q.m, hit |-> q.h,
            km |-> [k \in {x \in Keys : IndexOf(q.km, x) # 0} |->
                      LET r == q.km[IndexOf(q.km, k)] IN [h |-> r.h, m |-> r.m]]]
World(v) == [C!World(Slots, {}, 1) EXCEPT !.now = v.now, !.cs = [s \in Slots |-> Cache(v.cs[s])],
                                          !.st = [i \in DOMAIN v.st |-> Stat(v.st[i])]]
Pairs(k, n, d) == [i \in 1..n |-> <<k + i - 1, k + i - 1 + d>>]

\* [n, r, f, w]: how many, the values found by key, numbers of callbacks, the world.
Kinds(f) == [t \in 1..3 |-> Cardinality({i \in DOMAIN f : f[i][2] = t - 1})]
Sum(a, b) == [t \in 1..3 |-> a[t] + b[t]]
RECURSIVE Accessing(_, _, _, _, _, _, _)
Accessing(v, s, k, n, m, r, f) ==
  IF n = 0 THEN {[n |-> m, r |-> r, f |-> f, w |-> v]}
  ELSE UNION {Accessing(a.w, s, k + 1, n - 1, m + C!B(a.hit), IF a.hit THEN Append(r, <<k, a.w.cs[s].es[1].v>>) ELSE r, Sum(f, Kinds(a.f))) :
                a \in C!Accesses(v, s, k)}
RECURSIVE Removing(_, _, _, _, _)
Removing(v, s, k, n, m) ==
  IF n = 0 THEN {[n |-> m, r |-> <<>>, f |-> <<0, 0, 0>>, w |-> v]}
  ELSE UNION {Removing(o.w, s, k + 1, n - 1, m + o.n) : o \in C!DoErase(v, s, k)}
RECURSIVE Calling(_, _, _, _, _, _, _)
Calling(v, s, k, n, d, m, r) ==
  IF n = 0 THEN {[n |-> m, r |-> r, f |-> <<0, 0, 0>>, w |-> v]}
  ELSE UNION {IF a.hit THEN Calling(a.w, s, k + 1, n - 1, d, m, Append(r, <<k, a.w.cs[s].es[1].v>>))
              ELSE UNION {Calling(o.w, s, k + 1, n - 1, d, m + 1, Append(r, <<k, k + d>>)) : o \in C!Inserted(a.w, s, k, k + d)} :
                a \in C!Accesses(v, s, k)}
RECURSIVE Operating(_, _, _, _, _)
Operating(v, s, what, k, n) ==
  IF n = 0 THEN {v}
  ELSE UNION {Operating(o.w, s, what, k + 1, n - 1) : o \in C!DoStatsOp(v, s, what, k)}

Plain(S) == {[n |-> 0, r |-> <<>>, f |-> <<0, 0, 0>>, w |-> o.w] : o \in S}
Valued(S) == {[n |-> o.n, r |-> <<>>, f |-> <<0, 0, 0>>, w |-> o.w] : o \in S}
Form(f) == CASE f = 0 -> 0 [] f = 1 -> 2 [] f = 2 -> 6 [] f = 3 -> 5 [] f = 4 -> 3 [] f = 5 -> 7
OneByOne(v, e) ==
  LET s == e.a[1] IN
  CASE e.op = "new" -> Plain(C!DoNew(v, s, Form(e.a[3]), e.a[4], e.a[2], 0, Pairs(e.a[5], e.a[6], e.a[7])))
    [] e.op = "asg" -> Plain(C!DoAssign(v, s, Pairs(e.a[2], e.a[3], e.a[4])))
    [] e.op = "del" -> Plain(C!DoDelete(v, s))
    [] e.op = "fil" -> Valued(C!DoInsertRange(v, s, Pairs(e.a[2], e.a[3], e.a[4]), 0))
    [] e.op = "lok" -> Accessing(v, s, e.a[2], e.a[3], 0, <<>>, <<0, 0, 0>>)
    [] e.op = "rem" -> Removing(v, s, e.a[2], e.a[3], 0)
    [] e.op = "shr" -> Plain(C!DoShrink(v, s, e.a[2]))
    [] e.op = "cap" -> Plain(C!DoCapacity(v, s, e.a[2]))
    [] e.op = "clr" -> Plain(C!DoClear(v, s))
    [] e.op = "cex" -> Valued(C!DoClearExpired(v, s))
    [] e.op = "aex" -> Valued(C!DoAllExpired(v, s))
    [] e.op = "copy" -> Plain(C!DoCopy(v, s, e.a[2]))
    [] e.op = "move" -> Plain(UNION {C!DoDelete(o.w, e.a[2]) : o \in C!DoMove(v, s, e.a[2])})
    [] e.op = "swap" -> Plain(C!DoSwap(v, s, e.a[2]))
    [] e.op = "eq" -> {[n |-> o.r[1], r |-> <<>>, f |-> <<0, 0, 0>>, w |-> o.w] : o \in C!DoEqual(v, s, e.a[2])}
    [] e.op = "mon" -> Plain(C!DoMonitor(v, s, 0, 0, [i \in 1..e.a[3] |-> <<e.a[2] + i - 1>>]))
    [] e.op = "stp" -> Plain(C!DoStop(v, s))
    [] e.op = "sop" -> IF v.cs[s].mon = 0 THEN {}
                       ELSE LET m == v.cs[s].mon
                                mine(k) == k \in DOMAIN v.st[m].km
                            IN (CASE e.a[2] = 0 -> {[n |-> 0, r |-> <<>>, f |-> <<0, 0, 0>>, w |-> x] : x \in Operating(v, m, 0, e.a[3], e.a[4])}
                                 [] e.a[2] = 1 -> {[n |-> 0, r |-> <<>>, f |-> <<0, 0, 0>>, w |->
                                                    [v EXCEPT !.st[m].km = C!Restrict(@, DOMAIN @ \ (e.a[3]..(e.a[3] + e.a[4] - 1)))]]}
                                 [] e.a[2] = 2 -> Plain(C!DoStatsOp(v, m, 4, 0))
                                 [] e.a[2] = 3 -> Plain(C!DoStatsOp(v, m, 2, 0)))
    [] e.op = "cb" -> Plain(C!DoCallback(v, s, e.a[2], (IF e.a[2] = 0 THEN Len(v.cs[s].hc) ELSE IF e.a[2] = 1 THEN Len(v.cs[s].mc) ELSE Len(v.cs[s].ac)) + 1))
    [] e.op = "ccb" -> Plain(C!DoClearCallbacks(v, s, e.a[2]))
    [] e.op = "tick" -> Plain(C!DoTick(v, s))
    [] e.op = "wrap" -> Plain(C!DoNew(v, s, 0, e.a[3], e.a[2], 0, <<>>))
    [] e.op = "call" -> Calling(v, s, e.a[2], e.a[3], e.a[4], 0, <<>>)

RECURSIVE Found(_)
Found(r) == IF r = <<>> THEN <<>> ELSE [i \in 1..Head(r).n |-> <<Head(r).k + i - 1, Head(r).k + i - 1 + Head(r).d>>] \o Found(Tail(r))
InRuns(o) == [n |-> o.n, r |-> Found(o.r), f |-> o.f, w |-> World(o.w)]

\* ------------------------------------------------------------------ the model
Ranges == {<<k, n>> : k \in Keys, n \in 0..Cardinality(Keys)} \cap {<<k, n>> \in Keys \X (0..Cardinality(Keys)) : k + n - 1 \in Keys \cup {k - 1}}
E(op, a) == [op |-> op, a |-> a]
On(v) == {s \in Slots : v.cs[s].on}
Plainly(v) == {s \in On(v) : v.cs[s].fn < 0}
Events(v) ==
  {E("new", <<s, t - 1, f, c, r[1], r[2], d>>) : s \in Slots \ On(v), t \in Ttls, f \in 0..5, c \in Caps, r \in Ranges, d \in Values}
  \cup {E("asg", <<s, r[1], r[2], d>>) : s \in Plainly(v), r \in Ranges, d \in Values}
  \cup {E("fil", <<s, r[1], r[2], d>>) : s \in Plainly(v), r \in Ranges, d \in Values}
  \cup {E("lok", <<s, r[1], r[2]>>) : s \in Plainly(v), r \in Ranges}
  \cup {E("rem", <<s, r[1], r[2]>>) : s \in Plainly(v), r \in Ranges}
  \cup {E(op, <<s, n>>) : op \in {"shr", "cap"}, s \in Plainly(v), n \in Caps}
  \cup {E(op, <<s>>) : op \in {"clr", "cex", "aex", "stp"}, s \in Plainly(v)}
  \cup {E("del", <<s>>) : s \in On(v)}
  \cup {E(op, <<a, b>>) : op \in {"swap", "eq"}, a \in Plainly(v), b \in Plainly(v)}
  \cup {E("copy", <<a, b>>) : a \in Slots \ On(v), b \in Plainly(v)}
  \cup {E("move", <<p[1], p[2]>>) : p \in {q \in (Slots \ (On(v) \ Plainly(v))) \X Plainly(v) : q[1] # q[2]}}
  \cup (IF Len(v.st) < 1 THEN {E("mon", <<s, r[1], r[2]>>) : s \in Plainly(v), r \in Ranges} ELSE {})
  \cup {E("sop", <<s, what, r[1], r[2]>>) : s \in Plainly(v), what \in 0..3, r \in Ranges}
  \cup {E("cb", <<p[1], p[2], 1>>) : p \in {q \in Plainly(v) \X (0..2) : v.cs[q[1]].cb[q[2] + 1] = 0}}
  \cup {E("ccb", <<s, t>>) : s \in Plainly(v), t \in 0..2}
  \cup (IF v.now < Horizon THEN {E("tick", <<1>>)} ELSE {})
  \cup {E("wrap", <<s, t - 1, c>>) : s \in Slots \ On(v), t \in Ttls, c \in Caps}
  \cup {E("call", <<s, r[1], r[2], d>>) : s \in On(v) \ Plainly(v), r \in Ranges, d \in Values}
Chosen(v) == {e \in Events(v) : e.op \in Ops}

Hasty(v, e) ==     \* a mistake to be found: what is thrown out is settled at the end of a run
  IF Slip # "late" \/ e.op # "fil" THEN Step(v, e)
  ELSE LET c == v.cs[e.a[1]]
           q == Filled(v.now, [c EXCEPT !.cap = IF @ = 0 THEN 0 ELSE 1000], e.a[2], e.a[3], e.a[4], 0, 0)
       IN {Out(q.new, <<>>, <<0, 0, 0>>, SetR(v, e.a[1], KeepNewest(q.rs, c.cap)))}
Same(v) == \A e \in Chosen(v) : {InRuns(o) : o \in Hasty(v, e)} = OneByOne(World(v), e)
Tidy(v) == \A s \in Slots : v.cs[s].rs = Norm(v.cs[s].rs) /\ Total(v.cs[s].rs) <= v.cs[s].cap

Bounded(v) == \A i \in DOMAIN v.st : v.st[i].h + v.st[i].m <= 2
Init == w = Beginning(Slots)
Next == \E e \in Chosen(w) : \E o \in Step(w, e) : w' = o.w
Spec == Init /\ [][Next]_w
Within == Bounded(w)
Refined == Same(w)
Normal == Tidy(w)
=============================================================================
