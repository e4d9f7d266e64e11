------------------------------ MODULE WrapCore ------------------------------
(***************************************************************************)
(* The abstract machine behind LRU::wrap and LRU::timed_wrap: a function   *)
(* with a cache of its own, keyed by its arguments.                        *)
(*                                                                         *)
(* The world is that of LRUCore, wrapper h owning the cache in slot h; in  *)
(* addition kd[h] is the kind of function it wraps (3: one that calls its  *)
(* own wrapper with the next smaller argument, all others: ones that do    *)
(* not) and hist[h] is history: all arguments the wrapper returned a value *)
(* for, most recently used first, with the value and time of the last real *)
(* evaluation.                                                             *)
(*                                                                         *)
(* A call <<h, k, thr, val, dur, form>> asks wrapper h for argument k; the *)
(* function, if it is evaluated for j, takes dur ticks, throws if j = thr  *)
(* and returns val + j otherwise.  The outcome lists the evaluations in r. *)
(***************************************************************************)
EXTENDS LRUCore

WWorld(wrappers) ==
  [core |-> World(wrappers, {}, 1), kd |-> [h \in wrappers |-> 0], hist |-> [h \in wrappers |-> <<>>]]

Recursive == 3

DoMake(W, h, kind, cap, ttl) ==
  LET c == [NoCache EXCEPT !.on = TRUE, !.cap = IF cap < 0 THEN DefaultCapacity ELSE cap, !.ttl = ttl]
  IN [W EXCEPT !.core.cs[h] = c, !.kd[h] = kind, !.hist[h] = <<>>]
DoDrop(W, h) == [W EXCEPT !.core.cs[h] = NoCache, !.hist[h] = <<>>]

HPos(W, h, k) == LET S == {i \in DOMAIN W.hist[h] : W.hist[h][i].k = k}
                 IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Remembered(W, h, x) ==    \* x becomes the most recently used
  LET i == HPos(W, h, x.k)
  IN [W EXCEPT !.hist[h] = <<x>> \o (IF i = 0 THEN @ ELSE Without(@, i))]

\* Evaluating the function and storing its result.
Stored(W, h, k, v) ==
  {Remembered([W EXCEPT !.core = o.w], h, [k |-> k, v |-> v, t |-> W.core.now]) : o \in Inserted(W.core, h, k, v)}

RECURSIVE Called(_, _, _, _, _, _)
Finished(W, h, k, thr, val, calls) ==
  IF k = thr THEN {[x |-> "Thrown", n |-> 0, r |-> calls, w |-> W]}
  ELSE {[x |-> "", n |-> val + k, r |-> calls, w |-> V] : V \in Stored(W, h, k, val + k)}
Evaluated(W0, h, k, thr, val, dur) ==
  LET W == [W0 EXCEPT !.core.now = @ + dur]
  IN IF W.kd[h] = Recursive /\ k > 0
     THEN UNION {IF i.x # "" THEN {[i EXCEPT !.r = <<k>> \o @]}
                 ELSE Finished(i.w, h, k, thr, val, <<k>> \o i.r) :
                   i \in Called(W, h, k - 1, thr, val, dur)}
     ELSE Finished(W, h, k, thr, val, <<k>>)
Called(W, h, k, thr, val, dur) ==
  UNION {LET V == [W EXCEPT !.core = a.w]
         IN IF a.hit
            THEN {[x |-> "", n |-> a.w.cs[h].es[1].v, r |-> <<>>,
                   w |-> Remembered(V, h, [k |-> k, v |-> a.w.cs[h].es[1].v, t |-> a.w.cs[h].es[1].t])]}
            ELSE Evaluated(V, h, k, thr, val, dur) :
           a \in Accesses(W.core, h, k)}

Nothing(W) == {[x |-> "", n |-> 0, r |-> <<>>, w |-> W]}
WStep(W, e) ==
  CASE e.op = "mk" -> Nothing(DoMake(W, e.a[1], e.a[2], e.a[4], e.a[5]))
    [] e.op = "rm" -> Nothing(DoDrop(W, e.a[1]))
    [] e.op = "call" -> Called(W, e.a[1], e.a[2], e.a[3], e.a[4], e.a[5])
    [] e.op = "tick" -> Nothing([W EXCEPT !.core.now = @ + e.a[1]])
    [] e.op = "sysj" -> Nothing(W)

\* ------------------------------------------------------------------ properties
\* The value a wrapper must return is that of the last evaluation of the
\* function for the argument, and it may return it without an evaluation just
\* if the argument is among the last `capacity` ones used, and young enough.
\* All in terms of the history, not of the cache.
Fresh(W, h, k) ==
  LET i == HPos(W, h, k)
      c == W.core.cs[h]
  IN i # 0 /\ i <= c.cap /\ (c.ttl < 0 \/ W.core.now - W.hist[h][i].t <= c.ttl)
OthersAlone(W, e, o) == \A h \in DOMAIN W.kd : h # e.a[1] =>
  o.w.core.cs[h] = W.core.cs[h] /\ o.w.hist[h] = W.hist[h] /\ o.w.kd[h] = W.kd[h]
Memoised(W, e, o) ==
  LET h == e.a[1]
      k == e.a[2]
      calls == o.r
      low == k - Len(calls) + 1       \* the smallest argument evaluated
  IN /\ (calls = <<>>) <=> Fresh(W, h, k)
     /\ calls = <<>> => o.x = "" /\ o.n = W.hist[h][HPos(W, h, k)].v
     /\ calls # <<>> => /\ calls = [j \in 1..Len(calls) |-> k - j + 1]
                        /\ W.kd[h] # Recursive => Len(calls) = 1
                        /\ (o.x = "Thrown") <=> (e.a[3] \in Range(calls))
                        /\ o.x = "" => o.n = e.a[4] + k
                        /\ W.kd[h] = Recursive /\ e.a[5] = 0 =>
                             /\ low >= 0 /\ (low = 0 \/ Fresh(W, h, low - 1))
                             /\ \A j \in Range(calls) : ~Fresh(W, h, j)
     /\ OthersAlone(W, e, o)
WP(p, W, e, o) ==
  CASE e.op = "call" ->
         (IF p = "C21" THEN W.core.cs[e.a[1]].ttl < 0 ELSE W.core.cs[e.a[1]].ttl >= 0) => Memoised(W, e, o)
    [] e.op \in {"mk", "rm"} -> OthersAlone(W, e, o)
    [] OTHER -> TRUE

\* The cache of a wrapper holds exactly the last `capacity` arguments used.
Remembering(W) == \A h \in DOMAIN W.kd : LET c == W.core.cs[h] IN
  /\ [i \in DOMAIN c.es |-> [k |-> c.es[i].k, v |-> c.es[i].v, t |-> c.es[i].t]] = Keep(W.hist[h], c.cap)
  /\ Len(c.es) <= c.cap
=============================================================================
