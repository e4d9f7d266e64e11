------------------------------- MODULE LRUImpl -------------------------------
(***************************************************************************)
(* How the headers do it: a hash map whose nodes hold the key, the value   *)
(* and an iterator into a linked list, a list whose nodes refer to the     *)
(* keys in the map, from the least to the most recently used, and a        *)
(* pointer to the entry accessed last, which lets an access of the same    *)
(* key again skip the search and the reordering.                           *)
(*                                                                         *)
(* Nodes live at addresses that are reused as soon as they are free, so    *)
(* that a pointer left dangling would sooner or later denote another       *)
(* entry.  What is checked, of every reachable state and step:             *)
(*   Sound      no pointer reachable from a cache dangles; map and list     *)
(*              hold the same entries; nothing leaks                       *)
(*   Shortcut   the entry accessed last is the most recently used one      *)
(*   Refines    each operation is a step LRUCore allows, with the same     *)
(*              result, in the world the memory stands for (AbsWorld)      *)
(*   Stable     an entry that stays keeps its nodes in map and list        *)
(*              (iterators and references stay good)                       *)
(* The world is that of LRUCore, so this module says how the abstract      *)
(* machine is implemented and nothing about what it means.                 *)
(***************************************************************************)
EXTENDS LRUCore

CONSTANTS ISlots, IKeys, IVals, ICaps, ITtl, IMaxNow, Cells, IOps,
          Slip    \* "": as it should be; otherwise a mistake put in on purpose

VARIABLES m, ie
ivars == <<m, ie>>

(* m.n[a]  map nodes   [on, k, v, t, o]   o: the list node                 *)
(* m.l[a]  list nodes  [on, n, p, s]      n: the map node (for its key),   *)
(*                     p, s: neighbours, 0 standing for the end            *)
(* m.c[s]  caches      [on, map, first, last, la, cap]                     *)
FreeNode == [on |-> FALSE, k |-> 0, v |-> 0, t |-> 0, o |-> 0]
FreeLink == [on |-> FALSE, n |-> 0, p |-> 0, s |-> 0]
NoI == [on |-> FALSE, map |-> {}, first |-> 0, last |-> 0, la |-> 0, cap |-> 0]

Least(S) == CHOOSE a \in S : \A b \in S : a <= b
NewNode(x) == Least({a \in Cells : ~x.n[a].on})
NewLink(x) == Least({a \in Cells : ~x.l[a].on})

\* ---------------------------------------------------------------- the list
\* splice and friends, as pointer operations
Unlink(x, s, a) ==
  LET l == x.l[a]
      y == IF l.p = 0 THEN [x EXCEPT !.c[s].first = l.s] ELSE [x EXCEPT !.l[l.p].s = l.s]
  IN IF l.s = 0 THEN [y EXCEPT !.c[s].last = l.p] ELSE [y EXCEPT !.l[l.s].p = l.p]
LinkLast(x, s, a) ==
  LET q == x.c[s].last
      y == [x EXCEPT !.l[a].p = q, !.l[a].s = 0, !.c[s].last = a]
  IN IF q = 0 THEN [y EXCEPT !.c[s].first = a] ELSE [y EXCEPT !.l[q].s = a]
MoveToFront(x, s, a) ==
  IF Cardinality(x.c[s].map) = 1 THEN x ELSE LinkLast(Unlink(x, s, a), s, a)

RECURSIVE Walk(_, _)
Walk(x, a) == IF a = 0 THEN <<>> ELSE <<a>> \o Walk(x, x.l[a].s)
Links(x, s) == Walk(x, x.c[s].first)       \* least recently used first
RECURSIVE Back(_, _)
Back(x, a) == IF a = 0 THEN <<>> ELSE <<a>> \o Back(x, x.l[a].p)

\* ---------------------------------------------------------------- the map
Find(x, s, k) == LET S == {a \in x.c[s].map : x.n[a].k = k} IN IF S = {} THEN 0 ELSE Least(S)
Old(x, a) == ITtl >= 0 /\ x.now - x.n[a].t > ITtl
LaIs(x, s, k) == x.c[s].la # 0 /\ x.n[x.c[s].la].k = k
Touch(x, s, a) == [x EXCEPT !.c[s].la = a]

\* ---------------------------------------------------------------- lookups
\* find(): the search and the reordering
ISearch(x, s, k) ==
  LET a == Find(x, s, k)
  IN IF a = 0 \/ Old(x, a) THEN [hit |-> FALSE, v |-> 0, m |-> x]
     ELSE [hit |-> TRUE, v |-> x.n[a].v, m |-> Touch(MoveToFront(x, s, x.n[a].o), s, a)]
\* contains() and lookup(): the last accessed entry first
IAccess(x, s, k) ==
  IF LaIs(x, s, k)
  THEN LET a == x.c[s].la
       IN IF Old(x, a) /\ Slip # "shortcut" THEN [hit |-> FALSE, v |-> 0, m |-> x]
          ELSE [hit |-> TRUE, v |-> x.n[a].v, m |-> x]
  ELSE ISearch(x, s, k)

\* ---------------------------------------------------------------- removal
EraseNode(x, s, a) ==
  LET y == IF x.c[s].la = a /\ Slip # "erase" THEN [x EXCEPT !.c[s].la = 0] ELSE x
      z == Unlink(y, s, y.n[a].o)
  IN [z EXCEPT !.l[x.n[a].o] = FreeLink, !.n[a] = FreeNode, !.c[s].map = @ \ {a}]
EraseLru(x, s) == EraseNode(x, s, x.l[x.c[s].first].n)
RECURSIVE ShrinkTo(_, _, _)
ShrinkTo(x, s, n) == IF Cardinality(x.c[s].map) <= n THEN x ELSE ShrinkTo(EraseLru(x, s), s, n)
IClear(x, s) ==
  [x EXCEPT !.n = [a \in Cells |-> IF a \in x.c[s].map THEN FreeNode ELSE @[a]],
            !.l = [a \in Cells |-> IF a \in Range(Links(x, s)) THEN FreeLink ELSE @[a]],
            !.c[s].map = {}, !.c[s].first = 0, !.c[s].last = 0,
            !.c[s].la = IF Slip = "clear" THEN @ ELSE 0]
RECURSIVE DropOld(_, _, _)
DropOld(x, s, todo) ==
  IF todo = <<>> THEN x
  ELSE LET a == x.l[Head(todo)].n
       IN DropOld(IF Old(x, a) THEN EraseNode(x, s, a) ELSE x, s, Tail(todo))

\* ---------------------------------------------------------------- insertion
IInsert(x, s, k, v) ==
  LET a == Find(x, s, k)
  IN IF x.c[s].cap = 0 THEN [n |-> 0, m |-> x]
     ELSE IF a # 0
     THEN LET y == [x EXCEPT !.n[a].v = v, !.n[a].t = IF Old(x, a) THEN x.now ELSE @]
          IN [n |-> 0, m |-> Touch(MoveToFront(y, s, y.n[a].o), s, a)]
     ELSE LET b == NewNode(x)
              y == [x EXCEPT !.n[b] = [on |-> TRUE, k |-> k, v |-> v, t |-> x.now, o |-> 0],
                             !.c[s].map = @ \cup {b}]
          IN IF Cardinality(y.c[s].map) > y.c[s].cap
             THEN \* the evicted entry's link is used again for the new one
                  LET f == y.c[s].first
                      g == y.l[f].n
                      z == [y EXCEPT !.n[g] = FreeNode, !.c[s].map = @ \ {g}, !.l[f].n = b,
                                     !.n[b].o = f]
                  IN [n |-> 1, m |-> Touch(IF Slip = "evict" THEN z ELSE LinkLast(Unlink(z, s, f), s, f), s, b)]
             ELSE LET f == NewLink(y)
                      z == [y EXCEPT !.l[f] = [on |-> TRUE, n |-> b, p |-> 0, s |-> 0], !.n[b].o = f]
                  IN [n |-> 1, m |-> Touch(LinkLast(z, s, f), s, b)]

\* ---------------------------------------------------------------- whole caches
\* Fresh nodes for the entries of s, then pointers redirected (_reassign_references).
RECURSIVE CopyLinks(_, _, _)
CopyLinks(x, d, todo) ==
  IF todo = <<>> THEN x
  ELSE LET old == x.n[x.l[Head(todo)].n]
           b == NewNode(x)
           f == NewLink(x)
           y == [x EXCEPT !.n[b] = [old EXCEPT !.o = f],
                          !.l[f] = [on |-> TRUE, n |-> b, p |-> 0, s |-> 0],
                          !.c[d].map = @ \cup {b}]
       IN CopyLinks(LinkLast(y, d, f), d, Tail(todo))
ICopy(x, d, s) ==
  LET empty == IClear([x EXCEPT !.c[d].on = TRUE], d)
      y == IF d = s THEN x ELSE CopyLinks(empty, d, Links(x, s))
  IN IF d = s THEN x
     ELSE [y EXCEPT !.c[d].cap = x.c[s].cap,
                    !.c[d].la = IF Slip = "copy" THEN x.c[s].la ELSE 0]
ISwap(x, d, s) == [x EXCEPT !.c[d] = x.c[s], !.c[s] = x.c[d]]

\* ---------------------------------------------------------------- meaning
\* The entries of a cache, most recently used first, as LRUCore has them.
Entries(x, s) ==
  LET ls == Reverse(Links(x, s))
  IN [i \in DOMAIN ls |-> LET q == x.n[x.l[ls[i]].n] IN [k |-> q.k, rk |-> q.k, v |-> q.v, t |-> q.t]]
AbsWorld(x) ==
  [World(ISlots, {}, 1) EXCEPT
     !.now = x.now,
     !.cs = [s \in ISlots |-> IF x.c[s].on
               THEN [NoCache EXCEPT !.on = TRUE, !.cap = x.c[s].cap, !.ttl = ITtl, !.es = Entries(x, s)]
               ELSE NoCache]]

\* ---------------------------------------------------------------- steps
Ev(op, a) == [op |-> op, a |-> a \o [j \in 1..(5 - Len(a)) |-> 0], l |-> <<>>]
Say(op, a, x, n, y) == m' = y /\ ie' = [e |-> Ev(op, a), x |-> x, n |-> n]

IOn == {s \in ISlots : m.c[s].on}
INew == \E s \in ISlots \ IOn, n \in ICaps :
  Say("new", <<s, 0, n, ITtl, 0>>, "", 1, [m EXCEPT !.c[s] = [NoI EXCEPT !.on = TRUE, !.cap = n]])
IIns == \E s \in IOn, k \in IKeys, v \in IVals :
  LET r == IInsert(m, s, k, v) IN Say("ins", <<s, k, v, 5>>, "", r.n, r.m)
IFind == \E s \in IOn, k \in IKeys :
  LET r == ISearch(m, s, k) IN Say("acc", <<s, k, 0>>, "", B(r.hit), r.m)
IContains == \E s \in IOn, k \in IKeys :
  LET r == IAccess(m, s, k) IN Say("acc", <<s, k, 2>>, "", B(r.hit), r.m)
\* writing through what lookup() returns
IWrite == \E s \in IOn, k \in IKeys, v \in IVals :
  LET r == IAccess(m, s, k)
  IN r.hit /\ Say("wr", <<s, k, v, 0>>, "", 1, [r.m EXCEPT !.n[Find(r.m, s, k)].v = v])
IErase == \E s \in IOn, k \in IKeys :
  LET a == IF LaIs(m, s, k) THEN m.c[s].la ELSE Find(m, s, k)
  IN Say("era", <<s, k>>, "", B(a # 0), IF a = 0 THEN m ELSE EraseNode(m, s, a))
IClr == \E s \in IOn : Say("clr", <<s>>, "", 0, IClear(m, s))
IShr == \E s \in IOn, n \in ICaps :
  Say("shr", <<s, n>>, "", 0, IF n >= Cardinality(m.c[s].map) THEN m
                              ELSE IF n = 0 THEN IClear(m, s) ELSE ShrinkTo(m, s, n))
ICap == \E s \in IOn, n \in ICaps :
  Say("cap", <<s, n>>, "", 0, [ShrinkTo(m, s, n) EXCEPT !.c[s].cap = n])
ICpy == \E d \in ISlots, s \in IOn : (d # s \/ d \in IOn) /\
  Say("copy", <<d, s, IF d \in IOn THEN 10 ELSE 0>>, "", 0, ICopy(m, d, s))
ISwp == \E d, s \in IOn : Say("swap", <<d, s>>, "", 0, ISwap(m, d, s))
IDel == \E s \in IOn : Say("del", <<s>>, "", 0, [IClear(m, s) EXCEPT !.c[s] = NoI])
IExp == ITtl >= 0 /\ \E s \in IOn :
  LET y == DropOld(m, s, Links(m, s))
  IN Say("exp", <<s, 0>>, "", Cardinality(m.c[s].map) - Cardinality(y.c[s].map), y)
ITick == m.now < IMaxNow /\ Say("tick", <<1>>, "", 0, [m EXCEPT !.now = @ + 1])

IInit == /\ m = [n |-> [a \in Cells |-> FreeNode], l |-> [a \in Cells |-> FreeLink],
                 c |-> [s \in ISlots |-> NoI], now |-> 0]
         /\ ie = [e |-> Ev("nop", <<>>), x |-> "", n |-> 0]
Act(op, A) == op \in IOps /\ A
INext == \/ Act("new", INew) \/ Act("ins", IIns) \/ Act("acc", IFind) \/ Act("acc", IContains)
         \/ Act("wr", IWrite) \/ Act("era", IErase) \/ Act("clr", IClr) \/ Act("shr", IShr)
         \/ Act("cap", ICap) \/ Act("copy", ICpy) \/ Act("swap", ISwp) \/ Act("del", IDel)
         \/ Act("exp", IExp) \/ Act("tick", ITick)
IView == m
ISpec == IInit /\ [][INext]_ivars

\* ---------------------------------------------------------------- properties
Sound ==
  /\ \A s \in ISlots :
       LET c == m.c[s]
           ls == Links(m, s)
       IN /\ \A i \in DOMAIN ls : m.l[ls[i]].on
          /\ Back(m, c.last) = Reverse(ls)
          /\ {m.l[ls[i]].n : i \in DOMAIN ls} = c.map
          /\ Len(ls) = Cardinality(c.map) /\ Len(ls) <= c.cap
          /\ \A a \in c.map : m.n[a].on /\ m.l[m.n[a].o].n = a
          /\ Cardinality({m.n[a].k : a \in c.map}) = Cardinality(c.map)
          /\ c.la # 0 => c.la \in c.map
          /\ \A d \in ISlots \ {s} : c.map \cap m.c[d].map = {}
  /\ {a \in Cells : m.n[a].on} = UNION {m.c[s].map : s \in ISlots}
  /\ Cardinality({a \in Cells : m.l[a].on}) = Cardinality({a \in Cells : m.n[a].on})
Shortcut == \A s \in ISlots : m.c[s].la # 0 => m.n[m.c[s].la].o = m.c[s].last

Refines ==
  [][\E o \in Step(AbsWorld(m), ie'.e) :
       o.x = ie'.x /\ o.n = ie'.n /\ o.w = AbsWorld(m')]_ivars

Stable ==   \* iterators of both sorts and references to values stay good
  [][ie'.e.op \notin {"copy", "swap", "del", "new"} =>
       \A s \in ISlots : \A a \in m.c[s].map :
         LET b == Find(m', s, m.n[a].k)
         IN b # 0 => b = a /\ m'.n[a].o = m.n[a].o]_ivars
=============================================================================
