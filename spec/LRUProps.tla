------------------------------ MODULE LRUProps ------------------------------
(***************************************************************************)
(* The properties, stated declaratively over one step: w is the world      *)
(* before, e the operation, o the outcome [x, n, r, f, w].  The same        *)
(* formulas are checked twice: on every transition of the specification    *)
(* (LRU.tla), and on every step recorded from the real code (Trace.tla).   *)
(* They are written independently of Step in LRUCore: they say what must   *)
(* be true of an outcome, not how to compute it.                           *)
(***************************************************************************)
EXTENDS LRUCore

AccOps == {"acc", "acn", "wr"}
InsOps == {"ins", "insr"}
RemOps == {"era", "erai", "clr", "shr", "cap", "hera"}
MakeOps == {"new", "asg"}
MoveOps == {"move", "swap"}
StatOps == {"mon", "stp", "sta", "sop"}
HandOps == {"hget", "hmov", "hder", "hwr", "hval", "hera", "hcnv", "heq", "hswp"}

Access0(w, e) ==   \* e is access: by lookup, by writing through one, by a handle from find
  \/ e.op \in {"acc", "acn"}
  \/ e.op = "wr" /\ e.a[4] \in 0..3
  \/ e.op = "hget" /\ e.a[4] = 2
Times(e) == IF e.op = "acn" THEN e.a[4] ELSE 1   \* how often
AccSlot(e) == IF e.op = "hget" THEN e.a[2] ELSE e.a[1]
AccKey(e) == IF e.op = "hget" THEN e.a[5] ELSE e.a[2]

\* Operations that only look.
Observer(e) ==
  \/ e.op \in {"nop", "sysj", "fro", "eq", "sta", "hder", "hmov", "hval", "hcnv", "heq", "hswp"}
  \/ e.op = "sop" /\ e.a[2] \in 5..10
  \/ e.op = "exp" /\ e.a[2] # 0
  \/ e.op = "hget" /\ e.a[4] # 2

\* ------------------------------------------------------------------ vocabulary
Classes(c) == {c.es[i].k : i \in DOMAIN c.es}
ValueOf(c, k) == c.es[PosOf(c.es, k)].v
SameValues(c, d, S) == \A k \in S : ValueOf(c, k) = ValueOf(d, k)
InOrder(c, S) == LET es == SelectSeq(c.es, LAMBDA e : e.k \in S) IN [i \in DOMAIN es |-> es[i].k]
SameOrder(c, d, S) == InOrder(c, S) = InOrder(d, S)
SameAges(c, d, S) == \A k \in S : c.es[PosOf(c.es, k)].t = d.es[PosOf(d.es, k)].t
SameEntries(c, d) == Classes(c) = Classes(d) /\ RawKeys(c) = RawKeys(d) /\ SameValues(c, d, Classes(c))
Untouched(c, d) == c.es = d.es /\ c.cap = d.cap
OthersUntouched(w, o, S) == \A s \in DOMAIN w.cs \ S : Untouched(w.cs[s], o.w.cs[s])
NoDuplicates(c) == Cardinality(Classes(c)) = Len(c.es)
WellFormed(w) == \A s \in DOMAIN w.cs : LET c == w.cs[s] IN
                   /\ NoDuplicates(c) /\ Len(c.es) <= c.cap /\ (~c.on => c.es = <<>>)
Touched(e) ==   \* slots an operation may change
  CASE e.op \in {"copy", "del"} -> {e.a[1]}
    [] e.op \in MoveOps -> {e.a[1], e.a[2]}
    [] e.op = "hget" -> {e.a[2]}
    [] e.op \in {"eq", "tick", "sysj", "nop", "sop"} -> {}
    [] OTHER -> {e.a[1]}
HSlot(w, e) == w.hs[e.a[1]].c

\* ------------------------------------------------------------------ C01 .. C08
P01(w, e, o) ==
  /\ Access0(w, e) =>
       LET c == w.cs[AccSlot(e)]
           k == Canon(c, AccKey(e))
           d == o.w.cs[AccSlot(e)]
           found == k \in Classes(c) /\ ~ExpiredAt(w, c, PosOf(c.es, k))
       IN /\ (o.x # "Fault" /\ e.op \in {"acc", "acn"}) => ((o.n = 1 /\ o.x = "") = found)
          /\ o.x = "" /\ found /\ e.op \in {"acc", "acn"} /\ e.a[3] \in {0, 1, 4, 5, 6, 7} => o.r[1] = ValueOf(c, k)
          /\ Classes(c) = Classes(d) /\ RawKeys(c) = RawKeys(d)
          /\ SameValues(c, d, Classes(c) \ (IF e.op = "wr" THEN {k} ELSE {}))
          /\ e.op = "wr" /\ found /\ o.x = "" => ValueOf(d, k) = e.a[3]
  /\ e.op = "ins" /\ o.x = "" /\ w.cs[e.a[1]].cap > 0 =>
       LET d == o.w.cs[e.a[1]]
           k == Canon(d, e.a[2])
       IN k \in Classes(d) /\ ValueOf(d, k) = e.a[3]

P02(w, e, o) ==
  /\ \A s \in DOMAIN o.w.cs : Len(o.w.cs[s].es) <= o.w.cs[s].cap
  /\ e.op \notin {"cap", "new", "asg", "copy", "move", "swap", "del"} =>
       \A s \in DOMAIN w.cs : o.w.cs[s].cap = w.cs[s].cap
  /\ e.op = "cap" /\ o.x = "" => o.w.cs[e.a[1]].cap = e.a[2]
  /\ e.op = "new" /\ e.a[2] = 1 => o.w.cs[e.a[1]].cap = 128

P03(w, e, o) ==
  e.op = "ins" /\ o.x = "" =>
    LET c == w.cs[e.a[1]]
        d == o.w.cs[e.a[1]]
        k == Canon(c, e.a[2])
        gone == Classes(c) \ Classes(d)
        stay == Classes(c) \ (gone \cup {k})
    IN /\ IF c.cap > 0 /\ k \notin Classes(c) /\ Len(c.es) = c.cap
          THEN gone = {c.es[Len(c.es)].k}      \* the least recently used one
          ELSE gone = {}
       /\ SameValues(c, d, stay) /\ SameOrder(c, d, stay)
       /\ Classes(d) \subseteq Classes(c) \cup {k}

\* Which key, if any, an operation makes the most recent in which cache.
Used(w, e, o) ==
  CASE Access0(w, e) -> IF Usable(w, w.cs[AccSlot(e)], AccKey(e))
                        THEN {Canon(w.cs[AccSlot(e)], AccKey(e))} ELSE {}
    [] e.op = "ins" /\ o.w.cs[e.a[1]].cap > 0 -> {Canon(w.cs[e.a[1]], e.a[2])}
    [] OTHER -> {}
P04(w, e, o) ==
  o.x # "Fault" /\ e.op \notin {"copy", "new", "asg", "move", "swap", "del", "insr"} =>
    \A s \in DOMAIN w.cs :
      LET c == w.cs[s]
          d == o.w.cs[s]
          u == IF s = AccSlot(e) THEN Used(w, e, o) ELSE {}
          common == (Classes(c) \cap Classes(d)) \ u
      IN /\ SameOrder(c, d, common)
         /\ \A k \in u : d.es[1].k = k

P05(w, e, o) ==
  e.op \in RemOps =>
    LET s == IF e.op = "hera" THEN HSlot(w, e) ELSE e.a[1]
        c == w.cs[s]
        d == o.w.cs[s]
        k == CASE e.op = "era" -> Canon(c, e.a[2])
               [] e.op = "erai" -> Canon(c, e.a[2])
               [] e.op = "hera" -> Canon(c, w.hs[e.a[1]].k)
               [] OTHER -> 0
        atEnd == (e.op = "erai" /\ e.a[2] = 0) \/ (e.op = "hera" /\ w.hs[e.a[1]].k = 0)
        left == CASE e.op \in {"shr", "cap"} -> {c.es[i].k : i \in 1..Min(Len(c.es), e.a[2])}
                  [] e.op = "clr" -> {}
                  [] atEnd -> Classes(c)
                  [] OTHER -> Classes(c) \ {k}
    IN o.x # "Fault" =>
       /\ Classes(d) = left
       /\ SameValues(c, d, left) /\ SameOrder(c, d, left) /\ SameAges(c, d, left)
       /\ e.op = "era" => o.n = B(k \in Classes(c))
       /\ (o.x = "InvalidIterator") = atEnd
       /\ e.op # "cap" => d.cap = c.cap
       /\ OthersUntouched(w, o, {s})

P06(w, e, o) ==
  /\ e.op = "ins" /\ o.x = "" =>
       LET c == w.cs[e.a[1]]
           d == o.w.cs[e.a[1]]
           k == Canon(c, e.a[2])
           i == PosOf(c.es, k)
       IN IF c.cap = 0 THEN /\ o.n = 0 /\ d.es = <<>>
                            /\ e.a[4] # 5 => o.r = <<0, 0, 1, 1>>
          ELSE /\ i = 0 => o.n = 1
               /\ i # 0 /\ ~ExpiredAt(w, c, i) => o.n = 0
               /\ k \in Classes(d) /\ ValueOf(d, k) = e.a[3]
               /\ e.a[4] # 5 => o.r = <<d.es[PosOf(d.es, k)].rk, e.a[3], 1, 1>>
  /\ e.op = "insr" /\ o.x = "" =>
       \E q \in InsertedAll(w, e.a[1], e.l, 0) :
         /\ q.n = o.n
         /\ SameEntries(q.w.cs[e.a[1]], o.w.cs[e.a[1]])
         /\ q.w.cs[e.a[1]].cap = o.w.cs[e.a[1]].cap

P07(w, e, o) ==
  Observer(e) =>
    /\ o.f = <<>>
    /\ o.w.st = w.st
    /\ \A s \in DOMAIN w.cs :
         LET c == w.cs[s]
             d == o.w.cs[s]
         IN /\ c.es = d.es /\ c.cap = d.cap /\ c.mon = d.mon /\ c.fid = d.fid
            /\ c.hc = d.hc /\ c.mc = d.mc /\ c.ac = d.ac

P08(w, e, o) == WellFormed(o.w)

\* ------------------------------------------------------------------ C09 .. C13
P09(w, e, o) ==
  /\ e.op = "hder" =>
       LET x == w.hs[e.a[1]]
           c == w.cs[x.c]
           i == RawPos(c, x.k)
       IN o.x = "" =>
          /\ x.k # 0
          /\ e.a[2] \in {0, 1, 4} => o.r = <<x.k, c.es[i].v>>
          /\ e.a[2] \in {5, 6} => o.r = <<x.k, c.es[i].v, 1>>
          /\ e.a[2] = 2 => o.r = <<x.k>>
          /\ e.a[2] = 3 => o.r = <<c.es[i].v>>
  /\ e.op = "hval" /\ e.a[2] = 0 /\ o.x # "Fault" =>
       LET x == w.hs[e.a[1]]
       IN (o.n = 1) = (x.k # 0 /\ ~ExpiredAt(w, w.cs[x.c], RawPos(w.cs[x.c], x.k)))
  /\ e.op = "heq" /\ o.x # "Fault" => o.r[1] = B(<<w.hs[e.a[1]].c, w.hs[e.a[1]].k>> = <<w.hs[e.a[2]].c, w.hs[e.a[2]].k>>)
                     /\ o.r[2] = 1 - o.r[1]
                     /\ o.r[3] = o.r[1] /\ o.r[4] = o.r[2]
  /\ e.op = "hcnv" /\ o.x = "" => o.n = w.hs[e.a[1]].k
  /\ e.op = "hswp" => /\ o.w.hs[e.a[1]] = w.hs[e.a[2]] /\ o.w.hs[e.a[2]] = w.hs[e.a[1]]
                      /\ o.r = <<w.hs[e.a[2]].k, w.hs[e.a[1]].k>>
  /\ e.op = "hmov" /\ Ordered(w.hs[e.a[1]].kd) /\ o.x = "" =>
       LET x == w.hs[e.a[1]]
           c == w.cs[x.c]
           p(k) == IF k = 0 THEN Len(c.es) + 1 ELSE Len(c.es) + 1 - RawPos(c, k)
       IN p(o.n) = p(x.k) + (IF e.a[2] \in {0, 1} THEN 1 ELSE -1)
  /\ e.op = "hwr" /\ o.x = "" =>
       LET x == w.hs[e.a[1]] IN o.w.cs[x.c].es[RawPos(o.w.cs[x.c], x.k)].v = e.a[2]
  /\ e.op \in HandOps /\ o.x # "" => \A s \in DOMAIN w.cs : w.cs[s] = o.w.cs[s]

Alike(w, c, w2, d) ==
  /\ KVs(c) = KVs(d) /\ c.cap = d.cap /\ c.fid = d.fid /\ c.ttl = d.ttl
  /\ c.ttl >= 0 => \A i \in DOMAIN c.es : c.es[i].t = d.es[i].t
SameWatchers(c, d) == c.mon = d.mon /\ c.hc = d.hc /\ c.mc = d.mc /\ c.ac = d.ac
P10(w, e, o) ==
  /\ e.op = "copy" /\ o.x = "" =>
       /\ Alike(w, w.cs[e.a[2]], o.w, o.w.cs[e.a[1]])
       /\ Alike(w, w.cs[e.a[2]], o.w, o.w.cs[e.a[2]])
  /\ e.op \notin HandOps =>
       /\ OthersUntouched(w, o, Touched(e))
       /\ \A s \in DOMAIN w.cs \ Touched(e) : SameWatchers(w.cs[s], o.w.cs[s])

P11(w, e, o) ==
  /\ e.op = "move" /\ o.x = "" => Alike(w, w.cs[e.a[2]], o.w, o.w.cs[e.a[1]])
  /\ e.op = "swap" /\ o.x = "" => /\ Alike(w, w.cs[e.a[2]], o.w, o.w.cs[e.a[1]])
                                  /\ Alike(w, w.cs[e.a[1]], o.w, o.w.cs[e.a[2]])
  /\ e.op \in MoveOps => WellFormed(o.w)

P12(w, e, o) ==
  e.op = "eq" /\ o.x = "" /\ SameKeys(w.cs[e.a[1]], w.cs[e.a[2]]) =>
    LET c == w.cs[e.a[1]]
        d == w.cs[e.a[2]]
    IN /\ KVs(c) # KVs(d) => o.r = <<0, 1, 0, 1>>
       /\ KVs(c) = KVs(d) /\ (c.ttl < 0 \/ c.es = d.es) => o.r = <<1, 0, 1, 0>>
       /\ o.r[3] = o.r[1] /\ o.r[2] = 1 - o.r[1] /\ o.r[4] = 1 - o.r[3]

\* The last n distinct keys of a list, newest first: what a cache filled with it holds.
RECURSIVE Tail0(_, _)
Newest(l, fid) == LET cls(k) == IF fid = 7 THEN k \div 10 ELSE k
                  IN [i \in DOMAIN l |-> cls(l[Len(l) + 1 - i][1])]
Tail0(s, seen) == IF s = <<>> THEN seen
                  ELSE Tail0(Tail(s), IF Head(s) \in Range(seen) THEN seen ELSE Append(seen, Head(s)))
P13(w, e, o) ==
  e.op \in MakeOps /\ o.x = "" =>
    LET d == o.w.cs[e.a[1]]
        n == Len(e.l)
        keys == Tail0(Newest(e.l, d.fid), <<>>)
    IN /\ d.on /\ o.n = 1
       /\ (e.op # "new" \/ e.a[2] \notin {0, 1}) =>
            \* one by one, a key may have been evicted between two of its insertions, but
            \* what is left are the most recently inserted keys in that order
            [i \in DOMAIN d.es |-> d.es[i].k] = Keep(keys, d.cap)
       /\ e.op = "asg" => d.cap = Max(w.cs[e.a[1]].cap, n)
       /\ e.op = "new" => d.cap = CASE e.a[2] \in {0, 2, 4, 6, 9, 11, 12, 15, 17, 19, 20, 23} -> e.a[3]
                                    [] e.a[2] = 1 -> 128
                                    [] e.a[2] \in {7, 8, 21, 24} -> n
                                    [] OTHER -> Max(128, n)

\* ------------------------------------------------------------------ C14 .. C17
Monitored(w, e) == IF Access0(w, e) THEN w.cs[AccSlot(e)].mon ELSE 0
P14(w, e, o) ==
  /\ \A s \in DOMAIN o.w.st : o.w.st[s].hit <= o.w.st[s].acc
  /\ Len(o.w.st) >= Len(w.st)
  /\ \A s \in DOMAIN w.st :
       LET hit == IF Access0(w, e) THEN Usable(w, w.cs[AccSlot(e)], AccKey(e)) ELSE FALSE
           counts == Monitored(w, e) = s
       IN /\ o.w.st[s].acc = w.st[s].acc + Times(e) * B(counts)
          /\ o.w.st[s].hit = w.st[s].hit + Times(e) * B(counts /\ hit)
  /\ \A s \in DOMAIN o.w.st \ DOMAIN w.st :   \* counting starts from nothing, or from what was copied
       LET copied == e.op = "mon" /\ e.a[2] >= 12
       IN /\ o.w.st[s].acc = IF copied THEN w.st[e.a[3]].acc ELSE 0
          /\ o.w.st[s].hit = IF copied THEN w.st[e.a[3]].hit ELSE 0

P15(w, e, o) ==
  /\ \A s \in DOMAIN w.st :
       LET hit == IF Access0(w, e) THEN Usable(w, w.cs[AccSlot(e)], AccKey(e)) ELSE FALSE
           on == e.op = "sop" /\ e.a[1] = s
           what == e.a[2]
           old == w.st[s].km
           new == o.w.st[s].km
           names(k) == what \in {2, 4} \/ k = e.a[3]
       IN IF on /\ o.x = ""
          THEN /\ DOMAIN new = CASE what = 0 -> DOMAIN old \cup {e.a[3]}
                                 [] what = 1 -> DOMAIN old \ {e.a[3]}
                                 [] what = 2 -> {}
                                 [] OTHER -> DOMAIN old
               /\ \A k \in DOMAIN new :
                    IF k \notin DOMAIN old \/ (what \in {3, 4} /\ names(k))
                    THEN new[k].h = 0 /\ new[k].m = 0
                    ELSE new[k] = old[k]
          ELSE /\ DOMAIN new = DOMAIN old
               /\ \A k \in DOMAIN new :
                    LET some == IF Monitored(w, e) = s
                                THEN Spellings(w.cs[AccSlot(e)], AccKey(e)) ELSE {}
                        counts == k \in some
                    IN \/ Cardinality(some) > 1 /\ new[k] = old[k]   \* another spelling counted
                       \/ /\ new[k].h = old[k].h + Times(e) * B(counts /\ hit)
                          /\ new[k].m = old[k].m + Times(e) * B(counts /\ ~hit)
  /\ e.op = "sop" /\ o.x # "Fault" =>
       LET mine == e.a[3] \in DOMAIN w.st[e.a[1]].km
           q == w.st[e.a[1]].km[e.a[3]]
       IN /\ (o.x = "UnmonitoredKey") = (e.a[2] \in {1, 3, 5, 6, 7, 8, 9} /\ ~mine)
          /\ o.x = "" /\ e.a[2] = 5 => o.n = q.h
          /\ o.x = "" /\ e.a[2] = 6 => o.n = q.m
          /\ o.x = "" /\ e.a[2] = 7 => o.n = q.h + q.m
          /\ o.x = "" /\ e.a[2] \in {8, 9} => o.r = <<q.h, q.m, q.h + q.m>>
          /\ e.a[2] = 10 => o.n = B(mine)

P16(w, e, o) ==
  /\ e.op = "mon" /\ o.x = "" =>
       LET d == o.w.cs[e.a[1]] IN
       CASE e.a[2] \in {7, 8} -> d.mon = e.a[3] /\ o.w.st = w.st
         [] e.a[2] = 11 -> d.mon = 0
         [] e.a[2] >= 12 -> d.mon = Len(w.st) + 1 /\ o.w.st = Append(w.st, w.st[e.a[3]])
         [] OTHER -> /\ d.mon = Len(w.st) + 1 /\ Len(o.w.st) = d.mon
                     /\ o.w.st[d.mon].acc = 0
                     /\ DOMAIN o.w.st[d.mon].km = {e.l[i][1] : i \in DOMAIN e.l}
  /\ e.op = "stp" /\ o.x = "" => o.w.cs[e.a[1]].mon = 0 /\ o.w.st = w.st
  /\ e.op = "sta" => IF w.cs[e.a[1]].mon = 0 THEN o.x = "NotMonitoring"
                     ELSE o.x = "" /\ o.r[2] = w.cs[e.a[1]].mon
  /\ e.op = "copy" /\ o.x = "" => o.w.cs[e.a[1]].mon = w.cs[e.a[2]].mon
  /\ \A s \in DOMAIN w.cs :
       s \notin Touched(e) \/ e.op \notin {"mon", "stp", "copy", "move", "swap", "new", "del"}
         => o.w.cs[s].mon = w.cs[s].mon

P17(w, e, o) ==
  IF ~Access0(w, e) THEN o.f = <<>>
  ELSE LET c == w.cs[AccSlot(e)]
           k == AccKey(e)
           hit == Usable(w, c, k)
           own == IF hit THEN c.hc ELSE c.mc
           n == Len(own)
           all == n + Len(c.ac)
       IN /\ Len(o.f) <= all
          /\ o.x # "Fault" => Len(o.f) = all
          /\ \A i \in DOMAIN o.f :
               \E q \in Spellings(c, k) :
                 IF i <= n
                 THEN o.f[i] = IF hit THEN <<own[i], 0, q, ValueOf(c, Canon(c, k))>>
                               ELSE <<own[i], 1, q, 0>>
                 ELSE o.f[i] = <<c.ac[i - n], 2, q, B(hit)>>

\* ------------------------------------------------------------------ C18 .. C20
P18(w, e, o) ==
  /\ e.op \in {"acc", "acn"} =>
       LET c == w.cs[e.a[1]]
           i == Pos(c, e.a[2])
           old == i # 0 /\ c.ttl >= 0 /\ (w.now - c.es[i].t) \div w.gran > c.ttl \div w.gran
       IN old => o.n = 0 /\ o.x \in {"", "KeyNotFound", "KeyExpired", "Fault"}
                 /\ (e.a[3] >= 4 => o.x # "")
  /\ e.op \notin {"new", "asg", "copy", "move", "swap", "del", "insr"} =>
       \A s \in DOMAIN w.cs :
         LET c == w.cs[s]
             d == o.w.cs[s]
             reborn == IF e.op = "ins" THEN {Canon(w.cs[e.a[1]], e.a[2])} ELSE {}
         IN SameAges(c, d, (Classes(c) \cap Classes(d)) \ reborn)
  /\ e.op = "ins" /\ o.x = "" =>
       LET c == w.cs[e.a[1]]
           i == Pos(c, e.a[2])
           d == o.w.cs[e.a[1]]
           j == Pos(d, e.a[2])
       IN IF i # 0 /\ ~ExpiredAt(w, c, i) THEN d.es[j].t = c.es[i].t
          ELSE d.cap = 0 \/ d.es[j].t = w.now
  /\ e.op = "exp" /\ e.a[2] \in 2..4 /\ o.x # "Fault" =>
       o.n = B(LET i == Pos(w.cs[e.a[1]], e.a[3]) IN i # 0 /\ ExpiredAt(w, w.cs[e.a[1]], i))
  /\ e.op = "sysj" => o.w = [w EXCEPT !.un = o.w.un]

P19(w, e, o) ==
  e.op = "ins" /\ o.x = "" =>
    LET c == w.cs[e.a[1]]
        i == Pos(c, e.a[2])
        d == o.w.cs[e.a[1]]
        j == Pos(d, e.a[2])
        rest == Classes(c) \ {Canon(c, e.a[2])}
    IN i # 0 /\ ExpiredAt(w, c, i) =>
         /\ j = 1 /\ d.es[j].v = e.a[3] /\ d.es[j].t = w.now /\ Usable(o.w, d, e.a[2])
         /\ Classes(d) = Classes(c) /\ NoDuplicates(d)
         /\ SameValues(c, d, rest) /\ SameOrder(c, d, rest) /\ SameAges(c, d, rest)

P20(w, e, o) ==
  e.op = "exp" /\ e.a[2] \in {0, 1} /\ o.x # "Fault" =>
    LET c == w.cs[e.a[1]]
        d == o.w.cs[e.a[1]]
        live == {c.es[i].k : i \in {j \in DOMAIN c.es : ~ExpiredAt(w, c, j)}}
    IN IF e.a[2] = 0
       THEN /\ Classes(d) = live /\ o.n = Cardinality(Classes(c)) - Cardinality(live)
            /\ SameValues(c, d, live) /\ SameOrder(c, d, live) /\ SameAges(c, d, live)
       ELSE o.n = B(live = {}) /\ d.es = c.es

\* ------------------------------------------------------------------ C23 .. C27
P23(w, e, o) ==
  /\ o.x \in {"KeyNotFound", "KeyExpired", "EmptyCache", "InvalidIterator", "NotMonitoring",
              "InvalidIteratorConversion", "UnmonitoredKey"} =>
       /\ \A s \in DOMAIN w.cs : SameEntries(w.cs[s], o.w.cs[s]) /\ w.cs[s].cap = o.w.cs[s].cap
                                 /\ SameOrder(w.cs[s], o.w.cs[s], Classes(w.cs[s]))
       /\ CASE e.op \in {"acc", "acn", "wr"} ->
                 LET i == Pos(w.cs[e.a[1]], e.a[2])
                 IN /\ ~Usable(w, w.cs[e.a[1]], e.a[2])
                    /\ o.x \in {"KeyNotFound"} \cup (IF i = 0 THEN {} ELSE {"KeyExpired"})
            [] e.op = "fro" -> o.x = "EmptyCache" /\ w.cs[e.a[1]].es = <<>>
            [] e.op = "erai" -> o.x = "InvalidIterator" /\ e.a[2] = 0
            [] e.op = "hera" -> o.x = "InvalidIterator" /\ w.hs[e.a[1]].k = 0
            [] e.op = "hcnv" -> o.x = "InvalidIteratorConversion" /\ w.hs[e.a[1]].k = 0
            [] e.op \in {"hder", "hwr", "hval"} ->
                 IF w.hs[e.a[1]].k = 0 THEN o.x = "InvalidIterator" ELSE o.x = "KeyExpired"
            [] e.op = "sta" -> o.x = "NotMonitoring"
            [] e.op = "sop" -> o.x = "UnmonitoredKey"
            [] OTHER -> FALSE
  /\ e.op \in {"acc", "acn"} /\ e.a[3] >= 4 /\ ~Usable(w, w.cs[e.a[1]], e.a[2]) => o.x # ""
  /\ e.op = "fro" /\ w.cs[e.a[1]].es = <<>> => o.x \in {"EmptyCache", "Fault"}

P24(w, e, o) == /\ WellFormed(o.w)
                /\ e.op = "ins" /\ o.x = "" =>
                     LET c == w.cs[e.a[1]]
                         i == Pos(c, e.a[2])
                         d == o.w.cs[e.a[1]]
                     IN i # 0 /\ ~ExpiredAt(w, c, i) => d.es[1].rk = c.es[i].rk
P25(w, e, o) == WellFormed(o.w)
P26(w, e, o) ==
  /\ WellFormed(o.w)
  /\ o.x = "Fault" =>
       /\ e.op \in {"ins", "acc", "hget", "hder", "hwr", "hval", "heq", "exp", "eq", "fro", "cb", "ccb",
                   "swap", "mon", "sop", "stp"} => \A s \in DOMAIN w.cs : SameEntries(w.cs[s], o.w.cs[s])
       /\ e.op \in {"mon", "sop", "stp", "cb", "ccb"} =>    \* as if it had not been called
            /\ o.w.st = w.st
            /\ \A s \in DOMAIN w.cs : SameWatchers(w.cs[s], o.w.cs[s])
       /\ e.op = "copy" => \A s \in DOMAIN w.cs :
            w.cs[s].on = o.w.cs[s].on /\ SameEntries(w.cs[s], o.w.cs[s])
       /\ e.op \in {"ins", "insr", "acc", "copy"} => \A s \in DOMAIN w.cs : w.cs[s].cap = o.w.cs[s].cap
P27(w, e, o) ==
  /\ e.op \in {"acc", "acn", "wr"} /\ o.x = "" /\ o.n = 1 /\ Len(o.r) >= 2 => o.r[2] = 1
  /\ e.op = "ins" /\ o.x = "" /\ Len(o.r) = 4 => o.r[3] = 1 /\ o.r[4] = 1

\* One access, one instant: what is reported, counted, called back and done to the
\* order all follow from the same decision whether the key was there and not expired.
P28(w, e, o) ==
  e.op = "acc" /\ o.x # "Fault" =>
    LET c == w.cs[e.a[1]]
        d == o.w.cs[e.a[1]]
        k == Canon(c, e.a[2])
        hit == o.n = 1
        kinds == {o.f[i][2] : i \in DOMAIN o.f}
        flags == {o.f[i][4] : i \in {j \in DOMAIN o.f : o.f[j][2] = 2}}
    IN /\ (o.x # "") => ~hit
       /\ hit => Usable(w, c, e.a[2]) /\ d.es[1].k = k
       /\ ~hit => ~Usable(w, c, e.a[2]) /\ c.es = d.es
       /\ \A s \in DOMAIN w.st : o.w.st[s].hit = w.st[s].hit + B(c.mon = s /\ hit)
       /\ (IF hit THEN 1 ELSE 0) \notin kinds
       /\ flags \subseteq {B(hit)}

\* Storage: entries whose value an operation may place elsewhere, so that references
\* to it are no longer good.  Everything else stays where it is.
Movable(w, e, s) ==
  LET c == w.cs[s] IN
  CASE e.op = "ins" /\ s = e.a[1] ->   \* revived
         LET i == Pos(c, e.a[2])
         IN IF i # 0 /\ ExpiredAt(w, c, i) THEN {c.es[i].rk, e.a[2]} ELSE {}
    [] e.op = "insr" /\ s = e.a[1] -> {e.l[i][1] : i \in DOMAIN e.l} \cup RawKeys(c)
    [] e.op \in {"asg", "new", "del"} /\ s = e.a[1] -> RawKeys(c) \cup {e.l[i][1] : i \in DOMAIN e.l}
    [] e.op = "copy" /\ s = e.a[1] -> RawKeys(w.cs[e.a[2]])
    [] e.op \in MoveOps /\ s \in {e.a[1], e.a[2]} -> RawKeys(w.cs[e.a[1]]) \cup RawKeys(w.cs[e.a[2]])
    [] OTHER -> {}

\* Cost: hashes, comparisons, copies and allocations an operation on one element may
\* take, however many there are, where keys spread well over the buckets; -1: any.
Cheap == 60
Cost(e) ==
  CASE e.op \in {"acc", "wr", "ins", "era", "erai", "hera"} -> Cheap
    [] e.op = "hget" /\ e.a[4] = 2 -> Cheap
    [] e.op = "acn" -> Cheap * e.a[4]
    [] e.op \in {"insr", "asg"} -> Cheap * (Len(e.l) + 1)
    [] OTHER -> -1

\* Hashes taken by a run of accesses to one key that is there: those of the first look
\* into the table.  (Statistics may hash, too; and
\* find may look again each time.)
AtOnce == 1
Remembered(w, e) ==
  /\ e.op = "acn" /\ e.a[3] >= 2 /\ e.a[4] >= 3
  /\ w.cs[e.a[1]].mon = 0 /\ Usable(w, w.cs[e.a[1]], e.a[2])

P(p, w, e, o) ==
  CASE p = "C01" -> P01(w, e, o) [] p = "C02" -> P02(w, e, o) [] p = "C03" -> P03(w, e, o)
    [] p = "C04" -> P04(w, e, o) [] p = "C05" -> P05(w, e, o) [] p = "C06" -> P06(w, e, o)
    [] p = "C07" -> P07(w, e, o) [] p = "C08" -> P08(w, e, o) [] p = "C09" -> P09(w, e, o)
    [] p = "C10" -> P10(w, e, o) [] p = "C11" -> P11(w, e, o) [] p = "C12" -> P12(w, e, o)
    [] p = "C13" -> P13(w, e, o) [] p = "C14" -> P14(w, e, o) [] p = "C15" -> P15(w, e, o)
    [] p = "C16" -> P16(w, e, o) [] p = "C17" -> P17(w, e, o) [] p = "C18" -> P18(w, e, o)
    [] p = "C19" -> P19(w, e, o) [] p = "C20" -> P20(w, e, o) [] p = "C23" -> P23(w, e, o)
    [] p = "C24" -> P24(w, e, o) [] p = "C25" -> P25(w, e, o) [] p = "C26" -> P26(w, e, o)
    [] p = "C27" -> P27(w, e, o) [] p = "C28" -> P28(w, e, o)
    [] p \in {"C29", "C30", "C31", "C32", "C33"} -> TRUE    \* of the implementation alone: see Trace.tla

AllProperties == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11",
                  "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C23", "C24",
                  "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C33"}
=============================================================================
