-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: is every recorded step of the real code a step of the *)
(* specification, as far as the property under check is concerned?         *)
(*                                                                         *)
(* TRACE names a file with one recorded history per line, PROP the         *)
(* property.  A step is judged by                                          *)
(*  - conformance: some outcome of Step agrees with the recording in the   *)
(*    facets the property governs (Gov), and                               *)
(*  - the property's own formula P from LRUProps, on the recorded step.    *)
(* Facets a property does not govern are taken over from the recording, so *)
(* that a defect is reported by the properties it violates only.           *)
(***************************************************************************)
EXTENDS LRUProps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

Slots == 1..3
Handles == 1..6

VARIABLES tr, i, w, due
vars == <<tr, i, w, due>>

Obj == Traces[tr].obj = 1
Timed == Traces[tr].timed = 1

\* ------------------------------------------------------------------ projection
ObsOf(e, s) == LET S == {j \in DOMAIN e.o : e.o[j].c = s} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE
ObsKeys(q) == {q.ord[j][1] : j \in DOMAIN q.ord}
ObsPos(q, rk) == LET S == {j \in DOMAIN q.ord : q.ord[j][1] = rk}
                 IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE

\* The world as recorded after e, with what cannot be seen (times of insertion,
\* identity of callbacks, times to live) taken from the world b of the outcome.
TimeOf(b, c, k) == LET j == PosOf(c.es, k) IN IF j = 0 THEN b.now ELSE c.es[j].t
ObsEntries(b, c, q) ==   \* ordered iteration goes from the least to the most recently used
  [j \in DOMAIN q.ord |->
     LET rk == q.ord[Len(q.ord) + 1 - j][1]
         k == IF Obj /\ q.fid = 7 THEN rk \div 10 ELSE rk
     IN [k |-> k, rk |-> rk, v |-> q.ord[Len(q.ord) + 1 - j][2], t |-> TimeOf(b, c, k)]]
Shorten(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
ObsCache(b, q) ==
  LET c == b.cs[q.c]
  IN [c EXCEPT !.on = TRUE, !.cap = q.cap, !.es = ObsEntries(b, c, q), !.mon = q.mon,
               !.hc = Shorten(@, q.hc), !.mc = Shorten(@, q.mc), !.ac = Shorten(@, q.ac),
               !.fid = IF Obj THEN q.fid ELSE @, !.uns = FALSE,
               !.ttl = IF ~Timed THEN -1 ELSE @]
ObsStats(q) ==
  [acc |-> q.acc, hit |-> q.hit,
   km |-> [k \in {q.ks[j][1] : j \in DOMAIN q.ks} |->
             LET j == CHOOSE j \in DOMAIN q.ks : q.ks[j][1] = k
             IN [h |-> q.ks[j][2], m |-> q.ks[j][3]]]]
Observed(b, e) ==
  IF e.ob = 0 THEN [b EXCEPT !.un = [s \in Slots |-> <<-1>>]]
  ELSE [b EXCEPT
          !.cs = [s \in Slots |-> LET j == ObsOf(e, s)
                                  IN IF j = 0 THEN NoCache ELSE ObsCache(b, e.o[j])],
          !.st = [s \in DOMAIN e.s |-> ObsStats(e.s[s])],
          !.un = [s \in Slots |-> LET j == ObsOf(e, s)
                                  IN IF j = 0 THEN <<>>
                                     ELSE [m \in DOMAIN e.o[j].un |-> e.o[j].un[m][1]]],
          !.hs = IF e.op \in {"hget", "hmov"} /\ e.x = "" THEN [@ EXCEPT ![e.a[1]].k = e.n]
                 ELSE IF e.op = "hcnv" /\ e.x = "" THEN [@ EXCEPT ![e.a[2]].k = e.n]
                 ELSE IF e.op = "hswp" /\ e.x = "" THEN [@ EXCEPT ![e.a[1]].k = e.r[1], ![e.a[2]].k = e.r[2]]
                 ELSE @]

\* ------------------------------------------------------------------ facets
\* Slots whose contents the outcome determines and that exist in it and in the recording.
Both(e, o) == {s \in Slots : o.w.cs[s].on /\ ~o.w.cs[s].uns /\ ObsOf(e, s) # 0}
Q(e, s) == e.o[ObsOf(e, s)]

StateFacet(name, e, o) ==
  CASE name = "slots" -> \A s \in Slots : o.w.cs[s].on = (ObsOf(e, s) # 0)
    [] name = "keys" -> \A s \in Both(e, o) : RawKeys(o.w.cs[s]) = ObsKeys(Q(e, s))
    [] name = "vals" -> \A s \in Both(e, o) : \A j \in DOMAIN Q(e, s).ord :
                          LET p == RawPos(o.w.cs[s], Q(e, s).ord[j][1])
                          IN p # 0 => o.w.cs[s].es[p].v = Q(e, s).ord[j][2]
    [] name = "order" -> \A s \in Both(e, o) :
                           LET q == Q(e, s)
                               es == o.w.cs[s].es
                               mine == SelectSeq(es, LAMBDA x : ObsPos(q, x.rk) # 0)
                               theirs == SelectSeq(Reverse(q.ord), LAMBDA x : RawPos(o.w.cs[s], x[1]) # 0)
                           IN [j \in DOMAIN mine |-> mine[j].rk] = [j \in DOMAIN theirs |-> theirs[j][1]]
    [] name = "cap" -> \A s \in Both(e, o) : o.w.cs[s].cap = Q(e, s).cap
    [] name = "fid" -> Obj => \A s \in Both(e, o) : o.w.cs[s].fid = Q(e, s).fid
    [] name = "mon" -> \A s \in Both(e, o) : /\ o.w.cs[s].mon = Q(e, s).mon
                                             /\ Q(e, s).im = B(Q(e, s).mon # 0)
    [] name = "cbn" -> \A s \in Both(e, o) :
                         /\ Len(o.w.cs[s].hc) = Q(e, s).hc
                         /\ Len(o.w.cs[s].mc) = Q(e, s).mc
                         /\ Len(o.w.cs[s].ac) = Q(e, s).ac
    [] name = "exp" -> Timed => \A s \in Both(e, o) : \A j \in DOMAIN Q(e, s).ord :
                         LET p == RawPos(o.w.cs[s], Q(e, s).ord[j][1])
                         IN p # 0 => B(ExpiredAt(o.w, o.w.cs[s], p)) = Q(e, s).ord[j][3]
    [] name = "stats" -> /\ Len(e.s) = Len(o.w.st)
                         /\ \A s \in DOMAIN e.s \cap DOMAIN o.w.st :
                              e.s[s].acc = o.w.st[s].acc /\ e.s[s].hit = o.w.st[s].hit
    [] name = "kst" -> \A s \in DOMAIN e.s \cap DOMAIN o.w.st : ObsStats(e.s[s]).km = o.w.st[s].km
    [] OTHER -> TRUE

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Stored(v) == Sum([s \in Slots |-> Len(v.cs[s].es)], Slots)
Tracked(v) == Sum([s \in DOMAIN v.st |-> Cardinality(DOMAIN v.st[s].km)], DOMAIN v.st)

Facet(name, e, o) ==
  CASE name = "x" -> e.x = o.x
    [] name = "n" -> e.n = o.n
    [] name = "r" -> e.r = o.r
    [] name = "f" -> e.f = o.f
    [] name = "live" -> (Obj /\ \A s \in Slots : ~o.w.cs[s].uns) =>
                          e.g = <<Stored(o.w) + Tracked(o.w), Stored(o.w), 0>>
    [] OTHER -> e.ob = 1 => StateFacet(name, e, o)

AllFacets == {"x", "n", "r", "f", "slots", "keys", "vals", "order", "cap", "fid", "mon", "cbn",
              "exp", "stats", "kst"}
Contents0 == {"slots", "keys", "vals", "order", "cap"}
Whole == Contents0 \cup {"x", "n", "r", "fid", "exp"}

\* ------------------------------------------------------------------ views
\* What must be true of any recording by itself.
ViewSize(q) == /\ q.size = Len(q.ord) /\ q.em = B(q.size = 0) /\ q.fu = B(q.size = q.cap)
               /\ q.le = q.cap - q.size /\ q.size <= q.cap
ViewIter(q) == LET oo == [j \in DOMAIN q.ord |-> <<q.ord[j][1], q.ord[j][2]>>]
               IN /\ q.size = Len(q.ord) /\ q.size = Len(q.un)
                  /\ Range(oo) = Range(q.un)
                  /\ Cardinality(Range(oo)) = Len(oo) /\ Cardinality(ObsKeys(q)) = Len(oo)
                  /\ q.rev = Reverse([j \in DOMAIN oo |-> oo[j][1]])
                  /\ q.ag = 1
ViewFront(q) == ~Timed /\ q.ord # <<>> => q.ba = q.ord[1][1] /\ q.fr = q.ord[Len(q.ord)][1]
ViewAllExpired(q) == Timed => q.ae = B(\A j \in DOMAIN q.ord : q.ord[j][3] = 1)
ViewStats(q) == q.acc = q.hit + q.mis /\ q.ra = 1
ViewKeyStats(q) == /\ q.nm = Len(q.ks) /\ q.ik = B(q.nm > 0)
                   /\ \A j \in DOMAIN q.ks : q.ks[j][4] = q.ks[j][2] + q.ks[j][3]
View0(p, e) ==
  e.ob = 1 =>
  CASE p = "C02" -> \A j \in DOMAIN e.o : ViewSize(e.o[j])
    [] p = "C04" -> \A j \in DOMAIN e.o : ViewFront(e.o[j])
    [] p = "C07" -> e.re = 1 /\ e.fo = 0
    [] p = "C08" -> \A j \in DOMAIN e.o : ViewIter(e.o[j])
    [] p = "C14" -> \A j \in DOMAIN e.s : ViewStats(e.s[j])
    [] p = "C15" -> \A j \in DOMAIN e.s : ViewKeyStats(e.s[j])
    [] p = "C20" -> \A j \in DOMAIN e.o : ViewAllExpired(e.o[j])
    [] p \in {"C10", "C11", "C19", "C24", "C26"} ->
         \A j \in DOMAIN e.o : ViewSize(e.o[j]) /\ ViewIter(e.o[j])
    [] OTHER -> TRUE

\* Views that depend on what was before.
ViewAfter(p, v, e) ==
  CASE p = "C29" -> Cost(e) < 0 \/ e.co <= Cost(e)
    [] p = "C31" -> Remembered(v, e) => e.hs <= AtOnce
    [] p = "C30" -> e.ob = 1 => \A s \in Slots : Range(e.mv[s]) \subseteq Movable(v, e, s)
    [] OTHER -> TRUE

View(p, e) == IF p = "ALL" THEN \A q \in AllProperties : View0(q, e) ELSE View0(p, e)

\* ------------------------------------------------------------------ governance
Expiring(v, e) ==
  e.op = "ins" /\ LET c == v.cs[e.a[1]]
                      p == Pos(c, e.a[2])
                  IN p # 0 /\ ExpiredAt(v, c, p)
Gov0(p, v, e) ==
  LET acc == Access0(v, e)
      in(S) == e.op \in S
      if(b, S) == IF b THEN S ELSE {}
  IN
  CASE p = "C01" -> if(acc, {"x", "n", "r", "keys"}) \cup {"vals"}
                    \cup if(~in(InsOps \cup MakeOps \cup MoveOps \cup RemOps \cup {"copy"}), {"keys"})
    [] p = "C02" -> {"cap"}
    [] p = "C03" -> if(in(InsOps), {"keys", "vals", "order", "cap"})
    [] p = "C04" -> {"order"} \cup if(in({"fro"}), {"x", "n"})
    [] p = "C05" -> if(in(RemOps), {"x", "n", "keys", "vals", "order", "cap", "exp"})
                    \cup if(acc \/ in({"ins"}), {"n"})
    [] p = "C06" -> if(in(InsOps), {"x", "n", "r", "cap"}) \cup if(in({"insr"}), {"keys", "vals"})
    [] p = "C07" -> if(Observer(e), {"slots", "keys", "vals", "order", "cap", "fid", "mon", "cbn",
                                      "exp", "stats", "kst", "f"})
    [] p = "C08" -> {"keys", "vals"}
                    \cup if(in({"hmov"}) \/ (in({"hget"}) /\ e.a[4] # 2), {"x", "n"})
    [] p = "C09" -> if(in(HandOps), {"x", "n", "r"}) \cup if(in({"hwr", "hera"}), {"keys", "vals", "order"})
    [] p = "C10" -> Whole \cup if(~in(MoveOps \cup {"copy"}), {"cbn", "mon", "f"})
    [] p = "C11" -> Whole
    [] p = "C12" -> if(in({"eq"}), {"x", "r", "keys", "vals", "order"})
    [] p = "C13" -> if(in(MakeOps), {"x", "n", "slots", "keys", "vals", "order", "cap"})
    [] p = "C14" -> {"stats"}
    [] p = "C15" -> {"kst"} \cup if(in({"sop"}), {"x", "n", "r", "stats"})
    [] p = "C16" -> if(~in(MoveOps), {"mon"}) \cup {"stats"} \cup if(in({"mon", "stp", "sta"}), {"x", "n", "r"})
    [] p = "C17" -> {"f"} \cup if(~in(MoveOps \cup {"copy"}), {"cbn"})
    [] p = "C18" -> {"exp"} \cup if(acc, {"x", "n"}) \cup if(in({"exp"}), {"n"})
                    \cup if(in({"hder", "hval", "hwr"}), {"x", "n"})
    [] p = "C19" -> {"exp"} \cup if(Expiring(v, e), {"x", "r", "keys", "vals", "order", "cap"})
                    \cup if(acc, {"x", "n"})
    [] p = "C20" -> {"exp"} \cup if(in({"exp"}), {"x", "n", "keys", "vals", "order", "cap"})
                    \cup if(in({"ins", "era", "erai", "shr", "cap", "clr"}), {"keys"})
    [] p = "C23" -> {"x"} \cup if(e.x # "", {"slots", "keys", "vals", "order", "cap", "fid"})
    [] p = "C24" -> Whole
    [] p = "C25" -> {"live"}
    [] p = "C26" -> IF e.x = "Fault"
                    THEN {"x", "slots", "keys", "vals", "cap"}
                         \cup if(in({"mon", "sop", "stp", "cb", "ccb"}), {"mon", "cbn", "stats", "kst"})
                    ELSE Whole \cup {"live"}
    [] p = "C28" -> if(acc, {"x", "n", "r", "f", "order", "stats", "kst", "keys", "vals"})
    [] p = "C29" -> {}
    [] p \in {"C30", "C31"} -> {}
    [] p \in {"C32", "C33"} -> AllFacets
    [] p = "C27" -> if(acc \/ in({"ins"}), {"x", "n", "r", "order", "stats", "kst", "f"})

Gov(p, v, e) == IF p = "ALL" THEN AllFacets \cup {"live"} ELSE Gov0(p, v, e)

\* What was not observed for a while is seen by the next observation, which is governed
\* by the property in what it governs in all operations since.
Since(d, v, e) ==
  CASE e.ob = 1 -> {"nothing"}
    [] e.op = "nop" -> d
    [] "nothing" \in d -> Gov(Prop, v, e)
    [] OTHER -> d \cap Gov(Prop, v, e)
Owed(d, e) == IF e.op = "nop" THEN d \cap Contents0 ELSE {}

\* ------------------------------------------------------------------ judgement
Outcomes(v, e) == Step(v, e) \cup (IF e.x = "Fault" THEN Faulted(v, e) ELSE {})
Recorded(o, e) == [x |-> e.x, n |-> e.n, r |-> e.r, f |-> e.f, w |-> Observed(o.w, e)]

Judge1(v, e) ==
  LET outs == Outcomes(v, e)
      gov == Gov(Prop, v, e) \cup Owed(due, e)
      full == {o \in outs : \A q \in AllFacets : Facet(q, e, o)}
      part == {o \in outs : \A q \in gov : Facet(q, e, o)}
      fine(o) == IF e.ob = 1 /\ outs # {}
                 THEN \A p \in (IF Prop = "ALL" THEN AllProperties ELSE {Prop}) : P(p, v, e, Recorded(o, e))
                 ELSE TRUE
      pick == IF full # {} THEN full ELSE part
      cand == IF pick = {} /\ outs = {} /\ (gov = {} \/ (e.op \in HandleOps /\ Prop # "C09"))
              THEN {Out(e.x, e.n, e.r, e.f, v)} ELSE pick
      good == {o \in cand : /\ fine(o)
                            /\ "live" \in gov => Facet("live", e, o)}
  IN IF ~View(Prop, e) \/ (Prop = "C26" /\ e.ff = 1 /\ e.x # "Fault") THEN {}
     ELSE {Observed(o.w, e) : o \in good}

Judge(v, e) ==
  IF ~(IF Prop = "ALL" THEN \A p \in AllProperties : ViewAfter(p, v, e) ELSE ViewAfter(Prop, v, e)) THEN {}
  ELSE UNION {{Later(v, e, [w |-> u]).w : u \in Judge1(b, e)} : b \in Instants(v, e)}

\* ------------------------------------------------------------------ behaviour
Init == /\ tr \in 1..Len(Traces)
        /\ i = 0
        /\ w = World(Slots, Handles, Traces[tr].gran)
        /\ due = {"nothing"}

Next == /\ i < Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[i + 1]
               S == Judge(w, e)
           IN /\ IF S = {} THEN PrintT(<<"REJECT", Traces[tr].id, i + 1>>) /\ FALSE ELSE TRUE
              /\ w' \in S
              /\ due' = Since(due, w, e)
        /\ i' = i + 1
        /\ tr' = tr
        /\ (i + 1 = Len(Traces[tr].ev)) => PrintT(<<"DONE", Traces[tr].id, i + 1>>)

Spec == Init /\ [][Next]_vars
=============================================================================
