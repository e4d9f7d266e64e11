----------------------------- MODULE BulkTrace -----------------------------
(***************************************************************************)
(* Validation of recordings of caches with many entries: see Bulk.tla and  *)
(* harness/bulk_driver.cpp.  As in Trace.tla, a property governs facets of *)
(* the operations it is about.  Where the others differ, what follows is   *)
(* no longer compared: it is for the properties that govern them.          *)
(***************************************************************************)
EXTENDS Bulk, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Slots == 1..4

VARIABLES tr, i, w
vars == <<tr, i, w>>

\* ------------------------------------------------------------------ recorded
Runs3(s) == [j \in DOMAIN s |-> Run(s[j][1], s[j][2], s[j][3], 0)]
Entries(q) == [j \in DOMAIN q.rs |-> Run(q.rs[j][1], q.rs[j][2], q.rs[j][3], q.rs[j][4])]
Kept(s) == [j \in DOMAIN s |-> [k |-> s[j][1], n |-> s[j][2], h |-> s[j][3], m |-> s[j][4]]]
Index(e, s) == LET S == {j \in DOMAIN e.o : e.o[j].c = s} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE
\* The runs of a cache, ages replaced by whether they have expired.
Seen(v, c) == [j \in DOMAIN c.rs |-> [c.rs[j] EXCEPT !.t = One(Dead(v.now, c, c.rs[j]))]]

InOrder(rs) == Norm([j \in DOMAIN rs |-> [rs[j] EXCEPT !.d = 0, !.t = 0]])
KeysOf(rs) == ByKey([j \in DOMAIN rs |-> [rs[j] EXCEPT !.d = 0, !.t = 0]])
ValsOf(rs) == ByKey([j \in DOMAIN rs |-> [rs[j] EXCEPT !.t = 0]])
ExpOf(rs) == ByKey([j \in DOMAIN rs |-> [rs[j] EXCEPT !.d = 0]])

Visible(v, s) == v.cs[s].on /\ v.cs[s].fn < 0
EachSlot(v, e, Good(_, _)) ==
  \A s \in Slots : Visible(v, s) => Index(e, s) # 0 /\ Good(v.cs[s], e.o[Index(e, s)])

RECURSIVE Sizes(_, _)
Sizes(v, S) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN Total(v.cs[s].rs) + Sizes(v, S \ {s})
RECURSIVE Watched(_)
Watched(st) == IF st = <<>> THEN 0 ELSE Total(Head(st).km) + Watched(Tail(st))

\* An entry's value may be elsewhere only if it was taken out meanwhile or revived.
Displaced(v, e) ==
  e.op = "fil" /\ LET c == v.cs[e.a[1]]
                  IN Total(c.rs) + e.a[3] > c.cap \/ Filled(v.now, c, e.a[2], e.a[3], 0, 0, 0).rev > 0

Facet(q, v, e, o) ==
  LET u == o.w IN
  CASE q = "x" -> e.x = ""
    [] q = "n" -> e.n = o.n
    [] q = "r" -> Runs3(e.r) = o.r
    [] q = "f" -> e.f = o.f
    [] q = "slots" -> \A s \in Slots : Visible(u, s) = (Index(e, s) # 0)
    [] q = "keys" -> EachSlot(u, e, LAMBDA c, p : KeysOf(c.rs) = KeysOf(Entries(p)))
    [] q = "order" -> EachSlot(u, e, LAMBDA c, p : InOrder(c.rs) = InOrder(Entries(p)))
    [] q = "vals" -> EachSlot(u, e, LAMBDA c, p : ValsOf(c.rs) = ValsOf(Entries(p)))
    [] q = "exp" -> EachSlot(u, e, LAMBDA c, p : ExpOf(Seen(u, c)) = ExpOf(Entries(p)))
    [] q = "cap" -> EachSlot(u, e, LAMBDA c, p : c.cap = p.cap)
    [] q = "mon" -> EachSlot(u, e, LAMBDA c, p : c.mon = p.mon)
    [] q = "cbn" -> EachSlot(u, e, LAMBDA c, p : c.cb = p.cb)
    [] q = "stats" -> Len(e.s) = Len(u.st) /\ \A j \in DOMAIN e.s : e.s[j].h = u.st[j].h /\ e.s[j].m = u.st[j].m
    [] q = "kst" -> Len(e.s) = Len(u.st) /\ \A j \in DOMAIN e.s : Kept(e.s[j].km) = u.st[j].km
    [] q = "live" -> e.lv[1] >= 0 /\ (\A s \in Slots : u.cs[s].fn < 0) =>
                       e.lv = <<Sizes(u, Slots) + Watched(u.st), Sizes(u, Slots)>>
    [] q = "mv" -> \A j \in DOMAIN e.o : e.o[j].mv > 0 => Displaced(v, e)

Whole == {"x", "slots", "keys", "vals", "order", "cap", "exp"}
AllFacets == Whole \cup {"n", "r", "f", "mon", "cbn", "stats", "kst"}

\* What must be true of a recording in itself.
View(p, e) ==
  \A j \in DOMAIN e.o :
    LET q == e.o[j]
        n == Total(Entries(q))
    IN /\ p = "C02" => /\ q.sz = n /\ n <= q.cap /\ q.sp = q.cap - n /\ q.em = One(n = 0) /\ q.fu = One(n = q.cap)
       /\ p \in {"C08", "C10", "C11"} => q.bk = 1 /\ q.un = 1 /\ q.sz = n
       /\ p = "C04" /\ q.fr # 0 => /\ q.ba = q.rs[1][1]
                                   /\ q.fr = LET l == q.rs[Len(q.rs)] IN l[1] + l[2] - 1
       /\ p = "C07" => e.q = 1
       /\ p \in {"C14", "C16"} => \A k \in DOMAIN e.s : e.s[k].acc = e.s[k].h + e.s[k].m
       /\ p = "C15" => \A k \in DOMAIN e.s : e.s[k].nm = Total(Kept(e.s[k].km))

Ins == {"fil"}
Rem == {"rem", "shr", "cap", "clr"}
Make == {"new", "asg"}
Moves == {"move", "swap"}
Gov(p, v, e) ==
  LET in(S) == e.op \in S
      if(b, S) == IF b THEN S ELSE {}
  IN
  CASE p = "ALL" -> AllFacets \cup {"live", "mv"}
    [] p = "C01" -> {"vals"} \cup if(in({"lok"}), {"x", "n", "r", "keys"})
    [] p = "C02" -> {"cap"}
    [] p = "C03" -> if(in(Ins), {"x", "keys", "vals", "order", "cap"})
    [] p = "C04" -> {"order"}
    [] p = "C05" -> if(in(Rem \cup {"cex"}), {"x", "n", "keys", "vals", "order", "cap"})
    [] p = "C06" -> if(in(Ins), {"x", "n", "keys", "vals", "cap"})
    [] p = "C07" -> if(in({"nop", "aex"}), AllFacets)
    [] p = "C08" -> {"keys", "vals"}
    [] p = "C10" -> Whole \cup if(~in(Moves \cup {"copy"}), {"cbn", "mon", "f"})
    [] p = "C11" -> Whole
    [] p = "C12" -> if(in({"eq"}), {"x", "n", "keys", "vals", "order"})
    [] p = "C13" -> if(in(Make), {"x", "slots", "keys", "vals", "order", "cap"})
    [] p = "C14" -> {"stats"}
    [] p = "C15" -> {"kst"} \cup if(in({"sop"}), {"x", "stats"})
    [] p = "C16" -> {"stats"} \cup if(~in(Moves), {"mon"})
    [] p = "C17" -> {"f"} \cup if(~in(Moves \cup {"copy"}), {"cbn"})
    [] p = "C18" -> {"exp"} \cup if(in({"lok"}), {"x", "n", "r"})
    [] p = "C19" -> {"exp"} \cup if(in({"lok"}), {"x", "n", "r"})
    [] p = "C20" -> {"exp"} \cup if(in({"cex", "aex"}), {"x", "n", "keys", "vals", "order", "cap"})
    [] p = "C24" -> Whole
    [] p = "C25" -> {"live"}
    [] p = "C30" -> {"mv"}
    [] p = "C21" -> if(in({"call"}), {"x", "n", "r"})
    [] p = "C22" -> if(in({"call"}), {"x", "n", "r"})

\* ------------------------------------------------------------------ behaviour
Init == tr \in 1..Len(Traces) /\ i = 0 /\ w = Beginning(Slots)

Next == /\ i < Len(Traces[tr].ev)
        /\ LET t == Traces[tr]
               e == t.ev[i + 1]
               outs == Step(w, e)
               gov == Gov(Prop, w, e)
               part == {o \in outs : \A q \in gov : Facet(q, w, e, o)}
               full == {o \in part : \A q \in AllFacets : Facet(q, w, e, o)}
           IN /\ IF part = {} \/ ~View(Prop, e) THEN PrintT(<<"REJECT", t.id, i + 1>>) /\ FALSE ELSE TRUE
              /\ w' \in {o.w : o \in IF full # {} THEN full ELSE {CHOOSE o \in part : TRUE}}
              /\ i' = IF full # {} THEN i + 1 ELSE Len(t.ev)
              /\ i' = Len(t.ev) => PrintT(<<"DONE", t.id, i + 1>>)
        /\ tr' = tr
Spec == Init /\ [][Next]_vars
=============================================================================
