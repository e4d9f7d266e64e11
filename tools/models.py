"""The models TLC explores exhaustively, and the random profiles, per property.

A model is a set of constants for spec/LRU.tla; TLC checks every property on
every transition of it, and prints the transitions, which become tours through
the real code.  'variants' are the instantiations of the templates the tours
run on (see harness/driver.cpp).
"""

BASE = dict(Slots=1, Handles=0, Keys=(1, 2, 3), Vals=(1,), Caps=(0, 1, 2), Timed=False, Ttls=(), Fids=(0,),
            Gran=1, MaxNow=0, Moments=(), MaxStats=0, MaxCount=0, MaxCbs=0, CbIds=(), Lists=((),), NewForms=(0,), Memory=0, Ops=(),
            FaultOps=())


def M(name, ops, variants, fresh=True, **kw):
    d = dict(BASE, **kw)
    d["Ops"] = tuple(ops.split())
    return {"name": name, "const": d, "variants": variants, "fresh": fresh}


CORE = "new ins acc wr era erai clr shr cap fro nop"
U = [1, 2, 3]          # untimed instantiations
T = [4, 5, 6, 7]       # timed ones
LISTS = ((), ((1, 1),), ((1, 1), (2, 1)), ((1, 1), (2, 1), (1, 2)), ((3, 1), (1, 1), (2, 1)), ((2, 1), (3, 1), (1, 1), (2, 2)))
FORMS = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14)

core = M("core", CORE, U)
core3 = M("core3", CORE, U, Caps=(0, 1, 2, 3), Keys=(1, 2, 3, 4))
pairs = M("pairs", "new ins acc era clr shr cap", U, Caps=(0, 1, 2), Memory=1)
pairs3 = M("pairs3", "new ins acc era erai shr cap", U, Keys=(1, 2, 3, 4), Caps=(3, 1), Memory=1)
triples = M("triples", "new ins acc era shr", U, Keys=(1, 2, 3), Caps=(2,), Memory=2)
pairs_t = M("pairst", "new ins acc era tick exp", T, Keys=(1, 2), Caps=(2,), Timed=True, Ttls=(0, 1), MaxNow=2, Memory=1)
pairs_t3 = M("pairst3", "new ins acc era shr tick exp", T, Keys=(1, 2, 3), Caps=(2,), Timed=True, Ttls=(1,), MaxNow=3, Memory=1)
pairs_c = M("pairsc", "new ins acc era cap copy del", U, Slots=2, Keys=(1, 2), Caps=(2, 1), Memory=1)
pairs_m = M("pairsm", "new ins acc era cap move swap", U, Slots=2, Keys=(1, 2), Caps=(2, 1), Memory=1)
pairs_mt = M("pairsmt", "new ins acc swap tick", [5, 7, 4], Slots=2, Keys=(1, 2), Caps=(2,), Timed=True, Ttls=(0, 1), MaxNow=1, Memory=1)
pairs_r = M("pairsr", "new ins insr asg acc era cap", U, Lists=LISTS, Caps=(0, 1, 2, 3), Memory=1, fresh=False)
pairs_s = M("pairss", "new ins acc wr era mon stp sop", U, Keys=(1, 2), Caps=(1,), MaxStats=1, MaxCount=2, Memory=1)
pairs_h = M("pairsh", "new ins acc era hget hmov hder hera hwr", U, Handles=1, Keys=(1, 2), Caps=(2,), Memory=1)
pairs_cb = M("pairscb", "new ins acc era cb ccb", U, Keys=(1, 2), Caps=(1,), MaxCbs=2, CbIds=(1, 2), Memory=1)
pairs_k = M("pairsk", "new ins acc era erai cap", [3], Keys=(11, 12, 21, 22, 31), Caps=(1, 2), Fids=(7,), Memory=1)
pairs_f = M("pairsf", "new ins insr asg acc era cap", [3], Keys=(1, 2), Caps=(1, 2), Lists=LISTS[:4], Memory=1,
            FaultOps=("new", "ins", "insr", "asg", "acc", "era", "cap"), fresh=False)
values = M("values", CORE, U, Vals=(1, 2), fresh=False)
ranges = M("ranges", "new insr ins acc era cap nop", U, Lists=LISTS, Caps=(0, 1, 2, 3), fresh=False)
making = M("making", "new asg ins acc cap del nop", U, Lists=LISTS, Caps=(0, 1, 2, 3), Keys=(1, 2, 3), NewForms=FORMS, fresh=False)
making_t = M("makingt", "new asg ins acc tick", [5, 7, 4], Lists=LISTS, Caps=(2,), Keys=(1, 2), NewForms=FORMS,
             Timed=True, Ttls=(1,), MaxNow=2, fresh=False)
hand = M("handles", "new ins acc era hget hmov hder hval hera hcnv heq hswp", U, Handles=2, Keys=(1, 2), Caps=(2,))
hand2 = M("handles2", "new ins acc era cap hget hmov hder hwr hval hera hcnv heq", U, Handles=2, Keys=(1, 2), Caps=(0, 2))
hand3 = M("handles3", "new ins acc era hget hmov hder hwr hera hcnv heq", U, Handles=1, Keys=(1, 2, 3), Caps=(3,))
hand_t = M("handlest", "new ins acc era hget hmov hder hwr hval hera hcnv tick", [5, 7, 4], Handles=1, Keys=(1, 2), Caps=(2,),
           Timed=True, Ttls=(0, 1), MaxNow=2)
hand_c = M("handlesc", "new ins hget heq hswp hder", U, Slots=2, Handles=2, Keys=(1, 2), Caps=(1,))
obsv = M("observers", "new ins fro nop eq sta sop mon hget hmov hder hval", U, Handles=1, Keys=(1, 2), Caps=(2,),
         MaxStats=1, MaxCount=1)
obsv2 = M("observers2", "new ins acc fro nop cb hget hmov hder hval hcnv heq hswp", U, Handles=2, Keys=(1, 2), Caps=(2,),
          MaxCbs=1, CbIds=(1,))
obsv_t = M("observerst", "new ins acc nop eq exp tick hget hmov hder hval", [5, 7, 4], Handles=1, Keys=(1, 2), Caps=(2,),
           Timed=True, Ttls=(1,), MaxNow=2)
copying = M("copying", "new ins acc era cap copy eq", U, Slots=2, Keys=(1, 2), Caps=(0, 2))
copying_cb = M("copyingcb", "new ins acc cb ccb copy mon stp", U, Slots=2, Keys=(1,), Caps=(1,), MaxCbs=1, CbIds=(1,), MaxStats=1, MaxCount=1)
copying3 = M("copying3", "new ins acc era clr copy del eq", U, Slots=3, Keys=(1, 2), Caps=(2,))
copying_t = M("copyingt", "new ins copy tick exp", [5, 7, 4], Slots=2, Keys=(1, 2), Caps=(2,), Timed=True, Ttls=(0, 1), MaxNow=2)
copying_t2 = M("copyingt2", "new ins acc copy cap tick exp", [5, 7, 4], Slots=2, Keys=(1, 2), Caps=(2,), Timed=True, Ttls=(0, 1), MaxNow=2)
moving = M("moving", "new ins acc era cap move swap", U, Slots=2, Keys=(1, 2), Caps=(0, 2))
moving_t = M("movingt", "new ins swap tick exp", [5, 7, 4], Slots=2, Keys=(1, 2), Caps=(2,), Timed=True, Ttls=(0, 1), MaxNow=1)
moving_t2 = M("movingt2", "new ins acc swap tick exp", [5, 7, 4], Slots=2, Keys=(1, 2), Caps=(1, 2), Timed=True, Ttls=(0, 1), MaxNow=2)
equal = M("equal", "new ins acc era cap eq wr", U, Slots=2, Keys=(1, 2), Vals=(1, 2), Caps=(2, 1), fresh=False)
equal_t = M("equalt", "new ins acc copy eq tick", [5, 7, 4], Slots=2, Keys=(1, 2), Vals=(1,), Caps=(2,), Timed=True, Ttls=(1,), MaxNow=2, fresh=False)
equal3 = M("equal3", "new ins acc copy eq", U, Slots=2, Keys=(1, 2, 3, 4), Vals=(1,), Caps=(4,), fresh=False)
stats = M("stats", "new ins acc acn wr era mon stp sta sop", U, Keys=(1, 2), Caps=(1,), MaxStats=1, MaxCount=2)
stats2 = M("stats2", "new ins acc mon stp sta copy", U, Slots=2, Keys=(1,), Caps=(1,), MaxStats=2, MaxCount=1)
stats2k = M("stats2k", "new ins acc era mon stp sta copy", U, Slots=2, Keys=(1, 2), Caps=(1,), MaxStats=2, MaxCount=1)
stats_t = M("statst", "new ins acc acn mon stp tick", [5, 7, 4], Keys=(1, 2), Caps=(2,), MaxStats=1, MaxCount=2, Timed=True, Ttls=(0,), MaxNow=1)
stats_t2 = M("statst2", "new ins acc mon stp tick hget", [5, 7, 4], Handles=1, Keys=(1, 2), Caps=(2,), MaxStats=1, MaxCount=2, Timed=True, Ttls=(0,), MaxNow=1)
cbs = M("callbacks", "new ins acc wr era cb ccb nop fro", U, Keys=(1, 2), Caps=(1,), MaxCbs=2, CbIds=(1, 2))
cbs_t = M("callbackst", "new ins acc cb ccb tick exp hget", [5, 7, 4], Handles=1, Keys=(1, 2), Caps=(2,), MaxCbs=1, CbIds=(1,), Timed=True, Ttls=(0,), MaxNow=1)
cbs_xt = M("callbacksxt", "new ins acc wr cb tick exp", T, Keys=(1, 2), Caps=(2,), MaxCbs=1, CbIds=(1, 100), Timed=True, Ttls=(0,), MaxNow=1)
cbs_x = M("callbacksx", "new ins acc wr era cb ccb", [3, 2, 1], Keys=(1, 2), Caps=(1, 2), MaxCbs=1, CbIds=(1, 100))
timed = M("timed", "new ins acc wr era cap tick exp sysj", T, Keys=(1, 2, 3), Caps=(0, 2), Timed=True, Ttls=(0, 1), MaxNow=2)
timed3 = M("timed3", "new ins acc tick exp", T, Keys=(1, 2, 3), Caps=(3,), Timed=True, Ttls=(1,), MaxNow=3)
timed_g = M("timedg", "new ins acc tick exp", [5, 6], Keys=(1, 2), Caps=(2,), Timed=True, Ttls=(0, 1, 2), MaxNow=5, Gran=2)
errors = M("errors", "new ins acc wr era erai fro sta mon sop cap hget hder hval hera hcnv hwr", U, Handles=1, Keys=(1, 2), Caps=(0, 1),
           MaxStats=1, MaxCount=0)
custom = M("custom", CORE + " sop", [3], Keys=(11, 12, 21, 22, 31), Caps=(0, 1, 2), Fids=(7,))
custom_c = M("customc", "new ins acc era copy move swap", [3], Slots=2, Keys=(11, 12, 21), Caps=(2,), Fids=(7,))
custom_m = M("customm", "new ins acc copy move swap del", [3], Slots=2, Keys=(11, 12), Caps=(2,), Fids=(7, 5))
custom_m1 = M("custommi", "new ins acc era copy move swap", [3], Slots=2, Keys=(11, 12, 21), Caps=(1, 2), Fids=(7, 5))
custom_mt = M("custommt", "new ins acc copy swap", [7], Slots=2, Keys=(11, 12), Caps=(2,), Fids=(7, 5), Timed=True, Ttls=(1,), MaxNow=1)
custom_t = M("customt", "new ins acc era tick exp", [7], Keys=(11, 12, 21), Caps=(2,), Fids=(7,), Timed=True, Ttls=(0, 1), MaxNow=2)
life = M("life", "new ins insr asg acc era erai clr shr cap copy del", [3], Slots=2, Keys=(1, 2), Caps=(1, 2), Lists=LISTS[:4], fresh=False)
faulty = M("faulty", "new ins insr asg acc era cap copy", [3], Slots=2, Keys=(1, 2), Caps=(1, 2), Lists=LISTS[:4],
           FaultOps=("new", "ins", "insr", "asg", "acc", "copy"), fresh=False)
faulty_t = M("faultyt", "new ins insr acc era tick exp", [7], Keys=(1, 2), Caps=(2,), Lists=LISTS[:4], Timed=True, Ttls=(0,), MaxNow=1,
             FaultOps=("new", "ins", "insr", "acc"), fresh=False)
faulty_h = M("faultyh", "new ins acc hget hmov hder hwr hval hera", [3], Handles=1, Keys=(1, 2), Caps=(2,),
             FaultOps=("hder", "hwr", "hval", "hera"))
faulty_s = M("faultys", "new ins acc mon stp sop cb ccb", [3], Keys=(1, 2), Caps=(1,), MaxStats=1, MaxCount=1, MaxCbs=1, CbIds=(1,),
             FaultOps=("mon", "sop", "stp", "cb", "ccb"))
runs = M("runs", "new ins acc acn era shr cap", [3], Keys=(1, 2), Caps=(0, 1, 2), Memory=1)
runs_t = M("runst", "new ins acc acn tick exp", [7], Keys=(1, 2), Caps=(2,), Timed=True, Ttls=(0, 1), MaxNow=2, Memory=1)
runs_k = M("runsk", "new ins acn era cap copy swap", [3], Slots=2, Keys=(11, 12, 21), Caps=(2,), Fids=(7,))
shared = M("shared", "new ins acc era cap copy", [1, 2], Slots=2, Keys=(1, 2), Caps=(1, 2))
shared_t = M("sharedt", "new ins acc tick exp", [4, 5, 6], Keys=(1, 2), Caps=(2,), Timed=True, Ttls=(0, 1), MaxNow=2)
shared_s = M("shareds", "new ins acc era mon stp sta sop", [1, 2], Keys=(1, 2), Caps=(1,), MaxStats=1, MaxCount=2)
shared_h = M("sharedh", "new ins acc erai hget hmov hder hcnv hval", [1, 2], Handles=2, Keys=(1,), Caps=(2,))
faulty_c = M("faultyc", "new ins hget hcnv", [3], Handles=2, Keys=(1,), Caps=(2,), FaultOps=("hcnv",))
faulty_ht = M("faultyht", "new ins acc tick hget hmov hder hwr hval hera exp", [7], Handles=1, Keys=(1, 2), Caps=(2,), Timed=True,
              Ttls=(0,), MaxNow=1, FaultOps=("hder", "hwr", "hval", "hera", "exp"))

moments = M("moments", "new ins acc tick exp", T, Keys=(1, 2), Caps=(2,), Timed=True, Ttls=(0, 1), MaxNow=3, Moments=(1, 2))
moments_s = M("momentss", "new ins acc tick mon cb", T, Keys=(1, 2), Caps=(2,), Timed=True, Ttls=(0,), MaxNow=2, Moments=(1,),
              MaxStats=1, MaxCount=2, MaxCbs=1, CbIds=(1,))
cost = M("cost", CORE, [3], Caps=(0, 1, 2, 3), Keys=(1, 2, 3))

# ------------------------------------------------------------------ designs
# Models of how it is done, which TLC explores for their own sake; "slips" are
# mistakes that must be found when they are put in.
def D(name, module, behaviour, checked, slips, **const):
    return {"name": name, "module": module, "behaviour": behaviour, "checked": checked, "slips": slips, "const": const}


def impl(name, slips, **kw):
    const = dict(ISlots=(1,), IKeys=(1, 2, 3), IVals=(1,), ICaps=(0, 2), ITtl=-1, IMaxNow=0, Cells=(1, 2, 3, 4), Slip="",
                 IOps=("new", "ins", "acc", "wr", "era", "clr", "shr", "cap", "copy", "swap", "del", "exp", "tick"))
    const.update(kw)
    return D(name, "LRUImpl", "INIT IInit\nNEXT INext\nVIEW IView",
             "INVARIANTS Sound Shortcut\nPROPERTIES Refines Stable", slips, **const)


inside = impl("inside", ("erase", "clear", "evict"))
inside_t = impl("insidet", ("shortcut", "erase"), IKeys=(1, 2), ITtl=0, IMaxNow=1)
inside_2 = impl("inside2", ("copy",), ISlots=(1, 2), IKeys=(1, 2), ICaps=(2,), Cells=(1, 2, 3, 4, 5))
inside_4 = impl("inside4", (), IKeys=(1, 2, 3, 4), IVals=(1, 2), ICaps=(0, 1, 2, 3), Cells=(1, 2, 3, 4, 5))
inside_c = impl("insidec", (), ISlots=(1, 2), IKeys=(1, 2), ICaps=(0, 1, 2), Cells=(1, 2, 3, 4, 5))
inside_t3 = impl("insidet3", ("shortcut",), IKeys=(1, 2, 3), ITtl=1, IMaxNow=3, ICaps=(0, 1, 3))
bank = D("bank", "CostModel", "SPECIFICATION Spec", "INVARIANT NeverDear", ("tidy", "search"),
         Strict=1, Deposit=2, Ceiling=2, Linear=3, Most=130, Slip="")


def threads(name, ops, slips=(), **kw):
    m = M(name, ops, [1], Slots=2, fresh=False, **kw)
    return D(name, "Threads", "INIT Init\nNEXT Next\nVIEW Pairs", "PROPERTY Apart\nCONSTRAINT Bounded", slips,
             **dict(m["const"], Slots=(1, 2), Handles=(), Dump=False))


apart = threads("apart", "new ins acc wr era shr cap fro", ("common",), Keys=(1, 2), Caps=(0, 1), NewForms=(0,))
apart_t = threads("apartt", "new ins acc tick exp del", Keys=(1, 2), Caps=(1,), Timed=True, Ttls=(0,), MaxNow=1, NewForms=(0,))
apart_c = threads("apartc", "new ins acc cap clr cb ccb copy eq", Keys=(1,), Caps=(0, 2), MaxCbs=1, CbIds=(1,), NewForms=(0,))


def bulk(name, ops, slips=(), **kw):
    const = dict(Slots=(1,), Keys=(1, 2, 3), Values=(0, 1), Caps=(0, 1, 2), Ttls=(0,), Horizon=0, Ops=tuple(ops.split()))
    return D(name, "BulkModel", "SPECIFICATION Spec", "INVARIANTS Refined Normal\nCONSTRAINT Within", slips, **dict(const, **kw))


runs_of_keys = bulk("bulk", "new fil lok rem shr cap clr asg del", ("late",))
runs_of_keys_4 = bulk("bulk4", "new fil lok rem shr cap clr asg del", ("late",), Keys=(1, 2, 3, 4), Caps=(0, 1, 2, 3))
runs_timed = bulk("bulkt", "new fil lok rem cex aex tick", Keys=(1, 2), Values=(0,), Ttls=(1,), Horizon=2)
runs_timed_3 = bulk("bulkt3", "new fil lok rem cex aex tick cap asg", Caps=(0, 1, 2, 3), Ttls=(0, 1, 2), Horizon=3)
runs_copied = bulk("bulkc", "new fil copy move swap del eq", Slots=(1, 2), Keys=(1, 2), Caps=(1, 2))
runs_copied_3 = bulk("bulkc3", "new fil lok copy move swap del eq cap", Slots=(1, 2), Caps=(1, 2))
runs_counted = bulk("bulks", "new fil lok mon stp sop", Keys=(1, 2), Values=(0,), Caps=(1, 2))
runs_counted_2 = bulk("bulks2", "new fil lok mon stp sop copy move swap del", Slots=(1, 2), Keys=(1, 2), Values=(0,), Caps=(1, 2))
runs_calling = bulk("bulkf", "new fil lok cb ccb copy", Slots=(1, 2), Keys=(1, 2), Values=(0,), Caps=(1,))
runs_calling_2 = bulk("bulkf2", "new fil lok copy move swap del cb ccb", Slots=(1, 2), Keys=(1, 2), Values=(0,), Caps=(1, 2))
runs_called = bulk("bulkw", "wrap call tick", Keys=(1, 2), Ttls=(0, 2), Horizon=2)
runs_called_4 = bulk("bulkw4", "wrap call tick del", Keys=(1, 2, 3, 4), Caps=(0, 1, 2, 3), Ttls=(0, 2), Horizon=3)
# property: (quick, further ones of the thorough tier)
DESIGNS = {
    "C01": ((inside, inside_t), (inside_4,)), "C04": ((inside,), (inside_4,)), "C05": ((inside,), (inside_4,)),
    "C08": ((inside,), (inside_4,)), "C10": ((inside_2,), (inside_c,)), "C11": ((inside_2,), (inside_c,)),
    "C25": ((inside, inside_2), (inside_c,)), "C30": ((inside, inside_2), (inside_c,)), "C29": ((bank,), ()),
    "C32": ((apart, apart_t), (apart_c,)),
    "C20": ((inside_t,), (inside_t3,)), "C18": ((inside_t,), (inside_t3,)), "C19": ((inside_t,), (inside_t3,)),
}

for _ps, _quick, _more in (("C01 C02 C03 C04 C05 C06", runs_of_keys, runs_of_keys_4), ("C18 C19 C20", runs_timed, runs_timed_3),
                           ("C10 C11 C12 C13", runs_copied, runs_copied_3), ("C14 C15 C16", runs_counted, runs_counted_2),
                           ("C17", runs_calling, runs_calling_2), ("C21 C22", runs_called, runs_called_4)):
    for _p in _ps.split():
        _q, _m = DESIGNS.get(_p, ((), ()))
        DESIGNS[_p] = (_q + (_quick,), _m + (_more,))

# ------------------------------------------------------------------ random profiles
BASIC = {"ins": 22, "acc": 22, "accsame": 4, "touch": 6, "wr": 5, "era": 6, "erai": 4, "clr": 1, "shr": 2, "cap": 3,
         "insr": 2, "nop": 1}
TIME = {"tick": 12, "exp": 4, "cex": 1, "sysj": 1}
HAND = {"hget": 10, "hmov": 9, "hder": 6, "hwr": 3, "hval": 3, "hera": 2, "hcnv": 6, "heq": 6, "hswp": 4}
STAT = {"mon": 4, "stp": 1, "sta": 2, "sop": 6, "stouch": 2}
CALL = {"cb": 4, "ccb": 1}
MANY = {"copy": 5, "move": 4, "swap": 4, "del": 2, "new": 4, "eq": 4, "asg": 2, "insc": 2, "newc": 2}


def R(variants, *ops, **kw):
    d = {}
    for o in ops:
        d.update(o)
    return dict(kw, variants=variants, ops=d)


big = dict(keys=9, caps=[3, 4, 5, 7, 8], len=160)
huge = dict(keys=60, caps=[10, 17, 33, 40], len=200, fill=50, sparse=0.7)
default = dict(keys=160, caps=[128, 150, 64], len=120, fill=200, sparse=1.0, plain=0.5)
vast = dict(caps=[2, 3, 255, 256, 65535, 65536, 65538, 70000, 1000000] + [2000000000 + i for i in range(6)])
long = dict(ttls=[2, 25, 30, 40, 50, 60, 100], ticks=[1, 2, 5, 10, 20, 30, 49, 50, 60])
crowd = dict(keys=400, caps=[300, 256], len=100, fill=400, sparse=1.0, plain=1.0, custom=0)
# every capacity up to 64 and others at which something may change, in turn
sweep = dict(keys=320, caps=list(range(5, 65)) + [96, 97, 127, 128, 129, 255, 256, 257, 258], inorder=True, fill=-1, len=24,
             sparse=0.9, plain=1.0, initial=1)
two = dict(slots=[1, 2])
three = dict(slots=[1, 2, 3])

PROPERTIES = {
    "C01": dict(models=[pairs, pairs3, values], more=[triples, pairs_t3, core3, custom, timed3], random=[R([1, 2, 3, 5], BASIC), R([1, 2], BASIC, HAND, **big), R([1, 2], BASIC, MANY, **three), R([1, 2, 3], BASIC, **huge), R([1, 2], BASIC, **default), R([4, 5, 6, 7], BASIC, TIME, HAND)]),
    "C02": dict(models=[pairs, ranges], more=[pairs_r, pairs_m, core3, making, moving], random=[R([1, 2, 3, 5], BASIC, MANY, **two), R([1, 2], BASIC, **big), R([1, 2, 3], BASIC, **huge), R([1, 2], BASIC, MANY, **dict(default, slots=[1, 2])), R([1, 2, 3, 5], BASIC, MANY, {"cap": 6}, **dict(vast, slots=[1, 2])), R([4, 5, 7], BASIC, TIME, {"swap": 3, "copy": 3, "new": 2}, **two), R([1, 2, 3, 5], BASIC, **sweep)]),
    "C03": dict(models=[core3, pairs3], more=[triples, values, custom, timed], random=[R([1, 2, 3], BASIC), R([1, 2, 4], BASIC, **big), R([4, 6], BASIC, TIME), R([1, 2, 3], BASIC, **huge), R([1, 2, 4], BASIC, **default), R([1, 2, 3, 5], BASIC, **sweep)]),
    "C04": dict(models=[pairs, pairs3, hand3], more=[triples, core3, timed3], random=[R([1, 2, 3], BASIC, {"fro": 3}), R([1, 2, 5], BASIC, HAND, **big), R([1, 2, 3], BASIC, {"fro": 3}, **huge), R([1, 2], BASIC, {"fro": 3}, **default), R([4, 5, 6, 7], BASIC, TIME), R([1, 2, 4], BASIC, **sweep)]),
    "C05": dict(models=[core3, pairs3], more=[triples, pairs_t3, hand3, timed], random=[R([1, 2, 3], BASIC, {"era": 14, "erai": 10, "shr": 6, "cap": 6}), R([4, 5, 7], BASIC, TIME, HAND, {"era": 10, "erai": 10}), R([1, 2], BASIC, **big), R([1, 2, 3], BASIC, HAND, {"era": 14, "erai": 10, "shr": 2}, **dict(huge, sparse=0.2)), R([1, 2, 4], BASIC, {"era": 10, "erai": 10}, **default), R([1, 2, 3, 4], BASIC, **sweep)]),
    "C06": dict(models=[pairs, ranges, pairs_r], more=[core3, timed, custom], random=[R([1, 2, 3, 5], BASIC, {"insr": 14, "ins": 30}), R([1, 2], BASIC, {"insr": 8}, **big), R([1, 2, 3, 4], BASIC, {"insr": 8, "ins": 30}, **huge), R([4, 5, 6, 7], BASIC, TIME, {"insr": 10, "ins": 30}, keys=3)]),
    "C07": dict(models=[obsv, obsv2], more=[hand, stats], random=[R([1, 2, 3], BASIC, HAND, STAT, CALL, {"fro": 4, "nop": 6, "eq": 4}, **two), R([4, 6], BASIC, HAND, TIME, STAT, CALL)]),
    "C08": dict(models=[pairs3, hand3], more=[pairs_h, core3, timed], random=[R([1, 2, 3], BASIC, HAND), R([4, 5], BASIC, TIME, HAND), R([1, 2], BASIC, HAND, MANY, slots=[1, 2], keys=9, caps=[3, 5, 8], len=120), R([1, 2, 3, 4], BASIC, HAND, **dict(huge, sparse=0.2)), R([1, 2], BASIC, HAND, **dict(default, sparse=0))]),
    "C09": dict(models=[hand, hand_t, hand_c, pairs_h], more=[hand3, obsv], random=[R([1, 2, 3], BASIC, HAND), R([1, 2, 3, 5], BASIC, HAND, {"copy": 3, "swap": 2, "heq": 14}, slots=[1, 2, 3], keys=3), R([4, 5, 7], BASIC, TIME, HAND), R([1, 2], BASIC, HAND, **big), R([1, 2, 3], BASIC, HAND, **dict(huge, sparse=0.2))]),
    "C10": dict(models=[copying, copying_t, pairs_c, copying_cb], more=[copying3, custom_c, custom_m, custom_mt], random=[R([1, 2, 3], BASIC, {"copy": 14, "del": 4, "eq": 4, "new": 3}, **three), R([4, 5, 7], BASIC, TIME, {"copy": 14, "del": 4}, **two), R([1, 2, 3, 4], BASIC, {"copy": 10, "eq": 4}, **dict(huge, slots=[1, 2])), R([1, 2, 3, 5], BASIC, CALL, STAT, {"copy": 14, "del": 3, "new": 2, "mon": 2}, keys=3, spell=1, **two), R([1, 4], BASIC, **sweep)]),
    "C11": dict(models=[moving, moving_t, custom_m, pairs_m], more=[pairs_mt, custom_c, custom_mt], random=[R([1, 2, 3], BASIC, {"move": 10, "swap": 10, "del": 3, "new": 3}, **three), R([4, 5, 7], BASIC, TIME, {"move": 6, "swap": 12, "new": 2}, **two), R([1, 2, 3], BASIC, {"move": 8, "swap": 8, "new": 2}, **dict(huge, slots=[1, 2]))]),
    "C12": dict(models=[equal, equal_t, equal3], more=[pairs_c, copying], random=[R([1, 2, 3], BASIC, {"eq": 30, "copy": 5, "swap": 2}, slots=[1, 2], keys=3, fresh=0.0, caps=[1, 2, 3]), R([4, 5, 7], BASIC, TIME, {"eq": 30, "copy": 8}, slots=[1, 2], keys=3, fresh=0.0), R([1, 2, 3], BASIC, {"eq": 20, "copy": 10}, **dict(huge, slots=[1, 2], fresh=0)), R([1, 2, 3], {"ins": 3, "acc": 30, "wr": 1, "era": 1, "eq": 25, "copy": 6}, slots=[1, 2], keys=5, caps=[4, 5, 6, 7], fill=8, fresh=0.0, len=100), R([4, 5, 7], {"ins": 1, "acc": 30, "era": 1, "eq": 25, "copy": 6, "tick": 3}, slots=[1, 2], keys=5, caps=[4, 5, 6, 7], ttls=[6, 9], fill=8, fresh=0.0, len=100)]),
    "C13": dict(models=[making, making_t], more=[pairs_r, ranges], random=[R([1, 2, 3, 5], BASIC, {"new": 20, "asg": 20, "del": 20}, plain=0.1, slots=[1, 2])]),
    "C14": dict(models=[stats, stats_t], more=[pairs_s, stats2], random=[R([1, 2, 3], BASIC, STAT, {"hget": 4}, keys=3), R([4, 5, 7], BASIC, TIME, STAT, {"hget": 4}, keys=3), R([1, 2, 3], BASIC, STAT, MANY, {"mon": 8}, keys=3, **three), R([1, 2], BASIC, STAT, {"accmany": 8}, keys=20, caps=[5, 10], len=300, sparse=0.7), R([1, 5, 2], BASIC, TIME, STAT, {"accmany": 4}, keys=3, len=40, many=[1000, 65535, 65536, 66000])]),
    "C15": dict(models=[stats, stats_t], more=[pairs_s, stats2], random=[R([1, 2, 3], BASIC, STAT, {"sop": 12, "stouch": 8}, keys=4, spell=1), R([4, 5, 7], BASIC, TIME, STAT, {"sop": 10}, keys=4, spell=1), R([1, 2], BASIC, STAT, {"accmany": 8}, keys=6, caps=[5, 10], len=300, sparse=0.7), R([1, 5, 2], BASIC, TIME, STAT, {"accmany": 4}, keys=3, len=40, many=[1000, 65535, 65536, 66000])]),
    "C16": dict(models=[stats, stats2], more=[stats_t], random=[R([1, 2, 3], BASIC, STAT, {"mon": 10, "stp": 4, "sta": 6, "copy": 4, "del": 2, "new": 2}, keys=3, **three), R([4, 5, 7], BASIC, TIME, STAT, {"mon": 10}, keys=3, **two)]),
    "C17": dict(models=[cbs, cbs_t], more=[pairs_cb, cbs_x], random=[R([1, 2, 3], BASIC, CALL, STAT, {"cb": 6, "hget": 5}, keys=3, spell=1), R([4, 5, 7], BASIC, TIME, CALL, {"cb": 6, "hget": 4}, keys=3, spell=1), R([1, 2, 3], BASIC, CALL, MANY, keys=3, **three)]),
    "C18": dict(models=[timed, pairs_t, hand_t], more=[pairs_t3, timed3, timed_g], random=[R([4, 5, 6, 7], BASIC, TIME), R([4, 5, 6], BASIC, TIME, HAND), R([5, 6], BASIC, TIME, {"copy": 4, "swap": 4}, slots=[1, 2]), R([4, 5, 6, 7], BASIC, TIME, **dict(huge, keys=30, fill=20)), R([4, 5, 6, 7], BASIC, TIME, **long)]),
    "C19": dict(models=[timed, timed_g, pairs_t], more=[pairs_t3, timed3], random=[R([4, 5, 6, 7], BASIC, TIME, {"ins": 40, "tick": 20}, keys=3, ttls=[0, 1, 2])]),
    "C20": dict(models=[timed, timed3], more=[pairs_t, pairs_t3, timed_g], random=[R([4, 5, 6, 7], BASIC, TIME, {"cex": 12, "exp": 10}, keys=6, caps=[2, 4, 5, 6]), R([4, 5, 6, 7], BASIC, TIME, {"cex": 6, "exp": 10}, **dict(huge, keys=30, fill=20))]),
    "C23": dict(models=[errors, hand_t], more=[hand, timed], random=[R([1, 2, 3], BASIC, HAND, STAT, {"fro": 8, "clr": 4, "era": 12}, keys=4, caps=[0, 1, 2]), R([4, 5, 7], BASIC, TIME, HAND, STAT, keys=4), R([1, 2, 3], BASIC, HAND, STAT, MANY, {"fro": 8}, keys=4, **two)]),
    "C24": dict(models=[custom, custom_t, custom_m, pairs_k], more=[custom_c, custom_m1, custom_mt], random=[R([3], BASIC, keys=4), R([3], BASIC, MANY, HAND, keys=3, **three), R([3, 7], BASIC, MANY, keys=3, spell=1, mixed=1, **three), R([7], BASIC, TIME, HAND, keys=3)]),
    "C25": dict(models=[life, pairs_k], more=[faulty, custom], random=[R([3], BASIC, keys=4), R([3], BASIC, MANY, HAND, keys=4, **three), R([7], BASIC, TIME, MANY, keys=4, **two), R([3], BASIC, **huge), R([3, 7], BASIC, **sweep)]),
    "C26": dict(models=[faulty, cbs_x, pairs_f, faulty_ht, faulty_s, faulty_c], more=[faulty_t, cbs_xt, faulty_h], random=[R([3], BASIC, MANY, {"insr": 8}, faults=0.5, keys=4, slots=[1, 2], sparse=0.1), R([7], BASIC, TIME, faults=0.4, keys=4, sparse=0.1), R([1, 3, 7], BASIC, CALL, throwing=0.4, keys=3), R([3, 7], {"ins": 8, "acc": 10, "mon": 8, "sop": 6, "stp": 2, "copy": 1, "cb": 4, "ccb": 1}, faults=0.5, keys=3, sparse=0.1, spell=1)]),
    "C27": dict(models=[pairs, stats_t], more=[pairs3, pairs_t, cbs, timed], random=[R([1, 2, 3], BASIC, STAT, CALL, keys=4, spell=1), R([4, 5, 7], BASIC, TIME, STAT, CALL, keys=4, spell=1)]),
    "C28": dict(models=[moments, moments_s], more=[pairs_t, stats_t], random=[R([4, 5, 6, 7], BASIC, TIME, keys=3, ttls=[0, 1, 2], mid=[0, 1, 1, 2, 3]), R([4, 5, 6, 7], BASIC, TIME, STAT, CALL, keys=3, spell=1, ttls=[0, 1, 2, 4], mid=[0, 1, 1, 2, 3])]),
    "C29": dict(models=[cost], more=[life, custom_t], random=[R([3, 7], BASIC, TIME, **crowd), R([3, 7], BASIC, TIME, HAND, CALL, STAT, **dict(crowd, sparse=0.9))]),
    "C30": dict(models=[pairs, pairs_t], more=[pairs3, pairs_c, timed], random=[R([1, 2, 3, 5], BASIC), R([1, 2, 3], BASIC, MANY, **three), R([4, 5, 6, 7], BASIC, TIME, keys=3), R([1, 2, 3, 4], BASIC, sparse=0.0, **big), R([1, 2, 3], BASIC, **dict(huge, sparse=0.0)), R([1, 3, 5], BASIC, **sweep)]),
    "C31": dict(models=[runs, runs_t], more=[runs_k], random=[R([3, 7], BASIC, TIME, {"accmany": 12}, many=[3, 4, 10, 100], keys=4), R([3], BASIC, MANY, {"accmany": 12}, many=[3, 5], keys=4, **two), R([3, 7], BASIC, TIME, HAND, {"accmany": 12}, many=[3, 5], keys=4, sparse=0.9), R([3, 7], BASIC, {"accmany": 12}, many=[3, 30], **huge)]),
    "C32": dict(models=[shared, shared_t, shared_s, shared_h], more=[pairs, pairs_t, cbs, making, moving], random=[R([1, 2], BASIC, MANY, STAT, CALL, **two), R([1, 2], BASIC, HAND, STAT, MANY, **three), R([4, 5, 6], BASIC, TIME, MANY, HAND, **two)]),
    "C33": dict(models=[pairs, pairs_t, stats, cbs], more=[pairs3, pairs_c, making, moving, hand, timed], random=[R([1, 2, 3], BASIC, STAT, CALL, keys=4), R([4, 5, 7], BASIC, TIME, STAT, HAND, keys=4), R([1, 2, 3], BASIC, MANY, HAND, **three), R([4, 5, 6], BASIC, TIME, MANY, **two), R([1, 3], BASIC, sparse=0.9, **big)]),
}
