"""The models of the wrappers: C21 and C22 (see check.py for the method)."""


def W(name, **kw):
    d = dict(Wrappers=1, Keys=(0, 1, 2), Kinds=(0,), Vals=(1,), Caps=(0, 1, 2), Ttls=(-1,), Durs=(0,), MaxNow=0,
             Ops=("mk", "rm", "call"))
    d.update(kw)
    if d["MaxNow"]:
        d["Ops"] += ("tick", "sysj")
    return {"name": name, "module": "Wrap", "const": d}


PROPERTIES = {
    "C21": dict(timed=False, models=[W("wrap", Keys=(0, 1, 2, 3), Caps=(0, 1, 2, 3)), W("wraprec", Kinds=(3,)),
                                     W("wrap2", Wrappers=2, Keys=(0, 1))],
                more=[W("wrap3", Wrappers=3, Keys=(0, 1), Caps=(1, 2)), W("wrapvals", Vals=(1, 2)),
                      W("wrapmix", Wrappers=2, Kinds=(0, 3), Keys=(0, 1, 2), Caps=(1, 2))]),
    "C22": dict(timed=True, models=[W("twrap", Keys=(0, 1), Caps=(0, 1, 2), Ttls=(0, 1), MaxNow=3, Ops=("mk", "call")),
                                    W("twraprec", Kinds=(3,), Keys=(0, 1), Caps=(1, 2), Ttls=(1,), MaxNow=2, Durs=(0, 1),
                                      Ops=("mk", "call"))],
                more=[W("twrap2", Wrappers=2, Keys=(0, 1), Caps=(1, 2), Ttls=(0, 1), MaxNow=3, Ops=("mk", "call")),
                      W("twrapdur", Keys=(0, 1, 2), Caps=(2, 3), Ttls=(1, 2), MaxNow=4, Durs=(0, 1, 2), Ops=("mk", "call"))]),
}
