"""Seeded generation of operation scripts for the conformance driver.

A script is a list of episodes; an episode starts with
    E <id> <nanoseconds per tick> <largest key> <custom functions?>
and goes on with one operation per line (see harness/driver.cpp).  Nothing here
knows what the operations should do: that is the specification's business.
"""
import random

TIMED = {4, 5, 6, 7}
CUSTOM = {3, 7}
# (nanoseconds per tick, ticks per unit of the duration type) to choose from
DAY = 86400 * 10**9
TICKS = {4: [(1000000, 1), (250000, 1), (3, 1), (DAY, 1)], 5: [(1000000, 1), (250000, 4), (500000, 2), (DAY, 1)],
         6: [(1000000000, 1), (250000000, 4), (500000000, 2), (DAY // 10, 1)], 7: [(1000000, 1), (100000, 1), (DAY, 1)]}


SHORT = {"hcnv", "hder", "hwr", "hval", "heq", "hera", "exp", "cex", "eq", "fro", "cb", "ccb", "era", "erai", "mon", "sop", "stp"}


def fault(r, op):
    """A fault armed for the next operation: at which copy or at which allocation."""
    if op in SHORT:   # these copy and allocate at most a few times
        return r.choice(["F 1 0", "F 2 0", "F 0 1", "F 0 1", "F 0 1", "F 0 2"])
    return "F %d 0" % r.randint(1, 9) if r.random() < .5 else "F 0 %d" % r.randint(1, 7)


class Episode:
    def __init__(self, eid, variant, tick, gran, custom=1):
        self.id, self.variant, self.gran = eid, variant, gran
        self.custom = custom
        self.tick = tick
        self.universe = 69 if variant in CUSTOM else 9      # keys statistics are asked about
        self.lines = []

    def header(self, universe):
        return "E %d %d %d %d" % (self.id, self.tick, universe, self.custom)

    def text(self):
        return [self.header(self.universe)] + self.lines


class Gen:
    """Random histories following a profile (a dictionary, see PROFILES)."""

    def __init__(self, seed, profile):
        self.r = random.Random(seed)
        self.p = profile
        self.fresh = 10

    # -- ingredients
    def key(self, ep):
        n = self.p.get("keys", 5)
        k = self.r.randint(1, n)
        if ep.variant in CUSTOM:
            return k * 10 + (1 if self.p.get("spell") else self.r.choice([1, 1, 2, 3]))
        return k

    def val(self):
        if self.r.random() < self.p.get("fresh", 0.6):
            self.fresh = 10 + (self.fresh - 9) % 9000
            return self.fresh
        return self.r.randint(1, 4)

    def slot(self):
        return self.r.choice(self.p.get("slots", [1]))

    def pairs(self, ep, lo=0, hi=5):
        n = self.r.randint(lo, hi)
        return [(self.key(ep), self.val()) for _ in range(n)]

    def lst(self, ps):
        return " | " + " ".join("%d %d" % p for p in ps) if ps else " |"

    # -- operations
    def op(self, ep, name):
        r, c = self.r, self.slot()
        if name == "new":
            return self.new(ep, c)
        if name == "ins":
            mid = " %d" % r.choice(self.p["mid"]) if self.p.get("mid") and ep.variant in TIMED else ""
            return "ins %d %d %d %d%s" % (c, self.key(ep), self.val(), r.randint(0, 7), mid)
        if name == "insc":      # the elements of another cache
            return "insr %d %d %d" % (c, r.randint(7, 11), self.slot())
        if name == "newc":
            cap = r.choice(self.p.get("caps", [0, 1, 2, 3, 4]))
            return ["del %d" % c, "new %d %d %d %d %d %d" % (c, r.randint(15, 18), cap, self.ttl(ep), self.fid(ep), self.slot())]
        if name == "insr":
            return "insr %d %d%s" % (c, r.choice([0, 1, 2, 3, 4, 5, 6, 12, 13, 14, 15, 16]), self.lst(self.pairs(ep)))
        if name == "asg":
            return "asg %d %d%s" % (c, r.randint(0, 8), self.lst(self.pairs(ep)))
        if name == "acc":
            mid = " %d %d" % (r.choice(self.p["mid"]), r.choice([1, 1, 2, 3])) if self.p.get("mid") and ep.variant in TIMED else ""
            return "acc %d %d %d%s" % (c, self.key(ep), r.randint(0, 15), mid)
        if name == "accmany":
            n = r.choice(self.p.get("many", [2, 3, 10, 100, 128, 200, 255, 256, 257, 300]))
            return "acn %d %d %d %d %d" % (c, self.key(ep), r.randint(0, 15), n, r.randint(0, 1))
        if name == "accsame":   # the same key several times over
            k = self.key(ep)
            return ["acc %d %d %d" % (c, k, r.randint(0, 15)) for _ in range(r.randint(2, 4))]
        if name == "touch":     # access, modify, access again
            k = self.key(ep)
            mid = r.choice(["era %d %d %d" % (c, k, r.randint(0, 1)),
                            "ins %d %d %d %d" % (c, k, self.val(), r.randint(0, 7)),
                            "ins %d %d %d %d" % (c, self.key(ep), self.val(), r.randint(0, 7)),
                            "erai %d %d %d" % (c, k, r.randint(0, 3)),
                            "clr %d" % c, "shr %d %d" % (c, r.randint(0, 2)),
                            "cap %d %d" % (c, r.randint(0, 4))])
            return ["acc %d %d %d" % (c, k, r.randint(0, 7)), mid,
                    "acc %d %d %d" % (c, k, r.randint(0, 7))]
        if name == "wr":
            return "wr %d %d %d %d" % (c, self.key(ep), self.val(), r.randint(0, 5))
        if name == "era":
            return "era %d %d %d" % (c, self.key(ep), r.randint(0, 1))
        if name == "erai":
            return "erai %d %d %d" % (c, 0 if r.random() < .1 else self.key(ep), r.randint(0, 3))
        if name in ("clr", "stp"):
            return "%s %d" % (name, c)
        if name == "del":
            return "del %d" % c
        if name == "shr":
            return "shr %d %d" % (c, r.choice([0, 1, 2, 3, 4, 5, 6, 2000000002, 2000000000]))
        if name == "cap":
            return "cap %d %d" % (c, r.choice(self.p.get("caps", [0, 1, 2, 3, 4])))
        if name == "copy":
            return "copy %d %d %d" % (c, self.slot(), r.choice([0, 1, 2, 10, 11]))
        if name == "move":
            d, s = c, self.slot()
            out = ["move %d %d %d" % (d, s, r.choice([0, 10]))]
            if ep.variant in TIMED:   # ages of whatever is left behind are unknown
                out += r.choice([["del %d" % s], ["clr %d" % s, "del %d" % s], ["copy %d %d 10" % (s, d)]])
            return out
        if name == "swap":
            return "swap %d %d %d" % (c, self.slot(), r.randint(0, 3))
        if name == "eq":
            return "eq %d %d" % (c, self.slot())
        if name == "mon":
            form = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 7, 7, 8, 8, 9, 10, 11, 12, 13, 14, 15])
            n = {0: 0, 1: 1, 2: 2, 9: 3, 7: 0, 8: 0, 11: 0, 12: 0, 13: 0, 14: 0, 15: 0, 10: r.choice([0, 2])}.get(form, r.randint(0, 4))
            ks = [(self.key(ep), 0) for _ in range(n)]
            return "mon %d %d %d%s" % (c, form, r.randint(1, 4), self.lst(ks))
        if name == "sta":
            return "sta %d %d" % (c, r.randint(0, 1))
        if name == "stouch":    # access, operate on what is counted, access again
            k = self.key(ep)
            return ["acc %d %d %d" % (1, k, r.randint(0, 7)),
                    "sop 0 %d %d" % (r.choice([0, 1, 1, 1, 2, 3, 4]), k if r.random() < .8 else self.key(ep)),
                    "acc %d %d %d" % (1, k, r.randint(0, 7))]
        if name == "sop":
            return "sop %d %d %d" % (r.randint(0, 4), r.choice([0, 0, 0, 1, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10]), self.key(ep))
        if name == "cb":
            i = r.randint(100, 103) if r.random() < self.p.get("throwing", 0) else r.randint(1, 20)
            return "cb %d %d %d %d" % (c, r.randint(0, 2), i, r.randint(0, 2))
        if name == "ins1":      # a run of insertions
            return [self.op(ep, "ins") for _ in range(r.randint(3, 12))]
        if name == "ccb":
            return "ccb %d %d" % (c, r.randint(0, 3))
        if name == "hget":
            kd = r.randint(0, 3)
            how = r.choice([0, 1, 2, 3, 3, 3])
            return "hget %d %d %d %d %d" % (r.randint(1, 6), c, kd, how, self.key(ep))
        if name == "hmov":
            return "hmov %d %d" % (r.randint(1, 6), r.randint(0, 3))
        if name == "hder":
            return "hder %d %d" % (r.randint(1, 6), r.randint(0, 6))
        if name == "hwr":
            return "hwr %d %d %d" % (r.randint(1, 6), self.val(), r.randint(0, 2))
        if name == "hval":
            return "hval %d %d" % (r.randint(1, 6), r.randint(0, 2))
        if name == "hera":
            return "hera %d" % r.randint(1, 6)
        if name == "hcnv":
            return "hcnv %d %d %d" % (r.randint(1, 6), r.randint(1, 6), r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 17]))
        if name == "hswp" and r.random() < .4:   # a copy moved away and exchanged
            h, g = r.sample(range(1, 7), 2)
            return ["hcnv %d %d 3" % (h, g), "hmov %d %d" % (g, r.choice([0, 0, 2])),
                    "hswp %d %d %d" % (h, g, r.randint(0, 2)), "hder %d %d" % (h, r.randint(0, 6)),
                    "hder %d %d" % (g, r.randint(0, 6))]
        if name == "hswp":
            return "hswp %d %d %d" % (r.randint(1, 6), r.randint(1, 6), r.randint(0, 2))
        if name == "heq":
            return "heq %d %d" % (r.randint(1, 6), r.randint(1, 6))
        if name == "fro":
            return "fro %d %d" % (c, r.randint(0, 1))
        if name == "exp":
            return "exp %d %d %d" % (c, r.choice([1, 1, 2, 5, 3, 4]), self.key(ep))
        if name == "cex":
            return "exp %d 0" % c
        if name == "tick":
            return "tick %d" % r.choice(self.p.get("ticks", [1, 1, 1, 2, 3]))
        if name == "sysj":
            return "sysj %d" % r.choice([-100000, 100000, 5, -1])
        if name == "nop":
            return "nop"
        raise KeyError(name)

    def ttl(self, ep):
        if ep.variant not in TIMED:
            return -1
        if self.r.random() < self.p.get("forever", 0.04):
            return 1000000000
        return self.r.choice(self.p.get("ttls", [0, 1, 2, 3, 4, 6])) * (ep.gran if self.r.random() < .6 else 1)

    def fid(self, ep):
        if not (ep.variant in CUSTOM and ep.custom):
            return 0
        return self.r.choice([7, 7, 7, 5, 6]) if self.p.get("mixed") else 7

    def new(self, ep, c):
        r = self.r
        form = r.choice([0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 19, 20, 21, 22, 23, 24])
        if r.random() < self.p.get("plain", 0.6):
            form = 0
        caps = self.p.get("caps", [0, 1, 2, 3, 4])
        if self.p.get("inorder"):       # every capacity in turn
            self.p["turn"] = self.p.get("turn", -1) + 1
            cap = caps[self.p["turn"] % len(caps)]
        else:
            cap = r.choice(caps)
        self.capacity = cap
        fid = self.fid(ep)
        ps = [] if form in (0, 1) else self.pairs(ep, 0, 4 if form in (8, 9) else 7)
        return "new %d %d %d %d %d%s" % (c, form, cap, self.ttl(ep), fid, self.lst(ps))

    # -- episodes
    def episode(self, eid, variant):
        r, p = self.r, self.p
        tick, gran = r.choice(TICKS[variant]) if variant in TIMED else (1, 1)
        ep = Episode(eid, variant, tick, gran, p.get("custom", 1))
        n = p.get("keys", 5)
        ep.universe = max(ep.universe, n * 10 + 9 if variant in CUSTOM else n)
        names = list(p["ops"])
        weights = [p["ops"][n] for n in names]
        if variant not in TIMED:
            pass
        n = r.randint(p.get("len", 60) // 2, p.get("len", 60))
        sparse = r.random() < p.get("sparse", 0.3)
        if sparse and not p.get("fill"):
            ep.lines.append("O 0")
        for s in p.get("slots", [1])[:p.get("initial", 3)]:
            ep.lines.append(self.new(ep, s))
        if p.get("fill"):    # many entries to start with
            ep.lines.append("O 0")
            for s in p.get("slots", [1]):
                for i in range(p["fill"] if p["fill"] > 0 else self.capacity * 5 // 4 + 2):
                    ep.lines.append("ins %d %d %d %d" % (s, self.key(ep), self.val(), r.randint(0, 7)))
                    n += 1
            ep.lines += ["O 1", "nop"] + ["O 0"] * sparse
        while len(ep.lines) < n:
            name = r.choices(names, weights)[0]
            lines = self.op(ep, name)
            if isinstance(lines, str):
                lines = [lines]
            if p.get("faults") and r.random() < p["faults"] and name in (
                    "ins", "insr", "new", "asg", "copy", "acc", "era", "erai", "cap", "shr", "clr", "swap", "insc", "newc",
                    "hder", "hwr", "hval", "heq", "hera", "hcnv", "exp", "cex", "eq", "fro", "cb", "ccb", "mon", "sop", "stp"):
                ep.lines += ["O 1", fault(r, name)] + lines
                if sparse:
                    ep.lines.append("O 0")
                continue
            if sparse and name == "move":
                lines = ["O 1"] + lines + ["O 0"]
            elif sparse and r.random() < .04:
                lines = lines + ["O 1", "nop", "O 0"]
            ep.lines += lines
        ep.lines += ["O 1", "nop"]
        return ep
