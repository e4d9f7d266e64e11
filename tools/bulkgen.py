"""Histories of caches with many entries (see harness/bulk_driver.cpp, spec/Bulk.tla)."""
import random

CACHES, TIMED = [0, 1, 2, 3, 4], {2, 4}
TRACKED = {3, 4}
LIFE = 1000
LISTS = [3, 20, 65, 130, 300]      # lengths of lists the driver knows


# the properties that Bulk.tla has something to say about
PROPERTIES = ["C%02d" % n for n in (1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 24, 25, 30)]


class Episode:
    def __init__(self, eid, variant):
        self.id, self.variant = eid, variant
        self.lines = []

    def text(self):
        return ["E %d" % self.id] + self.lines


def history(ep, events):
    return '{"id":%d,"ev":[%s]}' % (ep.id, ",".join(events))


# What a property is about is done more often.
WEIGHTS = {
    "C01": {"lok": 10}, "C02": {"cap": 6, "shr": 4, "rem": 4}, "C03": {"fil": 10, "lok": 6}, "C04": {"lok": 10},
    "C05": {"rem": 10, "shr": 6, "cap": 6, "clr": 1, "cex": 3}, "C06": {"fil": 10}, "C07": {"nop": 6}, "C08": {"rem": 6},
    "C10": {"copy": 10}, "C11": {"move": 5, "swap": 8, "copy": 3}, "C12": {"eq": 12, "copy": 6, "lok": 2},
    "C13": {"new": 10, "asg": 6, "del": 6}, "C14": {"mon": 2, "lok": 8}, "C15": {"mon": 2, "sop": 6, "lok": 8},
    "C16": {"mon": 4, "stp": 3, "lok": 6}, "C17": {"cb": 3, "ccb": 1, "lok": 6}, "C18": {"tick": 8, "lok": 6},
    "C19": {"tick": 8, "fil": 8}, "C20": {"tick": 8, "cex": 5, "aex": 5}, "C24": {"copy": 3, "move": 2, "swap": 2},
    "C25": {"rem": 5, "del": 3, "copy": 3}, "C30": {"fil": 6, "lok": 4, "rem": 4, "shr": 3, "cap": 3, "cex": 2, "tick": 1},
}
USUAL = {"fil": 6, "lok": 6, "rem": 2, "shr": 1, "cap": 1, "clr": 0.3, "new": 1, "del": 0.7, "copy": 1, "move": 0.5, "swap": 0.7,
         "eq": 0.5, "asg": 0.5, "tick": 2, "cex": 0.5, "aex": 0.3, "nop": 0.3}
MONITORING = {"mon": 1, "stp": 0.3, "sop": 1}
CALLING = {"cb": 0.5, "ccb": 0.2}
STATED = {"C10", "C14", "C15", "C16", "C17"}     # properties with statistics and callbacks in their histories


class Gen:
    def __init__(self, seed, prop):
        self.r, self.prop = random.Random(seed), prop

    def episode(self, eid, variant, size, steps):
        r = self.r
        ep = Episode(eid, variant)
        self.caps = {}
        self.timed = variant in TIMED
        weights = dict(USUAL)
        if self.prop in STATED or r.random() < .3:
            weights.update(MONITORING)
            weights.update(CALLING)
        for op, n in WEIGHTS.get(self.prop, {}).items():
            weights[op] = weights.get(op, 0) + n
        if not self.timed:
            for op in ("tick", "cex", "aex"):
                weights.pop(op, None)
        self.size = size
        self.slots = r.choice([1, 2, 3]) if self.prop not in ("C10", "C11", "C12") else 3
        self.stats = 0
        self.callbacks = 0
        self.monitored = set()
        ep.lines = [self.new(1), "fil 1 %d %d %d %d" % (1, self.caps[1] + r.choice([0, 1, -1, self.caps[1] // 3]), 5, r.randint(0, 5))]
        names, ws = zip(*weights.items())
        tries = 0
        while len(ep.lines) < steps and tries < 20 * steps:
            tries += 1
            line = self.line(r.choices(names, ws)[0])
            if line:
                ep.lines.append(line)
        return ep

    def capacity(self):
        r = self.r
        return max(0, r.choice([self.size, self.size, self.size + r.randint(-9, 9), self.size // 2, r.randint(0, 2 * self.size)]))

    def keys(self):
        """A run of keys."""
        r, s = self.r, self.size
        n = r.choice([1, 2, r.randint(1, 20), r.randint(1, s), r.randint(1, s), s // 10 + 1, s])
        return r.randint(1, 2 * s), n

    def new(self, s):
        r = self.r
        form = r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7])
        k, n = self.keys()
        if form >= 6:
            n = r.choice(LISTS)
        cap = self.capacity()
        self.caps[s] = cap if form in (0, 1, 2, 6) else max(128, n) if form < 5 else n
        ttl = r.choice([LIFE, LIFE, 10 * LIFE, 0]) if self.timed else -1
        return "new %d %d %d %d %d %d %d" % (s, ttl, form, cap, k, n, r.randint(0, 9))

    def line(self, op):
        r = self.r
        on = sorted(self.caps)
        free = [s for s in range(1, self.slots + 1) if s not in self.caps]
        if op == "tick":
            return "tick %d" % r.choice([1, LIFE // 2, LIFE - 1, LIFE, LIFE + 1, 3 * LIFE])
        if op == "nop":
            return "nop"
        if op == "new":
            return self.new(free[0]) if free else None
        if not on:
            return None
        s = r.choice(on)
        k, n = self.keys()
        d = r.randint(0, 9)
        if op == "del":
            if len(on) < 2:
                return None
            del self.caps[s]
            return "del %d" % s
        if op == "copy":
            t = r.choice([x for x in range(1, self.slots + 1) if x != s] or [0])
            if not t:
                return None
            self.caps[t] = self.caps[s]
            return "copy %d %d" % (t, s)
        if op == "move":
            t = r.choice([x for x in range(1, self.slots + 1) if x != s] or [0])
            if not t:
                return None
            self.caps[t] = self.caps.pop(s)
            return "move %d %d" % (t, s)
        if op in ("swap", "eq"):
            t = r.choice(on)
            if t == s and r.random() < .9:
                return None
            if op == "eq":
                return "eq %d %d" % (s, t)
            self.caps[s], self.caps[t] = self.caps[t], self.caps[s]
            return "swap %d %d %d" % (s, t, r.randint(0, 1))
        if op == "asg":
            form = r.randint(0, 2)
            if form == 2:
                n = r.choice(LISTS)
            self.caps[s] = max(self.caps[s], n)
            return "asg %d %d %d %d %d" % (s, k, n, d, form)
        if op == "fil":
            if r.random() < .15:
                return "fil %d %d %d %d 6" % (s, k, r.choice(LISTS), d)
            return "fil %d %d %d %d %d" % (s, k, n, d, r.randint(0, 5))
        if op == "lok":
            return "lok %d %d %d %d" % (s, k, n, r.randint(0, 6))
        if op == "rem":
            if n > self.size // 2 and r.random() < .6:
                n = n // 4 + 1
            return "rem %d %d %d %d" % (s, k, n, r.randint(0, 3))
        if op == "shr":
            return "shr %d %d" % (s, r.choice([0, 1, r.randint(0, self.size), r.randint(0, self.size // 10), self.size // 2, self.size * 3 // 4, self.size]))
        if op == "cap":
            c = self.capacity()
            self.caps[s] = c
            return "cap %d %d" % (s, c)
        if op == "clr":
            return "clr %d" % s
        if op in ("cex", "aex", "stp"):
            return "%s %d" % (op, s)
        if op == "mon":
            if self.stats >= 5:
                return None
            self.stats += 1
            return "mon %d %d %d" % (s, k, r.choice([0, 1, min(n, 300)]))
        if op == "sop":
            return "sop %d %d %d %d" % (s, r.choice([0, 0, 1, 1, 2, 3]), k, min(n, 300))
        if op == "cb":
            if self.callbacks >= 6:
                return None
            self.callbacks += 1
            return "cb %d %d %d" % (s, r.randint(0, 2), r.choice([1, 1, 2, 40, 300]) if self.size < 400 else r.choice([1, 1, 2, 3]))
        if op == "ccb":
            return "ccb %d %d" % (s, r.randint(0, 2))

    def giant(self, eid, variant, size, form):
        """Few operations, each on all of a very large number of entries."""
        r = self.r
        ep = Episode(eid, variant)
        self.timed, self.size, self.slots, self.stats, self.callbacks = variant in TIMED, size, 2, 0, 0
        self.caps = {1: size}
        ttl = LIFE if self.timed else -1
        ep.lines = ["new 1 %d 0 %d 1 0 0" % (ttl, size)]
        if self.prop in ("C14", "C15", "C16"):
            ep.lines.append("mon 1 1 %d" % (size if r.random() < .5 else 300))
        if self.prop == "C17":
            ep.lines += ["cb 1 %d 1" % k for k in (0, 1, 2)]
        ep.lines.append("fil 1 1 %d 5 %d" % (size, form))
        names = [n for n in WEIGHTS.get(self.prop, {}) if n not in ("clr", "del", "mon", "stp", "cb", "ccb", "nop", "new") and
                 (self.timed or n not in ("tick", "cex", "aex"))] or ["lok"]
        if self.prop == "C13":
            ep.lines.append("del 1")
            ep.lines.append("new 1 %d %d %d 1 %d 3" % (ttl, r.randint(1, 5), size, size))
        r.shuffle(names)
        for op in names[:3]:
            k = r.choice([1, 1, r.randint(1, size)])
            if op == "tick":
                ep.lines.append("tick %d" % r.choice([LIFE, LIFE + 1]))
            elif op == "fil":
                ep.lines.append("fil 1 %d %d %d %d" % (r.choice([k, size + 1]), size, r.randint(5, 6), r.randint(2, 4)))
            elif op == "lok":
                ep.lines.append("lok 1 %d %d %d" % (k, size, r.randint(0, 6)))
            elif op == "rem":
                ep.lines.append("rem 1 %d %d %d" % (k, size, r.randint(0, 3)))
            elif op in ("shr", "cap"):
                ep.lines.append("%s 1 %d" % (op, r.randint(0, 300)))
            elif op == "asg":
                ep.lines.append("asg 1 %d %d 5 %d" % (k, size, r.randint(0, 1)))
            elif op == "copy":
                ep.lines += ["copy 2 1", "fil 2 %d 2 7 0" % k]
            elif op in ("move", "swap"):
                ep.lines += ["new 2 %d 0 7 1 0 0" % ttl, "fil 2 3 7 6 0", "swap 1 2 %d" % r.randint(0, 1) if op == "swap" else "move 2 1"]
                if op == "move":
                    break
            elif op == "eq":
                ep.lines += ["copy 2 1", "eq 1 2", "lok 2 %d 1 0" % r.randint(size // 2, size - 1), "eq 1 2"]
            elif op == "sop":
                ep.lines.append("sop 1 %d 1 %d" % (r.choice([0, 1]), size))
            else:
                line = self.line(op)
                if line:
                    ep.lines.append(line)
        return ep

    def calls(self, eid, variant, size, steps):
        """Of a wrapped function."""
        r = self.r
        ep = Episode(eid, variant)
        self.size = size
        timed = variant in TIMED
        cap = self.capacity()
        ep.lines = ["wrap 1 %d %d" % (r.choice([LIFE, LIFE, 0]) if timed else -1, cap)]
        while len(ep.lines) < steps:
            if timed and r.random() < .3:
                ep.lines.append("tick %d" % r.choice([1, LIFE // 2, LIFE - 1, LIFE, LIFE + 1]))
            else:
                k, n = self.keys()
                ep.lines.append("call 1 %d %d %d" % (k, n, r.randint(0, 9)))
        return ep


def episodes(first, seed, prop, variants, rounds=1):
    out = []
    r = random.Random(seed)
    for n in range(rounds):
        for v in variants:
            sizes = [r.randint(900, 1100), r.randint(3900, 4300), 2 ** r.randint(7, 12), r.randint(60, 400), r.randint(5000, 20000)]
            sizes += [r.randint(8, 60), r.randint(60, 300)] * 4
            for size in sizes:
                g = Gen(r.randrange(1 << 40), prop)
                steps = 10 if size > 40000 else 18 if size > 2000 else 40
                out.append((g.calls if prop in ("C21", "C22") else g.episode)(first + len(out), v, size, steps))
        for i, v in enumerate(variants * 2):
            if prop in ("C21", "C22"):
                if i == n % len(variants):
                    out.append(Gen(r.randrange(1 << 40), prop).calls(first + len(out), v, 70000, 6))
            else:
                out.append(Gen(r.randrange(1 << 40), prop).giant(first + len(out), v, r.choice([65540, 66000, 70000]), 2 + (i + n) % 3))
    return out


def variants_for(prop):
    if prop in ("C18", "C19", "C20", "C22"):
        return [2, 4]
    if prop == "ALL":
        return CACHES
    if prop == "C21":
        return [0, 1, 3]
    if prop == "C25":
        return [3, 4]
    if prop == "C24":
        return [3, 4]
    return [[0, 2], [1, 3], [1, 4], [0, 4], [2, 3]][int(prop[1:]) % 5]
