"""Seeded random scripts for the driver of wrapped functions (see
harness/wrap_driver.cpp)."""
import random

TICKS = [1000000, 250000, 1000000000, 1000]
PLAIN = [0, 1, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]   # kinds of functions that do not call their wrapper
NULLARY, RECURSIVE = 2, 3
GENERIC = [14, 15, 16, 17, 18]             # one function called with arguments of different types


class Episode:
    def __init__(self, eid, tick):
        self.id, self.tick = eid, tick
        self.variant = 0
        self.lines = []

    def text(self):
        return ["E %d %d" % (self.id, self.tick)] + self.lines


def history(ep, events):
    return '{"id":%d,"ev":[%s]}' % (ep.id, ",".join(events))


def make(r, h, timed, mixed):
    kind = r.choice(PLAIN + [NULLARY, RECURSIVE, RECURSIVE, r.choice(GENERIC)])
    if mixed is not None and r.random() < .7:
        kind = mixed
    cap = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 6, 8])
    if r.random() < .06:
        cap = -1
    ttl = r.choice([0, 1, 2, 3, 5]) if timed else -1
    return kind, "mk %d %d %d %d %d" % (h, kind, r.randrange(12), cap, ttl)


def episode(eid, seed, timed, length=90):
    r = random.Random(seed)
    ep = Episode(eid, r.choice(TICKS))
    n = r.choice([1, 2, 2, 3, 4])
    mixed = r.choice([None] + PLAIN)     # wrappers of the same function type, mostly
    kinds, fresh = {}, 0
    for h in range(1, n + 1):
        kinds[h], line = make(r, h, timed, mixed)
        ep.lines.append(line)
    if r.random() < .12:
        types = r.sample(GENERIC, len(GENERIC))
        cap, ttl = r.choice([1, 2, 2, 3, -1]), r.choice([0, 1, 2, 3, 5]) if timed else -1
        for h in range(1, n + 1):
            kinds[h] = types[h]
            ep.lines.append("mk %d %d %d %d %d %d" % (h, kinds[h], r.randrange(12), cap, ttl, 1 if h > 1 else 0))
    size = r.choice([2, 3, 4, 6, 9])
    if r.random() < .012:               # fill a cache of default capacity
        kinds[1] = r.choice([0, 5, 8])
        ep.lines.append("mk 1 %d 0 -1 %d" % (kinds[1], 5 if timed else -1))
        for k in list(range(131)) + [130, 3, 2, 1, 0, 129, 4, 5, 6]:
            fresh += 1
            ep.lines.append("call 1 %d -1 %d 0 %d" % (k, 1000 * fresh, r.randrange(12)))
    while len(ep.lines) < length:
        x = r.random()
        h = r.randint(1, n)
        if x < .02:
            kinds[h], line = make(r, h, timed, mixed)
            ep.lines.append(line)
        elif x < .03:
            ep.lines.append("rm %d" % h)
        elif timed and x < .2:
            ep.lines.append("tick %d" % r.choice([1, 1, 1, 2, 3]))
        elif timed and x < .21:
            ep.lines.append("sysj %d" % r.choice([-1000, 1000]))
        else:
            k = 0 if kinds[h] == NULLARY else r.randrange(size)
            fresh += 1
            thr = -1
            if r.random() < .15:
                thr = r.randint(0, k) if kinds[h] == RECURSIVE else k
            dur = r.choice([0, 0, 0, 1, 2]) if timed else 0
            ep.lines.append("call %d %d %d %d %d %d" % (h, k, thr, 1000 * fresh, dur, r.randrange(12)))
    return ep
