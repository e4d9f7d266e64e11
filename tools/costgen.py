"""Scripts for the driver that counts work (see harness/cost_driver.cpp)."""
import random

CACHES, TIMED, WRAPPERS = [0, 1, 2, 3], {2, 3}, [4, 5]


class Episode:
    def __init__(self, eid, variant):
        self.id, self.variant = eid, variant
        self.lines = []

    def text(self):
        return ["E %d %d" % (self.id, self.variant)] + self.lines


def history(ep, events):
    return '{"id":%d,"ev":[%s]}' % (ep.id, ",".join(events))


def fill(n):
    """Insertions in batches of growing length."""
    out, done, size = [], 0, 8
    while done < n:
        k = min(size, n - done)
        out.append("ins %d" % k)
        done += k
        size = min(256, size * 2)
    return out


def all_sorts(r, timed, k=200):
    ops = ["get %d" % k, "same %d" % k, "upd %d" % k, "era %d" % (k // 4), "erai %d" % (k // 4), "ins %d" % (k // 2),
           "churn %d" % k, "shr %d" % (k // 8), "walk %d" % k, "conv %d" % k, "look 4", "insr %d" % k,
           "insr %d" % (k - 1), "swap 0", "get %d" % k, "churn %d" % k]
    if timed:
        ops += ["exp %d" % k, "tick 1", "exp %d" % k]
    r.shuffle(ops)
    return ops


def large(r, timed, n, cap):
    """Everything, with n entries in a cache with room for cap of them."""
    out = ["new %d" % cap] + fill(n) + all_sorts(r, timed)
    if r.random() < .7:
        out += ["mon 1000", "cb 0", "stats 200", "get 200", "upd 100"]
    out += ["copy 0", "tour 0"] + all_sorts(r, timed) + ["capd 100"] + all_sorts(r, timed) + ["ins 64"] * 8
    out += ["capd 7", "churn 200", "cap %d" % cap, "ins 100"]
    if timed:    # all of them expire
        out += ["tick 2000", "get 50", "upd 50", "exp 50", "churn 50", "ins 50", "exp 0", "get 50", "ins 50"]
    out += ["clr 0", "get 20", "churn 50", "ins 50", "copy 0", "tour 0"]
    return out


def boundary(r, low, high):
    """In and out at each size: no size makes that dear again and again."""
    out = ["new 1000000"] + fill(low)
    for _ in range(low, high):
        out += ["ins 1", "churn 40"]
    for _ in range(low, high, 1 + (high - low) // 100):
        out += ["churn 12", r.choice(["era 1", "erai 1", "shr 1"]), "ins 1", "shr 1"]
    return out


def small(r):
    """A long life with few entries in much room."""
    out = ["new 50000"] + fill(5)
    for _ in range(12):
        out += ["churn 2000", "upd 500", "get 500", "era 2", "ins 2", "tour 0", "copy 0", "look 3", "walk 8", "shr 1"]
    return out


def mixed(r, timed):
    out = ["new %d" % r.choice([0, 1, 2, 16, 100, 1000, 5000, 20000])]
    out += fill(r.choice([0, 1, 10, 100, 1000, 6000]))
    names = ["get", "same", "upd", "era", "erai", "ins", "ins", "churn", "shr", "walk", "conv", "look", "insr", "swap", "capd"]
    if timed:
        names += ["exp", "tick"]
    for _ in range(120):
        x = r.random()
        if x < .02:
            out.append("cap %d" % r.choice([1, 100, 1000, 20000]))
        elif x < .04:
            out.append(r.choice(["copy 0", "tour 0"]))
        elif x < .045:
            out.append("clr 0")
        else:
            out.append("%s %d" % (r.choice(names), r.choice([1, 2, 5, 20, 60])))
    return out


def episodes(first, seed, rounds=1):
    r = random.Random(seed)
    out = []

    def add(v, lines):
        ep = Episode(first + len(out), v)
        ep.lines = lines
        out.append(ep)

    for n in range(rounds):
        for v in CACHES:
            timed = v in TIMED
            for size, cap in [(60000, 70000), (40000, 40000), (5000, 5000), (300, 1000000)]:
                add(v, large(r, timed, size + r.randrange(size // 8), cap + cap // 8))
            low = r.choice([0, 900, 1700, 3300, 12000]) if n else [5000, 2000, 0, 1000][v]
            add(v, boundary(r, low, low + max(130, low // 11)))
            add(v, small(r))
            for _ in range(4):
                add(v, mixed(r, timed))
        for v in WRAPPERS:
            for cap, n in [(50000, 40000), (3000, 9000), (5, 2000)]:
                add(v, ["new %d" % cap] + fill(n) + ["get 200", "ins 200", "get 500", "ins 50", "get 100"])
    return out
