"""From a model to tours through the real code.

TLC explores a model exhaustively, checks the properties on every transition
and prints the transitions; here they become operation sequences that take
every transition of the model at least once, each abstract operation made
concrete in one of its forms (overloads, value categories, constness)."""
import os
import random
import re
from collections import deque

import gen
import run
import wrapgen

FORMS = {  # op: (position of the form argument, {abstract form: concrete ones})
    "acc": (2, {0: [0, 1, 2, 3, 10, 9], 4: [4, 5, 6, 7, 14, 13]}),
    "wr": (3, {0: [0, 1], 2: [2, 3], 4: [4, 5]}),
    "acn": (2, {0: [0, 1, 2, 3], 4: [4, 5, 6, 7]}),
    "new": (1, {2: [2, 19], 3: [3, 22], 4: [4, 23], 6: [6, 20], 7: [7, 21, 24]}),
    "ins": (3, {0: [0, 1, 2, 3, 4, 5, 6, 7]}),
    "insr": (1, {0: [0, 1, 2, 3, 4, 5, 6, 12, 13, 14, 15, 16]}),
    "asg": (1, {0: [0, 1, 2, 3, 4, 5, 6, 7, 8]}),
    "era": (2, {0: [0, 1]}),
    "erai": (2, {0: [0, 1, 2, 3]}),
    "copy": (2, {0: [0, 1, 2], 10: [10, 11]}),
    "swap": (2, {0: [0, 1, 2, 3]}),
    "cb": (3, {0: [0, 1, 2]}),
    "sta": (1, {0: [0, 1]}),
    "mon": (1, {7: [7, 8], 11: [11], 3: [3, 4, 5, 6], 12: [12, 13, 14, 15]}),
    "hder": (1, {0: [0, 5], 1: [1], 2: [2], 3: [3], 4: [4, 6]}),
    "hcnv": (2, {0: [0, 10], 1: [1, 11], 2: [2, 12], 3: [3, 4, 5, 6, 13], 7: [7, 17]}),
    "hswp": (2, {0: [0, 1, 2]}),
    "hwr": (2, {0: [0, 2], 1: [1]}),
}


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, int):
        return str(v)
    raise TypeError(v)


def seq(v):
    return "<<" + ", ".join(seq(x) if isinstance(x, tuple) else tla(x) for x in v) + ">>"


def module(model, dump):
    base = model.get("module", "LRU")
    c = dict(model["const"])
    for sets in ("Slots", "Handles", "Wrappers"):
        if sets in c:
            c[sets] = tuple(range(1, c[sets] + 1))
    defs, cfg = [], ["SPECIFICATION Spec", "CONSTANTS"]
    for k, v in c.items():
        if k == "Lists":
            defs.append("MCLists == {%s}" % ", ".join(seq(l) for l in v))
            cfg.append("  Lists <- MCLists")
        elif isinstance(v, tuple):   # negative numbers are not allowed in configurations
            defs.append("MC%s == {%s}" % (k, ", ".join(tla(x) for x in v)))
            cfg.append("  %s <- MC%s" % (k, k))
        else:
            cfg.append("  %s = %s" % (k, tla(v)))
    cfg.append("  Dump = %s" % tla(dump))
    cfg += ["VIEW View", "PROPERTY Lawful", "INVARIANT TypeOK", "CONSTRAINT Bounded",
            "ACTION_CONSTRAINT Emit", "CHECK_DEADLOCK FALSE"]
    text = "---- MODULE MC ----\nEXTENDS %s\n" % base + "\n".join(defs) + "\n====\n"
    return text, "\n".join(cfg) + "\n"


class Graph:
    def __init__(self):
        self.edges = {}     # state -> list of [op, args, list, successor, interrupted?]
        self.root = None
        self.states = self.transitions = 0
        self.ops = {}


def explore(work, model, timeout=600, dump=True):
    """Model checks the model; returns its transition graph."""
    assert model.get("module") or all((v in gen.TIMED) == model["const"]["Timed"] for v in model["variants"]), model["name"]
    text, cfg = module(model, dump)
    code, out = run.tlc(work, "MC.tla", cfg, {}, timeout, files={"MC.tla": text}, memory="4g")
    if code != 0 or "No error has been found" not in out:
        lines = [l for l in out.splitlines() if not l.startswith('<<"T"')]
        raise run.ToolFailure("model %s: the specification violates its properties:\n%s"
                              % (model["name"], "\n".join(lines[-40:])[:3000]))
    g = Graph()
    g.transitions, g.states = run.states_of(out)
    pattern = re.compile(r'<<"T", (-?\d+), (-?\d+), "(\w+)", <<([^>]*)>>, <<(.*)>>, (TRUE|FALSE)>>$')
    seen = {}
    flat = re.sub(r'\n\s+', ' ', out).replace("<< ", "<<").replace(" >>", ">>")
    for line in flat.split("\n"):
        m = pattern.match(line)
        if not m:
            continue
        s, t, op = int(m[1]), int(m[2]), m[3]
        a = tuple(int(x) for x in m[4].split(","))
        l = tuple((int(x), int(y)) for x, y in re.findall(r"<<(-?\d+), (-?\d+)>>", m[5]))
        if g.root is None:
            g.root = s
        fault = m[6] == "TRUE"
        g.edges.setdefault(t, [])
        edge = seen.get((s, op, a, l, fault))
        if edge is not None:
            # several outcomes: expect the one that changes something, if any,
            # and after an exception the one that changes nothing
            if (edge[3] == s) != fault:
                edge[3] = t
            continue
        edge = seen[(s, op, a, l, fault)] = [op, a, l, t, fault]
        g.edges.setdefault(s, []).append(edge)
        g.ops[op] = g.ops.get(op, 0) + 1
    if g.root is not None:
        canonical(g)
    return g


def design(work, d, slip="", timeout=800):
    """Explores the model of a design: (states, transitions), or None if it breaks what is checked of it."""
    defs, cfg = [], [d["behaviour"], "CONSTANTS"]
    for k, v in dict(d["const"], Slip=slip).items():
        if isinstance(v, tuple):
            defs.append("MC%s == {%s}" % (k, ", ".join(seq(x) if isinstance(x, tuple) else tla(x) for x in v)))
        elif isinstance(v, int) and v < 0:
            defs.append("MC%s == %d" % (k, v))
        else:
            cfg.append("  %s = %s" % (k, tla(v)))
            continue
        cfg.append("  %s <- MC%s" % (k, k))
    cfg += [d["checked"], "CHECK_DEADLOCK FALSE"]
    text = "---- MODULE MC ----\nEXTENDS %s\n" % d["module"] + "\n".join(defs) + "\n====\n"
    code, out = run.tlc(work, "MC.tla", "\n".join(cfg) + "\n", {}, timeout, files={"MC.tla": text}, memory="6g")
    if code == 0 and "No error has been found" in out:
        return run.states_of(out)
    if "is violated" in out or "line" in out and "violated" in out:
        return None
    raise run.ToolFailure("design %s: %s" % (d["name"], out[-2000:]))


def canonical(g):
    """The same graph, numbered breadth first: TLC's order varies from run to run."""
    number, todo = {g.root: 0}, deque([g.root])
    edges = {}
    while todo:
        s = todo.popleft()
        es = sorted(g.edges.get(s, []), key=lambda e: e[:3] + e[4:])
        for e in es:
            if e[3] not in number:
                number[e[3]] = len(number)
                todo.append(e[3])
        edges[number[s]] = es
    for es in edges.values():
        for e in es:
            e[3] = number[e[3]]
    g.edges, g.root = edges, 0


def shares(counts, budget):
    """Deals the budget out evenly among the operations, as far as each has use for it."""
    out, left = {}, budget
    for i, (op, n) in enumerate(sorted(counts.items(), key=lambda x: (x[1], x[0]))):
        out[op] = min(n, left // (len(counts) - i))
        left -= out[op]
    return out


def walks(g, limit, rng, budget=None):
    """Paths from the root that together take every edge (or `budget` of them,
    half of them drawn evenly from the operations, the rest from all)."""
    total = sum(len(es) for es in g.edges.values())
    if budget is None or budget >= total:
        left = {s: deque(rng.sample(es, len(es))) for s, es in g.edges.items()}
    else:
        left = {s: deque() for s in g.edges}
        every = {}
        for s, es in g.edges.items():
            for e in es:
                every.setdefault(e[0], []).append((s, e))
        rest = []
        for op, n in shares({op: len(es) for op, es in every.items()}, budget // 2).items():
            es = rng.sample(every[op], len(every[op]))
            rest += es[n:]
            for s, e in es[:n]:
                left[s].append(e)
        for s, e in rng.sample(rest, budget - sum(len(d) for d in left.values())):
            left[s].append(e)
        for d in left.values():
            rng.shuffle(d)
    remaining = sum(len(d) for d in left.values())
    out = []

    def nearest(s):
        """A shortest path from s to a state with an untaken edge."""
        prev, todo = {s: None}, deque([s])
        while todo:
            u = todo.popleft()
            if left.get(u) and u != s:
                path = []
                while prev[u]:
                    p, e = prev[u]
                    path.append(e)
                    u = p
                return path[::-1]
            for e in g.edges[u]:
                if e[3] not in prev:
                    prev[e[3]] = (u, e)
                    todo.append(e[3])
        return None

    taken = set()
    while remaining:
        s, path = g.root, []
        while len(path) < limit and remaining:
            if left.get(s):
                e = left[s].popleft()
                remaining -= 1
                path.append(e)
                s = e[3]
                continue
            more = nearest(s)
            if more is None or (path and len(path) + len(more) > limit + 20):
                break
            path += more
            s = more[-1][3]
        if not path:
            break
        out.append(path)
        taken.update(id(e) for e in path)
    return out, len(taken), total


class Concrete:
    """Makes abstract operations concrete for one instantiation."""

    def __init__(self, model, rng):
        self.m, self.r = model, rng
        self.turn = {}
        self.fresh = 10

    def next(self, key, n):
        i = self.turn.get(key)
        if i is None:
            i = self.r.randrange(n)
        self.turn[key] = i + 1
        return i % n

    def value(self, v):
        if not self.m["fresh"]:
            return v
        if self.r.random() < .15:
            return self.r.randint(10, max(10, self.fresh))
        self.fresh = 10 + (self.fresh - 9) % 9000
        return self.fresh

    def key(self, k, variant):
        if variant in gen.CUSTOM and 7 not in self.m["const"]["Fids"] and k != 0:
            return k * 10 + 1
        return k

    def line(self, op, a, l, variant):
        a = list(a)
        l = [(self.key(k, variant), v if op == "mon" else self.value(v)) for k, v in l]
        at = {"acc": 1, "acn": 1, "wr": 1, "ins": 1, "era": 1, "erai": 1, "sop": 2, "exp": 2, "hget": 4}.get(op)
        if at is not None:
            a[at] = self.key(a[at], variant)
        if op in ("ins", "wr"):
            a[2] = self.value(a[2])
        if op == "acc" and a[3]:
            a[4] = self.r.choice([1, 1, 2])
        if op == "acn":
            a[3] = self.r.choice([2, 3, 255, 256, 300])
            a[4] = self.next(("acn", variant), 2)
        if op == "hwr":
            a[1] = self.value(a[1])
        if op == "new" and variant in gen.CUSTOM and 7 not in self.m["const"]["Fids"]:
            a[4] = 7
        if op == "hget" and a[3] == 3 and self.next("hc", 2):
            a[2] = {0: 2, 1: 3}.get(a[2], a[2])
        if op in FORMS:
            pos, table = FORMS[op]
            forms = table.get(a[pos])
            if forms:
                f = forms[self.next((op, a[pos], variant), len(forms))]
                n = len(l)
                if op == "asg" and f in (3, 5) and not (1 <= n <= 3):
                    f = 0
                if op == "insr" and f == 4 and n > 4:
                    f = 0
                a[pos] = f
        if op == "new" and a[1] in (8, 9) and len(l) > 4:
            a[1] = 7 if a[1] == 8 else 6
        text = "%s %s" % (op, " ".join(str(x) for x in a))
        if l or op in ("new", "asg", "insr", "mon"):
            text += " | " + " ".join("%d %d" % p for p in l)
        return text


def wrap_episodes(g, model, first_id, seed, limit=120, budget=None):
    """The tours of a model of the wrappers."""
    rng = random.Random(seed)
    paths, covered, total = walks(g, limit, rng, budget)
    eps = []
    fresh = 0
    for n, path in enumerate(paths):
        ep = wrapgen.Episode(first_id + n, rng.choice(wrapgen.TICKS))
        kinds = {}
        for op, a, _, _, _ in path:
            a = list(a)
            if op == "mk":
                a[2] = rng.randrange(12)
                kinds[a[0]] = a[1]
                if a[1] not in (2, 3):
                    a[1] = rng.choice(wrapgen.PLAIN)
            if op == "call":
                fresh = (fresh + 1) % 9000
                a[3] = 100 * fresh
                a[5] = rng.randrange(12)
            ep.lines.append("%s %s" % (op, " ".join(str(x) for x in a)))
        eps.append(ep)
    return eps, covered, total


def episodes(g, model, first_id, seed, limit=120, budget=None):
    """The tours of a model, dealt out over its instantiations."""
    rng = random.Random(seed)
    paths, covered, total = walks(g, limit, rng, budget)
    con = Concrete(model, rng)
    eps = []
    variants = model["variants"]
    gran = model["const"]["Gran"]
    for n, path in enumerate(paths):
        v = variants[n % len(variants)]
        tick, gr = 1, gran
        if v in gen.TIMED:
            choices = [t for t in gen.TICKS[v] if t[1] == gran] or [(gen.TICKS[v][0][0], 1)]
            tick, gr = rng.choice(choices)
        ep = gen.Episode(first_id + n, v, tick, gr)
        for op, a, l, _, fault in path:
            text = con.line(op, a, l, v)
            if fault:
                ep.lines.append(gen.fault(rng, op))
            ep.lines.append(text)
        eps.append(ep)
    return eps, covered, total
