#!/usr/bin/env python3
"""Decides one property for the tree under test.

    check.py <property> [--tier quick|thorough] [--seed N]
    check.py --replay <file>

 1. TLC explores the models of the specification (spec/LRU.tla) that matter to
    the property, checking the properties on every transition, and prints the
    transitions;
 2. the transitions become tours through the real code, and random histories
    are generated besides;
 3. the driver, compiled from the tree under test, runs them and records what
    the code does;
 4. TLC validates the recordings against the specification (spec/Trace.tla).

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION
line: it does not hold.  Anything else: the check itself failed.
"""
import argparse
import json
import os
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bulkgen
import costgen
import gen
import models
import run
import threads
import tours
import wrapcheck
import wrapgen

BULK_SECONDS = 90           # for caches with many entries, in the thorough tier
THOROUGH_SECONDS = 480      # when the thorough tier stops starting new rounds
MAX_REPORTED = 3


def known_findings(prop):
    """The findings listed for the property: (signature, text)."""
    out = []
    path = os.path.join(run.ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2].strip()
                sig, _, text = rest.partition(" ")
                out.append((sig, text))
    return out


def hash_of(text):
    h = 7
    for c in text:
        h = (h * 31 + ord(c)) % 1000000007
    return h


class Check:
    """Of a property of the caches."""
    quick_edges = 7000          # transitions taken per model by the quick tier
    quick_random = 480          # random histories of the quick tier
    thorough_edges = 60000
    thorough_round = 1500       # random histories per round of the thorough tier

    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0,
                    "evaluations": 0, "models": [], "samples": [], "operations": {}}
        self.found = []
        self.next_id = 1
        self.spec = models.PROPERTIES.get(prop)

    # -- what differs between caches and wrappers
    def build(self, chosen):
        variants = {v for m in chosen for v in m["variants"]} | {v for p in self.spec["random"] for v in p["variants"]}
        return run.build(self.work, sorted(variants))

    def execute(self, episodes, binaries):
        return run.execute(self.work, binaries, episodes)

    def validate(self, episodes, histories):
        return run.validate(self.work, self.prop, episodes, histories)

    def tours(self, graph, model, budget):
        return tours.episodes(graph, model, self.next_id, self.seed, budget=budget)

    def random_episode(self, eid, i, seed):
        """Random histories are dealt out over the profiles of the property."""
        profiles = self.spec["random"]
        p = profiles[i % len(profiles)]
        v = p["variants"][(i // len(profiles)) % len(p["variants"])]
        return gen.Gen(seed, p).episode(eid, v)

    @staticmethod
    def like(ep, lines, eid=None):
        e = gen.Episode(eid or ep.id, ep.variant, ep.tick, ep.gran, ep.custom)
        e.universe = ep.universe
        e.lines = list(lines)
        return e

    @staticmethod
    def described(ep):
        return {"script": ep.text(), "variant": ep.variant, "tick": ep.tick, "gran": ep.gran}

    @staticmethod
    def restored(v):
        head = v["script"][0].split()
        ep = gen.Episode(1, v["variant"], v["tick"], v["gran"], int(head[4]))
        ep.universe = int(head[3])
        ep.lines = v["script"][1:]
        return ep

    def build_for(self, ep):
        return run.build(self.work, [ep.variant])

    # -- running and judging
    def conforms(self, episodes, binaries):
        """Runs and validates episodes; returns confirmed violations."""
        histories, failures = self.execute(episodes, binaries)
        rejected, stats = self.validate(episodes, histories)
        byid = {e.id: e for e in episodes}
        self.cov["traces_validated_against_impl"] += stats["traces"]
        self.cov["events_validated"] += stats["events"]
        self.cov["evaluations"] += len(episodes)
        for h in histories.values():
            for line in h:
                op = line.split('"op":"', 1)[1].split('"', 1)[0]
                self.cov["operations"][op] = self.cov["operations"].get(op, 0) + 1
        if histories and len(self.cov["samples"]) < 6:
            ep = next(e for e in episodes if e.id in histories)
            self.cov["samples"].append({"script": ep.text()[:12], "recorded": [
                json.loads(l) for l in histories[ep.id][:2]]})
        out = []
        for f in failures[:MAX_REPORTED]:
            v = self.confirm_failure(f, binaries)
            if v:
                out.append(v)
        for i in sorted(rejected, key=lambda i: rejected[i][0])[:MAX_REPORTED]:
            out.append(self.confirm_rejection(byid[i], rejected[i], binaries, histories[i]))
        return out

    def confirm_failure(self, f, binaries):
        """A crash must repeat in the episode by itself to be reported."""
        company = getattr(f.episode, "company", None)
        h, again = self.execute([f.episode], binaries)
        if not again:
            if f.kind == "leak":     # which episode leaked is not known
                return {"kind": f.kind, "detail": f.detail, "script": None}
            for before in self.companies(company):
                h, again, _ = run.run_driver(self.work, binaries[f.episode.variant], before + [f.episode], "company")
                if again:
                    return dict(self.described(f.episode), kind=again[0].kind, detail=again[0].detail, step=None,
                                company=[self.described(e) for e in before])
            raise run.ToolFailure("a %s did not repeat: %s" % (f.kind, f.detail))
        ev = h.get(f.episode.id, [])
        return dict(self.described(f.episode), kind=again[0].kind, detail=again[0].detail, step=len(ev) + 1,
                    recorded=[json.loads(l) for l in ev[-3:]])

    @staticmethod
    def companies(company):
        """More and more of what ran in the process before."""
        eps, at = company or ((), 0)
        sizes = sorted({min(n, at) for n in (1, 4, 16, 64, 256, at)} - {0})
        return [list(eps[at - n:at]) for n in sizes]

    def confirm_rejection(self, ep, why, binaries, recorded):
        company, original = getattr(ep, "company", None), ep
        ep = self.truncate(ep, why[0], binaries)
        h, f = self.execute([ep], binaries)
        rejected, _ = self.validate([ep], h)
        if ep.id not in rejected:
            # Something survived from the episodes before.
            for before in self.companies(company):
                h, f, _ = run.run_driver(self.work, binaries[original.variant], before + [original], "company")
                rejected, _ = self.validate([original], h)
                if rejected:
                    step = rejected[original.id][0]
                    return dict(self.described(original), kind="rejected", detail=why[1], step=step,
                                company=[self.described(e) for e in before],
                                recorded=[json.loads(l) for l in h[original.id][max(0, step - 2):step]])
            # A recording that the specification does not explain was made all the same.
            if not self.validate([original], {original.id: recorded})[0]:
                raise run.ToolFailure("the rejection of an episode did not repeat")
            return dict(self.described(original), kind="rejected", detail=why[1] + " (not every time)", step=why[0],
                        company=[self.described(e) for e in (self.companies(company) or [[]])[-1]],
                        recorded=[json.loads(l) for l in recorded[max(0, why[0] - 2):why[0]]])
        ep, step, events = self.shrink(ep, rejected[ep.id][0], h[ep.id], binaries)
        return dict(self.described(ep), kind="rejected", detail=why[1], step=step,
                    recorded=[json.loads(l) for l in events[max(0, step - 2):step]])

    def again(self, v, ep, binaries):
        """Runs a reported history again, after those it was reported with."""
        before = [self.restored(d) for d in v.get("company", ())]
        for n, e in enumerate(before):
            e.id = n + 2
        h, f, _ = run.run_driver(self.work, binaries[ep.variant], before + [ep], "again")
        rejected, _ = self.validate([ep], {ep.id: h[ep.id]} if ep.id in h else {})
        return h, f, rejected

    def truncate(self, ep, step, binaries):
        """The episode up to the rejected step, if that is still rejected."""
        count = 0
        for k, line in enumerate(ep.lines):
            if line[0] not in "OF":
                count += 1
            if count == step:
                short = self.like(ep, ep.lines[:k + 1])
                h, _ = self.execute([short], binaries)
                rejected, _ = self.validate([short], h)
                return short if short.id in rejected else ep
        return ep

    def shrink(self, ep, step, events, binaries, rounds=8, seconds=60):
        """Tries to leave out operations; all candidates of a round in one go."""
        best = (ep, step, events)
        size = max(1, len(ep.lines) // 4)
        start = time.time()
        for _ in range(rounds):
            ep = best[0]
            if time.time() - start > seconds:
                break
            cands = [self.like(ep, ep.lines[:i] + ep.lines[i + size:], 900000 + i)
                     for i in range(0, len(ep.lines), size)]
            cands = [c for c in cands if c.lines][-60:]
            try:
                h, f = self.execute(cands, binaries)
                if f:
                    break
                rejected, _ = self.validate(cands, h)
            except run.ToolFailure:
                break
            good = [c for c in cands if c.id in rejected]
            if good:
                c = min(good, key=lambda c: len(c.lines))
                best = (c, rejected[c.id][0], h[c.id])
                size = min(size, max(1, len(c.lines) // 4))
            elif size == 1:
                break
            else:
                size = max(1, size // 2)
        return best

    # -- the two tiers
    def run(self):
        quick = self.tier == "quick"
        chosen = self.spec["models"] + ([] if quick else self.spec["more"])
        start = time.time()
        with ThreadPoolExecutor(4) as ex:
            building = ex.submit(self.build, chosen)
            graphs = [ex.submit(tours.explore, self.work, m, timeout=1500) for m in chosen]
            planned = []
            for m, graph in zip(chosen, graphs):
                g = graph.result()
                eps, covered, total = self.tours(g, m, self.quick_edges if quick else self.thorough_edges)
                self.next_id += len(eps)
                self.cov["states"] += g.states
                self.cov["transitions"] += g.transitions
                self.cov["models"].append({
                    "model": m["name"], "states": g.states, "transitions": g.transitions, "actions": g.ops,
                    "transitions_taken_by_tours": covered, "distinct_transitions": total, "tours": len(eps)})
                planned += eps
            explored = time.time()
            binaries = building.result()
        self.cov["seconds"] = {"exploring": round(explored - start), "building": round(time.time() - explored)}
        self.designs(quick)
        if quick:
            planned += self.random(self.quick_random)
            self.found += self.conforms(planned, binaries)
        else:
            size = 4000
            for i in range(0, len(planned), size):
                if not self.found:
                    self.found += self.conforms(planned[i:i + size], binaries)
            rounds = 0
            while not self.found and time.time() - start < THOROUGH_SECONDS:
                self.found += self.conforms(self.random(self.thorough_round), binaries)
                rounds += 1
            self.cov["random_rounds"] = rounds
        self.cov["seconds"]["running_and_validating"] = round(time.time() - start - sum(self.cov["seconds"].values()))
        self.cov["random_histories"] = self.cov["evaluations"] - sum(m.get("tours", 0) for m in self.cov["models"])

    def designs(self, quick):
        """Explores the models of how it is done; in the thorough tier, each
        mistake put into them must be found."""
        first, more = models.DESIGNS.get(self.prop, ((), ()))
        for d in first + (() if quick else more):
            seen = tours.design(self.work, d)
            if seen is None:
                raise run.ToolFailure("design %s breaks what is checked of it" % d["name"])
            missed = [] if quick else [s for s in d["slips"] if tours.design(self.work, d, s) is not None]
            if missed:
                raise run.ToolFailure("design %s: not found: %s" % (d["name"], ", ".join(missed)))
            self.cov["states"] += seen[1]
            self.cov["transitions"] += seen[0]
            self.cov["models"].append({"design": d["name"], "states": seen[1], "transitions": seen[0],
                                       "mistakes_put_in_and_found": [] if quick else list(d["slips"])})

    def random(self, count):
        first = self.next_id
        self.next_id += count
        base = (self.seed * 1000003 + hash_of(self.prop)) * 1000000
        return [self.random_episode(first + i, i, base + first + i) for i in range(count)]


class WrapCheck(Check):
    """Of a property of wrapped functions."""
    quick_edges, quick_random = 9000, 500
    thorough_edges, thorough_round = 80000, 3000

    def __init__(self, *a):
        super().__init__(*a)
        self.spec = wrapcheck.PROPERTIES.get(self.prop)

    def build(self, chosen):
        return {0: run.compile_one(self.work, "wrap_driver.cpp", "wrap_driver")}

    def build_for(self, ep):
        return self.build([])

    def validate(self, episodes, histories):
        return run.validate(self.work, self.prop, episodes, histories, module="WrapTrace", line=wrapgen.history)

    def tours(self, graph, model, budget):
        return tours.wrap_episodes(graph, model, self.next_id, self.seed, budget=budget)

    def random_episode(self, eid, i, seed):
        return wrapgen.episode(eid, seed, self.spec["timed"])

    @staticmethod
    def like(ep, lines, eid=None):
        e = wrapgen.Episode(eid or ep.id, ep.tick)
        e.lines = list(lines)
        return e

    @staticmethod
    def described(ep):
        return {"script": ep.text(), "tick": ep.tick}

    @staticmethod
    def restored(v):
        ep = wrapgen.Episode(1, v["tick"])
        ep.lines = v["script"][1:]
        return ep


class CostCheck(Check):
    """Of the work operations take: the operations of user code they use, as
    part of the histories of any property, and everything they do."""

    def run(self):
        super().run()
        if not self.found:
            start = time.time()
            counting = CountingCheck(self.prop, self.tier, self.seed, self.work, self)
            counting.run()
            self.found += counting.found
            self.cov["seconds"]["counting"] = round(time.time() - start)


class CountingCheck(Check):
    def __init__(self, prop, tier, seed, work, main=None):
        super().__init__(prop, tier, seed, work)
        if main:
            self.cov, self.next_id = main.cov, main.next_id

    def run(self):
        binaries = self.build([])
        rounds = 1 if self.tier == "quick" else 6
        for n in range(rounds):
            if not self.found:
                planned = costgen.episodes(self.next_id, self.seed * 1000 + n)
                self.next_id += len(planned)
                self.found += self.conforms(planned, binaries)

    def build(self, chosen):
        binary = run.compile_one(self.work, "cost_driver.cpp", "cost_driver", cxx=run.COUNTING)
        return {v: binary for v in costgen.CACHES + costgen.WRAPPERS}

    def build_for(self, ep):
        return self.build([])

    def validate(self, episodes, histories):
        return run.validate(self.work, self.prop, episodes, histories, module="CostTrace", line=costgen.history)

    @staticmethod
    def like(ep, lines, eid=None):
        e = costgen.Episode(eid or ep.id, ep.variant)
        e.lines = list(lines)
        if not e.lines or not e.lines[0].startswith("new"):
            e.lines.insert(0, "new 1000")
        return e

    @staticmethod
    def described(ep):
        return {"script": ep.text(), "variant": ep.variant, "counting": True}

    @staticmethod
    def restored(v):
        ep = costgen.Episode(1, v["variant"])
        ep.lines = v["script"][1:]
        return ep


class BulkCheck(Check):
    """Of caches with many entries, besides."""

    def __init__(self, prop, tier, seed, work, main=None):
        super().__init__(prop, tier, seed, work)
        if main:
            self.cov, self.next_id = main.cov, main.next_id

    def build(self, variants):
        with ThreadPoolExecutor(run.NPROC) as ex:
            return dict(zip(variants, ex.map(
                lambda v: run.compile_one(self.work, "bulk_driver.cpp", "bulk%d" % v, ["VARIANT=%d" % v], cxx=run.BULK), variants)))

    def build_for(self, ep):
        return self.build([ep.variant])

    def run(self, binaries):
        start, rounds = time.time(), 0
        while not self.found and (rounds == 0 or self.tier != "quick" and time.time() - start < BULK_SECONDS):
            planned = bulkgen.episodes(self.next_id, self.seed * 1000 + hash_of(self.prop) * 7 + rounds, self.prop, sorted(binaries),
                                       3 if self.tier == "quick" else 8)
            self.next_id += len(planned)
            self.found += self.conforms(planned, binaries)
            rounds += 1
        self.cov["histories_with_many_entries"] = {"rounds": rounds}
        self.cov["seconds"]["many_entries"] = round(time.time() - start)

    def validate(self, episodes, histories):
        return run.validate(self.work, self.prop, episodes, histories, module="BulkTrace", line=bulkgen.history)

    @staticmethod
    def like(ep, lines, eid=None):
        e = bulkgen.Episode(eid or ep.id, ep.variant)
        e.lines = list(lines)
        return e

    @staticmethod
    def described(ep):
        return {"script": ep.text(), "variant": ep.variant, "bulk": True}

    @staticmethod
    def restored(v):
        ep = bulkgen.Episode(1, v["variant"])
        ep.lines = v["script"][1:]
        return ep


class ThreadCheck(Check):
    """Of what different threads do with caches of their own."""
    quick_edges, quick_random = 6000, 400
    thorough_edges, thorough_round = 40000, 1200
    batch = 400                 # episodes run by a process

    def __init__(self, *a):
        super().__init__(*a)
        # The instantiations that count objects do so without synchronization.
        only = lambda ms: [dict(m, variants=[v for v in m["variants"] if v not in (3, 7)]) for m in ms]
        self.spec = dict(self.spec, models=only(self.spec["models"]), more=only(self.spec["more"]))

    def name(self, v):
        return "threads%d" % v

    def build(self, chosen):
        variants = {v for m in chosen for v in m["variants"]} | {v for p in self.spec["random"] for v in p["variants"]}
        return self.compile(sorted(variants))

    def compile(self, variants):
        with ThreadPoolExecutor(run.NPROC) as ex:
            return dict(zip(variants, ex.map(
                lambda v: run.compile_one(self.work, "driver.cpp", self.name(v), ["VARIANT=%d" % v], cxx=threads.CXX), variants)))

    def build_for(self, ep):
        return self.compile([ep.variant])

    def variant(self, ep):
        return ep.variant

    def conforms(self, episodes, binaries):
        out, groups = [], {}
        for ep in episodes:
            groups.setdefault(self.variant(ep), []).append(ep)
        histories, home = {}, {}
        for v, eps in sorted(groups.items()):
            for i in range(0, len(eps), self.batch):
                part = eps[i:i + self.batch]
                h, wrong = threads.attempt(self.work, binaries[v], part, "threads")
                histories.update(h)
                for ep in part:
                    home[ep.id] = part
                if wrong and len(out) < MAX_REPORTED:
                    out += self.concerning(part, wrong, binaries[v])
        rejected, stats = self.validate(episodes, histories)
        self.cov["traces_validated_against_impl"] += stats["traces"]
        self.cov["events_validated"] += stats["events"]
        self.cov["evaluations"] += len(episodes)
        self.cov["threads"] = threads.THREADS
        byid = {e.id: e for e in episodes}
        for i in sorted(rejected, key=lambda i: rejected[i][0])[:20]:
            if len(out) < MAX_REPORTED and not self.alone(byid[i], binaries):
                out.append(self.found_in(home[i], "rejected", "of episode %d: %s" % (i, rejected[i][1]), rejected[i][0]))
        return out

    def concerning(self, part, wrong, binary):
        """What went wrong, if it has to do with the threads."""
        if threads.attempt(self.work, binary, part, "again", threads=1)[1]:
            self.cov["wrong_without_threads"] = self.cov.get("wrong_without_threads", 0) + 1
            return []
        if not any(threads.attempt(self.work, binary, part, "again")[1] for _ in range(5)):
            if wrong[0] == "race":      # seen is seen
                return [self.found_in(part, *wrong)]
            raise run.ToolFailure("a %s did not repeat: %s" % wrong)
        return [self.found_in(threads.smaller(self.work, binary, part), *wrong)]

    def alone(self, ep, binaries):
        """Is the episode rejected, too, when there is one thread?"""
        h, wrong = threads.attempt(self.work, binaries[self.variant(ep)], [ep], "alone", threads=1)
        rejected, _ = self.validate([ep], h)
        return bool(wrong or rejected)

    def found_in(self, part, kind, detail, step=None):
        return {"kind": kind, "detail": detail, "step": step, "threads": threads.THREADS,
                "variant": self.variant(part[0]), "script": [l for ep in part for l in ep.text()],
                "episodes": [self.described(ep) for ep in part]}

    def replay(self, v):
        eps = []
        for n, d in enumerate(v["episodes"]):
            ep = self.restored(d)
            ep.id = n + 1
            eps.append(ep)
        binary = self.build_for(eps[0])[v["variant"]]
        for _ in range(5):
            h, wrong = threads.attempt(self.work, binary, eps, "replay")
            rejected, _ = self.validate(eps, h)
            if wrong or rejected:
                print(wrong, rejected)
                return 1
        return 0


class CallingThreads(ThreadCheck):
    """... and with wrapped functions of their own."""

    def __init__(self, main):
        super().__init__(main.prop, main.tier, main.seed, main.work)
        self.cov, self.next_id = main.cov, main.next_id

    def build_for(self, ep):
        return {0: run.compile_one(self.work, "wrap_driver.cpp", "threadsw", cxx=threads.CXX)}

    def variant(self, ep):
        return 0

    def validate(self, episodes, histories):
        return run.validate(self.work, "C22", episodes, histories, module="WrapTrace", line=wrapgen.history)

    like, described, restored = (staticmethod(f) for f in (WrapCheck.like, WrapCheck.described, WrapCheck.restored))

    def random_episode(self, eid, i, seed):
        return wrapgen.episode(eid, seed, i % 2 == 1)

    def run(self):
        quick = self.tier == "quick"
        self.found += self.conforms(self.random(400 if quick else 6000), self.build_for(None))


class BothThreads(ThreadCheck):
    def run(self):
        super().run()
        if not self.found:
            calling = CallingThreads(self)
            calling.run()
            self.found += calling.found


class RelayCheck(Check):
    """Of a cache that one thread uses after another."""
    quick_edges, quick_random = 4500, 320

    def build(self, chosen):
        variants = {v for m in chosen for v in m["variants"]} | {v for p in self.spec["random"] for v in p["variants"]}
        return self.compile(sorted(variants))

    def compile(self, variants, relay=True):
        defines = ["RELAY"] if relay else []
        with ThreadPoolExecutor(run.NPROC) as ex:
            return dict(zip(variants, ex.map(lambda v: run.compile_one(
                self.work, "driver.cpp", "%s%d" % ("relay" if relay else "alone", v), ["VARIANT=%d" % v] + defines), variants)))

    def build_for(self, ep):
        return self.compile([ep.variant])

    def build_alone(self, ep):
        return self.compile([ep.variant], False)

    def conforms(self, episodes, binaries):
        return [v for v in super().conforms(episodes, binaries) if not self.alone(v)]

    def alone(self, v):
        """Is it wrong when there is but one thread, too?  Then it is of no concern here."""
        if not v["script"]:
            return True
        ep = self.restored(v)
        h, failed, rejected = self.again(v, ep, self.build_alone(ep))
        if failed or rejected:
            self.cov["wrong_without_threads"] = self.cov.get("wrong_without_threads", 0) + 1
        return bool(failed or rejected)

    def run(self):
        super().run()
        if self.prop == "C33" and not self.found and type(self) is RelayCheck:
            calling = CallingRelay(self.prop, self.tier, self.seed, self.work)
            calling.cov, calling.next_id = self.cov, self.next_id
            calling.run()
            self.found += calling.found


class CallingRelay(RelayCheck):
    """... and of wrapped functions."""
    variants = [0]

    def build_for(self, ep):
        return {0: run.compile_one(self.work, "wrap_driver.cpp", "relayw", ["RELAY"])}

    def build_alone(self, ep):
        return {0: run.compile_one(self.work, "wrap_driver.cpp", "alonew")}

    def validate(self, episodes, histories):
        return run.validate(self.work, "C22", episodes, histories, module="WrapTrace", line=wrapgen.history)

    like, restored = (staticmethod(f) for f in (WrapCheck.like, WrapCheck.restored))

    @staticmethod
    def described(ep):
        return dict(WrapCheck.described(ep), relayed_calls=True)

    def random_episode(self, eid, i, seed):
        return wrapgen.episode(eid, seed, i % 2 == 1)

    def run(self):
        binaries = self.build_for(None)
        self.found += self.conforms(self.random(300 if self.tier == "quick" else 6000), binaries)


def check_for(prop, tier, seed, work):
    cls = WrapCheck if prop in wrapcheck.PROPERTIES else {"C29": CostCheck, "C32": BothThreads, "C33": RelayCheck}.get(prop, Check)
    return cls(prop, tier, seed, work)


def write_evidence(check, tier, seed, wall):
    path = os.path.join(run.ROOT, "evidence", check.prop + ".json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    doc = {"property": check.prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": check.cov,
           "assumptions": [
               "the specification is exhaustively explored within the constants of the models listed",
               "the real code is bound to it by the recorded histories counted here, " +
               {"C32": "in threads that share no cache but constant ones", "C33": "by threads that take turns"}.get(check.prop, "single-threaded"),
               "clang/gcc, the sanitizers, TLC and the recording driver are trusted"],
           "wall_s": round(wall, 1), "violations": len(check.found)}
    with open(path + ".new", "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(path + ".new", path)


def write_replay(prop, seed, n, v):
    d = os.path.join(run.ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d-%d.json" % (prop, seed, n))
    with open(path, "w") as f:
        json.dump(dict(v, property=prop), f, indent=1)
    return path


def signature(v):
    """What identifies a violation in the known-findings file."""
    op = v["recorded"][-1]["op"] if v.get("recorded") else "?"
    return "%s:%s:%s" % (v["kind"], v.get("variant", 0), op)


def replay(path):
    """Runs a reported history again."""
    v = json.load(open(path))
    with run.Work() as work:
        if v.get("threads"):
            check = BothThreads(v["property"], "quick", 1, work)
            return (check if v["variant"] else CallingThreads(check)).replay(v)
        cls = CountingCheck if v.get("counting") else BulkCheck if v.get("bulk") else CallingRelay if v.get("relayed_calls") else type(check_for(v["property"], "quick", 1, work))
        check = cls(v["property"], "quick", 1, work)
        ep = check.restored(v)
        h, f, rejected = check.again(v, ep, check.build_for(ep))
        for l in h.get(1, []):
            print(l)
        for x in f:
            print(x.kind, x.detail)
        for s, m in rejected.values():
            print("rejected at step", s, m)
        return 1 if f or rejected else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.property not in models.PROPERTIES and a.property not in wrapcheck.PROPERTIES:
        ap.error("which property?")
    start = time.time()
    with run.Work() as work:
        check = check_for(a.property, a.tier, a.seed, work)
        if a.property in bulkgen.PROPERTIES:
            bulk = BulkCheck(a.property, a.tier, a.seed, work, check)
            with ThreadPoolExecutor(1) as ex:
                building = ex.submit(bulk.build, bulkgen.variants_for(a.property))
                check.run()
                binaries = building.result()
            if not check.found:
                bulk.next_id = check.next_id
                bulk.run(binaries)
                check.found += bulk.found
        else:
            check.run()
    write_evidence(check, a.tier, a.seed, time.time() - start)
    known = known_findings(a.property)
    new = []
    for v in check.found:
        if not any(sig == signature(v) for sig, _ in known):
            new.append(v)
    for sig, text in known:
        print("KNOWN-FINDING: property=%s %s" % (a.property, text))
    for n, v in enumerate(new[:MAX_REPORTED]):
        print("# %s at step %s of: %s" % (v["kind"], v.get("step"), " ; ".join(v["script"] or [])[:600]))
        print("# " + v["detail"][:400])
        print("VIOLATION property=%s replay=%s" % (a.property, write_replay(a.property, a.seed, n, v)))
    if not new:
        print("%s %s: held; %d model states, %d histories, %d events, %.0f s" % (
            a.property, a.tier, check.cov["states"], check.cov["traces_validated_against_impl"],
            check.cov["events_validated"], time.time() - start))
    return 1 if new else 0


if __name__ == "__main__":
    try:
        code = main()
    except run.ToolFailure as e:
        print("CHECK FAILED: %s" % e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
