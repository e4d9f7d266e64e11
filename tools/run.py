"""Building the driver from the tree under test, running scripts on the real
code, and validating the recorded histories against the specification."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8


class ToolFailure(Exception):
    """Something other than the code under test went wrong."""


class Work:
    """A scratch directory that is gone afterwards."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="lruverif.")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.dir, *p)


# ------------------------------------------------------------------ building
CXX = ["g++", "-std=c++17", "-O0", "-w", "-fsanitize=address,undefined",
       "-fno-sanitize-recover=undefined",
       "-include", os.path.join(HARNESS, "pre.hpp"), "-I" + HARNESS]
BULK = [f if f != "-O0" else "-O1" for f in CXX]
# counts the basic blocks executed
COUNTING = ["g++", "-std=c++17", "-O1", "-w", "-fsanitize-coverage=trace-pc",
            "-include", os.path.join(HARNESS, "pre.hpp"), "-I" + HARNESS]


def compile_one(work, source, name, defines=(), cxx=CXX):
    out = work.path(name)
    cmd = cxx + ["-I" + os.path.join(REPO, "include")] + ["-D" + d for d in defines] + \
        [os.path.join(HARNESS, source), "-o", out]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        errs = [l[:300] for l in p.stdout.splitlines() if "error" in l][:5]
        raise ToolFailure("the driver does not compile against %s:\n%s" % (REPO, "\n".join(errs)))
    return out


def build(work, variants):
    with ThreadPoolExecutor(NPROC) as ex:
        jobs = {v: ex.submit(compile_one, work, "driver.cpp", "driver%d" % v, ["VARIANT=%d" % v])
                for v in variants}
        return {v: j.result() for v, j in jobs.items()}


# ------------------------------------------------------------------ executing
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:exitcode=99:abort_on_error=0:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=98")


class Failure:
    """The real code crashed, hung, or its history was rejected."""

    def __init__(self, kind, episode, step, detail):
        self.kind, self.episode, self.step, self.detail = kind, episode, step, detail


def run_driver(work, binary, episodes, tag, patience=60):
    """Runs the episodes; returns (histories by episode id, failures)."""
    lines, owner = [], []
    for ep in episodes:
        for l in ep.text():
            lines.append(l)
            owner.append(ep)
    script, out, prog = (work.path(tag + s) for s in (".script", ".out", ".prog"))
    with open(script, "w") as f:
        f.write("\n".join(lines) + "\n")
    with open(work.path(tag + ".err"), "w") as err:
        p = subprocess.Popen([binary, script, out, prog], stdout=subprocess.DEVNULL, stderr=err, env=ENV)
        last, since = -1, time.time()
        status = None
        while status is None:
            try:
                status = p.wait(timeout=0.2)
            except subprocess.TimeoutExpired:
                try:
                    with open(prog, "rb") as f:
                        now = int.from_bytes(f.read(8), "little")
                except OSError:
                    now = -1
                if now != last:
                    last, since = now, time.time()
                elif time.time() - since > patience:
                    p.kill()
                    p.wait()
                    status = "hang"
    failures = []
    line = 0
    if status != 0:
        with open(prog, "rb") as f:
            data = f.read(16)
        line, finished = int.from_bytes(data[:8], "little"), int.from_bytes(data[8:16], "little")
        with open(work.path(tag + ".err"), errors="replace") as f:
            text = f.read()
        if status in (2, 3):
            raise ToolFailure("driver refused its script: " + text[:500])
        summary = [l for l in text.splitlines() if re.search(r"ERROR|SUMMARY|runtime error|terminate|what\(\)", l)][:4]
        if status == "hang":
            kind = "hang"
        elif "LeakSanitizer" in text and "AddressSanitizer:DEADLYSIGNAL" not in text and finished:
            kind = "leak"
        else:
            kind = "crash"
        ep = owner[min(max(line, 1), len(owner)) - 1]
        failures.append(Failure(kind, ep, None, "; ".join(s[:200] for s in summary) or "status %s" % status))
    histories = {}
    cur = None
    if os.path.exists(out):
        with open(out) as f:
            for l in f:
                if l.startswith("E "):
                    cur = histories.setdefault(int(l[2:]), [])
                elif l.endswith("}\n"):
                    cur.append(l[:-1])
    rest = []
    if failures and failures[0].kind != "leak":
        bad = failures[0].episode
        k = next(i for i, e in enumerate(episodes) if e is bad)
        rest = episodes[k + 1:]
    return histories, failures, rest


def execute(work, binaries, episodes, max_failures=3):
    """Runs all episodes, NPROC drivers at a time."""
    by_variant = {}
    for ep in episodes:
        by_variant.setdefault(ep.variant, []).append(ep)
    jobs = []
    share = max(1, (len(episodes) + NPROC - 1) // NPROC)
    for v, eps in by_variant.items():
        for i in range(0, len(eps), share):
            jobs.append((v, eps[i:i + share]))

    for _, eps in jobs:
        for i, ep in enumerate(eps):
            ep.company = (eps, i)     # what ran before it in its process

    def job(n, v, eps):
        hist, fails = {}, []
        part = 0
        while eps and len(fails) < max_failures:
            h, f, eps = run_driver(work, binaries[v], eps, "job%d_%d" % (n, part))
            hist.update(h)
            fails += f
            part += 1
        return hist, fails

    histories, failures = {}, []
    with ThreadPoolExecutor(NPROC) as ex:
        for h, f in ex.map(lambda t: job(*t), [(n, v, e) for n, (v, e) in enumerate(jobs)]):
            histories.update(h)
            failures += f
    return histories, failures


# ------------------------------------------------------------------ validating
def tlc(work, module, config, env, timeout, workers=NPROC, extra=(), files=(), memory="8g"):
    """Runs TLC on a copy of the specification; returns its output."""
    d = tempfile.mkdtemp(prefix="tlc.", dir=work.dir)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), d)
    for name, text in dict(files).items():
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
    if "\n" in config:
        with open(os.path.join(d, "Generated.cfg"), "w") as f:
            f.write(config)
        config = "Generated.cfg"
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + memory, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", JARS,
           "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
           "-noGenerateSpecTE", "-config", config] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=d, env=dict(os.environ, **env), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolFailure("TLC did not finish within %d s" % timeout)
    finally:
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return p.returncode, p.stdout


def states_of(output):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", output)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def history_line(ep, events):
    return '{"id":%d,"gran":%d,"obj":%d,"timed":%d,"ev":[%s]}' % (
        ep.id, ep.gran, int(ep.variant in (3, 7)), int(ep.variant >= 4), ",".join(events))


def validate(work, prop, episodes, histories, timeout=1500, module="Trace", line=history_line):
    """Which histories does the specification reject?  {episode id: step}"""
    items = [(ep, histories[ep.id]) for ep in episodes if histories.get(ep.id)]
    stats = {"traces": len(items), "events": sum(len(h) for _, h in items), "states": 0}
    rejected = {}

    def check(items):
        if not items:
            return
        path = tempfile.mktemp(suffix=".ndjson", dir=work.dir)
        with open(path, "w") as f:
            for ep, h in items:
                f.write(line(ep, h) + "\n")
        code, out = tlc(work, module + ".tla", module + ".cfg", {"TRACE": path, "PROP": prop}, timeout)
        os.remove(path)
        done = {int(m) for m in re.findall(r'<<"DONE", (\d+), \d+>>', out)}
        reject = {}
        for i, n in re.findall(r'<<"REJECT", (\d+), (\d+)>>', out):
            reject[int(i)] = max(reject.get(int(i), 0), int(n))
        if code == 0 and "No error has been found" in out:
            stats["states"] += states_of(out)[1]
            for ep, _ in items:
                if ep.id not in done:
                    if ep.id not in reject:
                        raise ToolFailure("trace %d neither accepted nor rejected" % ep.id)
                    rejected[ep.id] = (reject[ep.id], "no step of the specification matches")
            return
        if len(items) == 1:
            # the specification is not even defined on this recording
            msg = [l for l in out.splitlines() if "rror" in l or "ttempted" in l][:3]
            if not any("evaluating" in l or "ttempted" in l or "CASE" in l or "CHOOSE" in l or "applied" in l
                       for l in out.splitlines()):
                raise ToolFailure("TLC failed: " + out[-1500:])
            rejected[items[0][0].id] = (len(items[0][1]), "outside the specification: " + " ".join(msg)[:300])
            return
        if "Parse Error" in out or "parse" in out.lower() and "Could not parse" in out:
            raise ToolFailure(out[-2000:])
        half = len(items) // 2
        check(items[:half])
        if len(rejected) < 3:
            check(items[half:])

    check(items)
    return rejected, stats
