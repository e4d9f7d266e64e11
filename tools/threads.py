"""Running episodes in several threads at once, under ThreadSanitizer: C32.

spec/Threads.tla shows that operations on different caches commute in the
specification, so that what each thread records must be a behaviour of the
specification by itself, as if it were alone.  What is wrong even when it is
alone is not the concern of this property."""
import os
import re
import subprocess
import time

import run

THREADS = 8
CXX = ["g++", "-std=c++17", "-O0", "-w", "-g1", "-fsanitize=thread", "-pthread", "-DTHREADED",
       "-include", os.path.join(run.HARNESS, "pre.hpp"), "-I" + run.HARNESS]
ENV = dict(os.environ, TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_thread_leaks=0:second_deadlock_stack=0")


def attempt(work, binary, episodes, tag, threads=THREADS, patience=60):
    """Runs the episodes; returns (histories by episode id, what went wrong or None)."""
    script, out, prog = (work.path(tag + s) for s in (".script", ".out", ".prog"))
    with open(script, "w") as f:
        for ep in episodes:
            f.write("\n".join(ep.text()) + "\n")
    with open(work.path(tag + ".err"), "w") as err:
        p = subprocess.Popen([binary, script, out, prog, str(threads)], stdout=subprocess.DEVNULL, stderr=err, env=ENV)
        last, since, status = None, time.time(), None
        while status is None:
            try:
                status = p.wait(timeout=0.2)
            except subprocess.TimeoutExpired:
                try:
                    with open(prog, "rb") as f:
                        now = f.read()
                except OSError:
                    now = None
                if now != last:
                    last, since = now, time.time()
                elif time.time() - since > patience:
                    p.kill()
                    p.wait()
                    status = "hang"
    histories = {}
    for path in [out] if threads == 1 else ["%s.%d" % (out, t) for t in range(threads)]:
        if not os.path.exists(path):
            continue
        cur = None
        with open(path, errors="replace") as f:
            for l in f:
                if l.startswith("E "):
                    cur = histories.setdefault(int(l[2:]), [])
                elif l.endswith("}\n") and cur is not None:
                    cur.append(l[:-1])
        os.remove(path)
    if status == 0:
        return histories, None
    with open(work.path(tag + ".err"), errors="replace") as f:
        text = f.read()
    if status in (2, 3):
        raise run.ToolFailure("driver refused its script: " + text[:500])
    if "unexpected memory mapping" in text or "failed to intercept" in text:
        raise run.ToolFailure("ThreadSanitizer does not work here: " + text[:300])
    if status == "hang":
        return histories, ("hang", "no progress")
    where = re.findall(r"#\d+ (\S+.*?) (?:/\S*/)?(\S+\.hpp:\d+)", text)[:4]
    summary = [l.strip()[:200] for l in text.splitlines() if re.search(r"WARNING|ERROR|SUMMARY|terminate|what\(\)", l)][:3]
    kind = "race" if "data race" in text else "crash"
    return histories, (kind, "; ".join(summary + [w[1] for w in where]) or "status %s" % status)


def smaller(work, binary, episodes, seconds=90):
    """Fewer episodes that still go wrong."""
    start, pieces = time.time(), 2
    while len(episodes) > 2 and time.time() - start < seconds:
        size = -(-len(episodes) // pieces)
        for i in range(0, len(episodes), size):
            part = episodes[:i] + episodes[i + size:] if pieces > 2 else episodes[i:i + size]
            if len(part) > 1 and attempt(work, binary, part, "less")[1]:
                episodes, pieces = part, max(2, pieces - 1)
                break
        else:
            if pieces >= len(episodes):
                break
            pieces = min(len(episodes), 2 * pieces)
    return episodes
