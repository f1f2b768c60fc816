"""Seeded search, minimisation, replay and evidence.

    python -m sim.run check C01 quick|thorough
    python -m sim.run replay FILE
    python -m sim.run trace C01 RUN        (one run, its operations and transcript hash)
    python -m sim.run determinism [N]      (every profile: the same seeds give the same transcripts)

One run is a function of (property, base seed, run number).  Runs are grouped in chunks; a chunk is
executed by one freshly forked process, so what happens in a chunk does not depend on the number of
processors or on timing.  A violation is replayed from nothing but the recorded operations.
"""
import hashlib
import json
import os
import pickle
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROCS = int(os.environ.get("SIM_PROCS", "0")) or min(8, os.cpu_count() or 1)
CPU_LIMIT = 60.0
WALL = {"quick": 420.0, "thorough": 3600.0}


class Hang(BaseException):
    pass


def on_alarm(*_):
    raise Hang()


# ---------------------------------------------------------------- one run
def execute(pid, profile, cfg, ops, record=None):
    """ops: a list, or None to generate with the profile.  Returns (world, violation or None)."""
    from .core import HarnessError, Violation, clean
    from . import seams

    w = None
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    last = None
    try:
        w = profile.world(cfg)
        if ops is None:
            r = random.Random("ops:%s" % cfg["env"])
            for op in profile.generate(w, r):
                record.append(op)
                last = op
                w.apply(op)
        else:
            for op in ops:
                last = op
                w.apply(op)
        last = ["finish"]
        w.finish()
        return w, None
    except Violation as v:
        return w, {"tags": sorted(v.tags), "what": v.what, "at": last}
    except HarnessError:
        raise
    except Hang:
        return w, {"tags": [pid], "what": "an operation did not return within %d s of processor time" % CPU_LIMIT, "at": last}
    except Exception as e:
        seams.SEAM.ctx = None
        frames = traceback.extract_tb(e.__traceback__)
        if any("psrpcore" in f.filename for f in frames):
            return w, {"tags": [pid], "what": "the library raised %s where nothing may fail" % clean(e), "at": last}
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        seams.SEAM.ctx = None


def run_config(pid, base, i, profile):
    r = random.Random("%s:%s:%s" % (pid, base, i))
    return profile.config(r, "%s:%s:%s" % (pid, base, i))


def run_chunk(pid, base, lo, hi):
    from .profiles import PROFILES

    profile = PROFILES[pid]()
    out = {"runs": 0, "steps": 0, "stats": {}, "states": set(), "traces": set(), "foreign": {}, "time": 0.0, "violation": None, "known": set(), "sample": None, "digest": hashlib.sha1(), "nontrivial": 0}
    history = []
    for i in range(lo, hi):
        cfg = run_config(pid, base, i, profile)
        ops = []
        w, v = execute(pid, profile, cfg, None, ops)
        out["runs"] += 1
        if w is not None:
            out["steps"] += w.steps
            for k, n in w.stats.items():
                out["stats"][k] = out["stats"].get(k, 0) + n
            out["states"] |= w.states
            out["known"] |= getattr(w, "known", set())
            out["time"] += w.time_covered
            t = w.trace.hexdigest()
            out["digest"].update(t.encode())
            if w.stats.get("events", 0) > 2:
                out["nontrivial"] += 1
                out["traces"].add(t[:16])
            if out["sample"] is None and len(ops) > 10:
                out["sample"] = {"run": i, "config": cfg, "operations": len(ops), "first": ops[:14], "transcript_sha1": t}
        history.append({"cfg": cfg, "ops": ops})
        if v is not None:
            if pid in v["tags"]:
                out["violation"] = {"run": i, "history": history, **v}
                break
            key = "%s: %s" % (",".join(v["tags"]), v["what"][:100])
            out["foreign"][key] = out["foreign"].get(key, 0) + 1
    out["digest"] = out["digest"].hexdigest()
    return out


# ---------------------------------------------------------------- processes
def child(fn, args):
    """Fork, run fn, return (pid, read end).  The child leaves the parent's state untouched."""
    rd, wr = os.pipe()
    p = os.fork()
    if p:
        os.close(wr)
        return p, rd
    code = 0
    try:
        os.close(rd)
        signal.signal(signal.SIGVTALRM, on_alarm)
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        try:
            res = ("ok", fn(*args))
        except BaseException as e:
            res = ("error", "".join(traceback.format_exception(type(e), e, e.__traceback__)))
        data = pickle.dumps(res)
        view = memoryview(data)
        while view:
            n = os.write(wr, view)
            view = view[n:]
    except BaseException:
        code = 3
    finally:
        os._exit(code)


def collect(p, rd):
    parts = []
    while True:
        b = os.read(rd, 1 << 20)
        if not b:
            break
        parts.append(b)
    os.close(rd)
    os.waitpid(p, 0)
    if not parts:
        return ("error", "a worker process ended without a result")
    return pickle.loads(b"".join(parts))


def parallel(jobs, deadline):
    """Run jobs in order of submission on PROCS processes, yielding the results in order."""
    import selectors

    sel = selectors.DefaultSelector()
    live, bufs, done, nxt, want = {}, {}, {}, 0, 0
    try:
        while want < len(jobs):
            while nxt < len(jobs) and len(live) < PROCS and time.time() < deadline:
                p, rd = child(*jobs[nxt])
                os.set_blocking(rd, False)
                live[rd] = (p, nxt)
                bufs[rd] = []
                sel.register(rd, selectors.EVENT_READ)
                nxt += 1
            if not live and want not in done:
                return
            if live:
                for key, _ in sel.select(1.0):
                    rd = key.fd
                    b = os.read(rd, 1 << 20)
                    if b:
                        bufs[rd].append(b)
                        continue
                    sel.unregister(rd)
                    os.close(rd)
                    p, n = live.pop(rd)
                    os.waitpid(p, 0)
                    raw = b"".join(bufs.pop(rd))
                    done[n] = pickle.loads(raw) if raw else ("error", "a worker process ended without a result")
            while want in done:
                yield done.pop(want)
                want += 1
    finally:
        for rd, (p, _) in live.items():
            try:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
                os.close(rd)
            except OSError:
                pass


# ---------------------------------------------------------------- replay and minimisation
def play(pid, sessions):
    """Execute recorded sessions one after the other in this process; the violation of the last one, if any."""
    from .profiles import PROFILES

    profile = PROFILES[pid]()
    v = None
    for s in sessions:
        _, v = execute(pid, profile, s["cfg"], s["ops"])
    return v


def try_play(pid, sessions):
    kind, res = collect(*child(play, (pid, sessions)))
    if kind != "ok" or res is None or pid not in res["tags"]:
        return None
    return res


def ddmin(items, test, deadline):
    """Shortest list found for which test stays true; items are tried in halves, quarters, ... and one by one."""
    n = 2
    while len(items) > 1 and time.time() < deadline:
        step = max(1, len(items) // n)
        i, cut = 0, False
        while i < len(items) and time.time() < deadline:
            cand = items[:i] + items[i + step:]
            if test(cand):
                items = cand
                cut = True
            else:
                i += step
        if not cut:
            if step == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(pid, history, budget=90.0):
    deadline = time.time() + budget
    sessions = [history[-1]]
    if try_play(pid, sessions) is None:
        sessions = list(history)
        if try_play(pid, sessions) is None:
            return None
        sessions = ddmin(sessions[:-1], lambda c: try_play(pid, c + [history[-1]]) is not None, deadline) + [history[-1]]
    for k in range(len(sessions) - 1, -1, -1):
        def with_ops(ops):
            return sessions[:k] + [{"cfg": sessions[k]["cfg"], "ops": ops}] + sessions[k + 1:]

        ops = sessions[k]["ops"]
        ops = ddmin(ops, lambda c: try_play(pid, with_ops(c)) is not None, deadline)
        for i in range(len(ops)):
            for j in range(1, len(ops[i])):
                a = ops[i][j]
                if time.time() > deadline or isinstance(a, bool) or not isinstance(a, int) or not a:
                    continue
                for small in (0, 1, 3, 22, 100):
                    if small >= abs(a):
                        break
                    cand = [list(o) for o in ops]
                    cand[i][j] = small
                    if try_play(pid, with_ops(cand)) is not None:
                        ops = cand
                        break
        sessions = with_ops(ops)
    return sessions


def report(pid, base, v):
    """Minimise, write the replay file, replay it in a new interpreter, and print the violation."""
    total = sum(len(s["ops"]) for s in v["history"])
    sessions = minimise(pid, v["history"])
    if sessions is None:
        sessions = v["history"]
    res = try_play(pid, sessions) or v
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-%s-%s.json" % (pid, base, v["run"]))
    doc = {
        "property": pid, "base_seed": base, "run": v["run"], "what": res["what"], "at": res["at"], "tags": res["tags"],
        "operations_recorded": total, "operations_minimised": sum(len(s["ops"]) for s in sessions), "sessions": sessions,
    }
    with open(path, "w") as fd:
        json.dump(doc, fd, indent=1)
    again = subprocess.run([sys.executable, "-m", "sim.run", "replay", path], cwd=HERE, capture_output=True, text=True)
    same = again.returncode == 1 and res["what"] in again.stdout
    print("violated: %s" % res["what"])
    print("at operation %s of run %d, base seed %d; %d recorded operations, %d after minimisation; replay in a new process %s" % (
        json.dumps(res["at"]), v["run"], base, total, doc["operations_minimised"], "gives the same violation" if same else "DIFFERS"))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return doc


def replay(path):
    with open(path) as fd:
        doc = json.load(fd)
    kind, v = collect(*child(play, (doc["property"], doc["sessions"])))
    if kind != "ok":
        print(v)
        return 2
    if v is None:
        print("no violation")
        return 0
    print("violated: %s" % v["what"])
    print("at operation %s; tags %s" % (json.dumps(v["at"]), ",".join(v["tags"])))
    if doc["property"] in v["tags"]:
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1
    return 0


# ---------------------------------------------------------------- check
def check(pid, tier):
    from .profiles import PROFILES

    base = int(os.environ.get("VERIF_SEED", "1"))
    profile = PROFILES[pid]()
    runs = profile.quick if tier == "quick" else profile.thorough
    runs = int(os.environ.get("SIM_RUNS", runs))
    start = time.time()
    size = profile.chunk
    jobs = [(run_chunk, (pid, base, lo, min(lo + size, runs))) for lo in range(0, runs, size)]
    tot = {"runs": 0, "steps": 0, "stats": {}, "states": set(), "traces": set(), "foreign": {}, "time": 0.0, "nontrivial": 0, "known": set()}
    samples, violation, error = [], None, None
    digest = hashlib.sha1()
    for kind, res in parallel(jobs, start + WALL[tier]):
        if kind != "ok":
            error = res
            break
        for k in ("runs", "steps", "time", "nontrivial"):
            tot[k] += res[k]
        for k in ("stats", "foreign"):
            for n, c in res[k].items():
                tot[k][n] = tot[k].get(n, 0) + c
        for k in ("states", "traces", "known"):
            tot[k] |= res[k]
        digest.update(res["digest"].encode())
        if res["sample"] and len(samples) < 3:
            samples.append(res["sample"])
        if res["violation"]:
            violation = res["violation"]
            break
    searched = time.time() - start
    if error:
        print(error)
        print("the check of %s failed, this is not a verdict" % pid)
        return 2
    doc = report(pid, base, violation) if violation else None
    with open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) as fd:
        listed = fd.read()
    for k in sorted(tot["known"]):
        if "known: property=%s %s" % (pid, k) not in listed:
            print("a finding that is not listed was suppressed: %s" % k)
            return 2
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    write_evidence(pid, tier, base, profile, tot, samples, doc, searched, time.time() - start, digest.hexdigest())
    if tot["foreign"]:
        print("runs ended early by failures that belong to other properties: %s" % json.dumps(tot["foreign"])[:600])
    if doc:
        return 1
    print("property %s held on %d simulated runs (%d operations, %d distinct interleavings), base seed %d, %.1f s" % (pid, tot["runs"], tot["steps"], len(tot["traces"]), base, searched))
    return 0


def write_evidence(pid, tier, base, profile, tot, samples, doc, searched, wall, digest):
    faults = {k[6:]: v for k, v in sorted(tot["stats"].items()) if k.startswith("fault:")}
    group = lambda p: {k[len(p):]: v for k, v in sorted(tot["stats"].items()) if k.startswith(p)}
    ev = {
        "property": pid, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(tot["traces"]),
            "rule": "One evaluation is one simulated run: a configuration and a sequence of operations of both applications, the transport and the faults, all drawn from (property, base seed, run number). "
            + profile.rule + " Distinct: runs are counted by the SHA-1 of their transcript (every call, refusal, payload, delivery and event with a digest of its content); non-trivial: at least three events were received.",
            "samples": samples,
            "operations": tot["steps"],
            "runs_per_hour": int(tot["runs"] / max(searched, 0.001) * 3600),
            "simulated_seconds": round(tot["time"], 3),
            "distinct_states": len(tot["states"]),
            "state_measure": profile.measure,
            "faults_injected": faults,
            "operations_by_kind": group("op:"),
            "messages_by_kind": group("msg:"),
            "events_received": tot["stats"].get("events", 0),
            "payloads": tot["stats"].get("payloads", 0),
            "fragments": tot["stats"].get("fragments", 0),
            "bytes_delivered": tot["stats"].get("bytes", 0),
            "operations_refused_as_expected": tot["stats"].get("refused", 0),
            "spellings_used": group("spelling:"),
            "other_counts": {k: v for k, v in sorted(tot["stats"].items()) if ":" not in k and k not in ("events", "payloads", "fragments", "bytes", "refused")},
            "runs_ended_by_other_properties": tot["foreign"],
            "transcripts_sha1": digest,
            "components": {"real": profile.real, "stub": profile.stub},
        },
        "assumptions": profile.assumptions,
        "wall_s": round(wall, 2),
        "violations": [] if not doc else [{"what": doc["what"], "run": doc["run"], "operations": doc["operations_minimised"]}],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fd:
        json.dump(ev, fd, indent=1, default=str)


def trace(pid, i):
    from .profiles import PROFILES

    profile = PROFILES[pid]()
    base = int(os.environ.get("VERIF_SEED", "1"))
    ops = []
    signal.signal(signal.SIGVTALRM, on_alarm)
    w, v = execute(pid, profile, run_config(pid, base, i, profile), None, ops)
    for op in ops:
        print(json.dumps(op))
    print(w.trace.hexdigest(), v)
    return 0


def determinism(n):
    """The same seeds in another interpreter with another hash seed give the same transcripts."""
    from .profiles import PROFILES

    bad = 0
    for pid in sorted(PROFILES):
        ds = set()
        for hs, chunk in (("0", 0), ("1", 0), ("77", 0)):
            code = "import sys; from sim.run import *; signal.signal(signal.SIGVTALRM, on_alarm); print(run_chunk(%r, 5, 0, %d)['digest'])" % (pid, n)
            p = subprocess.run([sys.executable, "-c", code], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=hs))
            ds.add(p.stdout.strip() or p.stderr[-300:])
        print(pid, "same" if len(ds) == 1 else "DIFFERENT", sorted(ds))
        bad += len(ds) != 1
    return 1 if bad else 0


def main(argv):
    want = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent/pycache"}
    if any(os.environ.get(k) != v for k, v in want.items()):
        os.execve(sys.executable, [sys.executable, "-m", "sim.run"] + argv, dict(os.environ, **want))
    if argv[0] == "check":
        return check(argv[1], argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    if argv[0] == "replay":
        return replay(argv[1])
    if argv[0] == "trace":
        return trace(argv[1], int(argv[2]))
    if argv[0] == "determinism":
        return determinism(int(argv[1]) if len(argv) > 1 else 24)
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
