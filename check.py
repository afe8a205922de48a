#!/opt/venv/bin/python
"""Deterministic-simulation checks for cocotbext-axi.

  check.py C04                     search (VERIF_SEED, VERIF_TIER select seed and depth)
  check.py C04 --replay FILE       re-run one recorded failure exactly
  check.py --selftest              determinism self test (processes, worker counts, hash seeds)
"""
import argparse
import copy
import fcntl
import hashlib
import json
import os
import re
import resource
import select
import signal
import subprocess
import sys
import time
import random

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

RUN_WALL = 30            # seconds of processor time one simulated run may take before it counts as a hang
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.md")


# ------------------------------------------------------------------ one run
_hang = {"on": False, "hit": False, "sim": None}


def _alarm(signum, frame):
    from dst import kernel
    if _hang["on"]:
        _hang["hit"] = True
        from dst import gpi
        if gpi._cur is not None:
            gpi._cur.done = True
        raise kernel.HangAlarm()


def run_one(scn, prop, wall=RUN_WALL):
    """Executes a scenario -> dict(kind, msg, ...) or None, plus the kernel result."""
    from dst import kernel, plan
    fam = plan.family(scn["family"])
    signal.signal(signal.SIGPROF, _alarm)
    _hang["on"], _hang["hit"] = True, False
    signal.setitimer(signal.ITIMER_PROF, wall, 0.5)
    res = None
    try:
        res = kernel.execute(copy.deepcopy(scn), fam, prop)
    except kernel.HangAlarm:
        pass
    finally:
        _hang["on"] = False
        signal.setitimer(signal.ITIMER_PROF, 0)
    if _hang["hit"]:
        v = {"kind": "hang", "properties": ["*"], "message": "the simulated run did not return within %d s of processor time: "
             "code under test spins without letting simulated time advance" % wall, "cycle": -1, "time_ps": -1}
        return v, None
    if res.violations:
        return res.violations[0].to_json(), res
    if prop == "C19" and scn.get("sched") == "fifo" and scn["cfg"].get("mon") and hasattr(fam, "without_monitors") and wall == RUN_WALL:
        # the same execution without the monitors must drive exactly the same signals at the same times
        v2, r2 = run_one(fam.without_monitors(copy.deepcopy(scn)), prop, wall + 1)
        res.stats["cover.passivity_reruns"] = 1
        if r2 is None or (r2.sigh, r2.nchanges) != (res.sigh, res.nchanges):
            return {"kind": "not-passive", "properties": ["C19"], "cycle": -1, "time_ps": -1,
                    "message": "removing the monitors changes the signal history (%s%s)" % (
                        "%d signal changes instead of %d" % (res.nchanges, r2.nchanges) if r2 else "no result",
                        "; without them: " + v2["message"] if v2 else "")}, res
    return None, res


def vclass(v):
    if v is None:
        return None
    m = v["message"] if v["kind"] == "crash" else ""
    m = re.sub(r"0x[0-9a-f]+|\d+", "#", m)
    return (v["kind"], m)


def make_scn(seed, prop, fam, idx):
    from dst import plan
    g = random.Random("gen:%s:%s:%s:%s" % (seed, prop, fam, idx))
    return plan.family(fam).gen(g, "%s.%s.%s.%d" % (seed, prop, fam, idx), prop)


# ------------------------------------------------------------------ workers
def worker(w, nw, jobs, prop, seed, fd, deadline, low):
    """Runs indices w, w+nw, ... of every job; reports JSON lines on fd."""
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    out = os.fdopen(fd, "w", buffering=1)
    agg = {}
    n = 0
    hist = []
    first = None
    for gi in range(w, sum(j[1] for j in jobs), nw):
        if time.time() > deadline:
            agg["deadline"] = 1
            break
        if low.value <= gi:
            break
        x = gi
        for fam, cnt in jobs:
            if x < cnt:
                break
            x -= cnt
        out.write(json.dumps({"t": "begin", "gi": gi}) + "\n")
        scn = make_scn(seed, prop, fam, x)
        v, res = run_one(scn, prop)
        hist.append((fam, x))
        n += 1
        rec = {"t": "run", "gi": gi, "fam": fam, "x": x, "hash": res.hash if res else None}
        if res is not None:
            rec["nt"] = int(any(k.startswith("ops.") for k in res.stats))
            st = agg.setdefault("stats", {})
            for k, c in res.stats.items():
                st[k] = st.get(k, 0) + c
                rk = "runs:" + k
                if k.startswith("fault.") or k.startswith("cover."):
                    st[rk] = st.get(rk, 0) + 1
            agg["cycles"] = agg.get("cycles", 0) + res.cycles
            agg["time"] = agg.get("time", 0) + res.time
            agg["callbacks"] = agg.get("callbacks", 0) + res.ncb
            agg["changes"] = agg.get("changes", 0) + res.nchanges
            agg.setdefault("states", set()).update((fam, s) for s in res.states)
            for o in res.other:
                k = "%s(%s)" % (o.kind, ",".join(o.props))
                agg.setdefault("other", {})[k] = agg.setdefault("other", {}).get(k, 0) + 1
            if first is None:
                first = (scn, res.hash)
        out.write(json.dumps(rec) + "\n")
        if v is not None:
            if not known_match(prop, v):
                with low.get_lock():
                    low.value = min(low.value, gi)
                out.write(json.dumps({"t": "viol", "gi": gi, "fam": fam, "x": x, "v": v,
                                      "hash": res.hash if res else None, "hist": hist[-400:]}) + "\n")
                break
            k = known_match(prop, v)
            agg.setdefault("known", {})[k] = agg.setdefault("known", {}).get(k, 0) + 1
    if first is not None:
        _, r2 = run_one(first[0], prop)
        agg["reexec"] = 1
        agg["reexec_mismatch"] = int(r2 is None or r2.hash != first[1])
    agg["states"] = sorted(hash(s) & 0xffffffffffff for s in agg.get("states", ()))
    out.write(json.dumps({"t": "agg", "w": w, "agg": agg}) + "\n")
    out.close()


class Low:
    """Shared lowest failing index (file-lock based, survives killed workers)."""

    def __init__(self):
        import mmap
        self.m = mmap.mmap(-1, 8)
        self.m[:] = (2**62).to_bytes(8, "little")

    @property
    def value(self):
        return int.from_bytes(self.m[:], "little")

    @value.setter
    def value(self, v):
        self.m[:] = v.to_bytes(8, "little")

    def get_lock(self):
        class L:
            def __enter__(s):
                return s

            def __exit__(s, *a):
                return False
        return L()


def search(prop, seed, jobs, nw, deadline):
    low = Low()
    procs = {}
    bufs = {}
    last = {}
    sys.stdout.flush()
    for w in range(nw):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            rc = 3
            try:
                os.close(r)
                for rr in list(procs):
                    os.close(rr)
                worker(w, nw, jobs, prop, seed, wfd, deadline, low)
                rc = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(rc)
        os.close(wfd)
        fcntl.fcntl(r, fcntl.F_SETFL, os.O_NONBLOCK)
        procs[r] = (pid, w)
        bufs[r] = b""
        last[r] = (time.time(), None)
    runs, viols, aggs, errors = [], [], [], []

    def line(r, ln):
        d = json.loads(ln)
        if d["t"] == "begin":
            last[r] = (time.time(), d["gi"])
        elif d["t"] == "run":
            runs.append((d["gi"], d["fam"], d["hash"], d.get("nt", 0)))
            last[r] = (time.time(), None)
        elif d["t"] == "viol":
            viols.append(d)
        elif d["t"] == "agg":
            aggs.append(d["agg"])

    while procs:
        rd, _, _ = select.select(list(procs), [], [], 1.0)
        for r in rd:
            eof = False
            while True:
                try:
                    data = os.read(r, 1 << 16)
                except BlockingIOError:
                    break
                if not data:
                    eof = True
                    break
                bufs[r] += data
            *lines, bufs[r] = bufs[r].split(b"\n")
            for ln in lines:
                line(r, ln)
            if eof:
                pid, w = procs.pop(r)
                os.close(r)
                _, st = os.waitpid(pid, 0)
                if st != 0:
                    t, gi = last[r]
                    if os.WIFSIGNALED(st) and gi is not None:
                        fam, x = locate(jobs, gi)
                        viols.append({"gi": gi, "fam": fam, "x": x, "hash": None, "hist": [],
                                      "v": {"kind": "died", "properties": ["*"], "cycle": -1, "time_ps": -1,
                                            "message": "the process running the scenario was ended by signal %d" % os.WTERMSIG(st)}})
                        low.value = min(low.value, gi)
                    else:
                        errors.append("worker %d ended with status %d" % (w, st))
        now = time.time()
        for r, (pid, w) in list(procs.items()):
            t, gi = last[r]
            if gi is not None and now - t > RUN_WALL * 8:
                os.kill(pid, signal.SIGKILL)
    return runs, viols, aggs, errors


def locate(jobs, gi):
    for fam, cnt in jobs:
        if gi < cnt:
            return fam, gi
        gi -= cnt
    raise IndexError(gi)


# ------------------------------------------------------------------ known findings
_known = None


def known_match(prop, v):
    global _known
    if _known is None:
        _known = []
        if os.path.exists(KNOWN):
            for ln in open(KNOWN):
                m = re.match(r"known: property=(\S+) kind=(\S+) match=/(.*)/ (.*)", ln.strip())
                if m:
                    _known.append((m.group(1), m.group(2), re.compile(m.group(3)), m.group(4)))
    for p, k, rx, what in _known:
        if p == prop and k == v["kind"] and rx.search(v["message"]):
            return what
    return None


# ------------------------------------------------------------------ minimiser
def _paths(o, path=()):
    yield path, o
    if isinstance(o, dict):
        for k in sorted(o):
            yield from _paths(o[k], path + (k,))
    elif isinstance(o, list):
        for i, x in enumerate(o):
            yield from _paths(x, path + (i,))


def _get(o, path):
    for p in path:
        o = o[p]
    return o


def _set(o, path, v):
    o = copy.deepcopy(o)
    t = o
    for p in path[:-1]:
        t = t[p]
    t[path[-1]] = v
    return o


def _del(o, path):
    o = copy.deepcopy(o)
    t = o
    for p in path[:-1]:
        t = t[p]
    del t[path[-1]]
    return o


FIXED_KEYS = {"family", "seed", "max_cycles", "period"}


def minimise(scn, prop, cls, budget):
    """Delta debugging over the scenario's lists, then scalar simplification."""
    from dst import plan
    fam = plan.family(scn["family"])
    t0 = time.time()
    tried = [0]
    seen = set()

    def ok(c):
        if time.time() - t0 > budget:
            return False
        try:
            c = fam.normalise(c)
        except Exception:
            return False
        key = json.dumps(c, sort_keys=True)
        if key in seen:
            return False
        seen.add(key)
        tried[0] += 1
        try:
            v, _ = run_one(c, prop, wall=10)
        except Exception:
            return False
        return v is not None and vclass(v) == cls

    cur = scn
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        # lists, longest first
        lists = sorted([(len(o), p) for p, o in _paths(cur) if isinstance(o, list) and o], reverse=True)
        for ln, p in lists:
            try:
                lst = _get(cur, p)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            size = len(lst)
            while size >= 1:
                i = 0
                while True:
                    lst = _get(cur, p)
                    if i >= len(lst):
                        break
                    c = _set(cur, p, lst[:i] + lst[i + size:])
                    if ok(c):
                        cur = fam.normalise(c)
                        progress = True
                    else:
                        i += size
                    if time.time() - t0 > budget:
                        break
                size //= 2
        # optional fields and scalars
        for p, o in list(_paths(cur)):
            if not p or p[-1] in FIXED_KEYS or time.time() - t0 > budget:
                continue
            try:
                o = _get(cur, p)
            except (KeyError, IndexError, TypeError):
                continue
            cands = []
            if p == ("sched",) and o != "fifo":
                cands.append("fifo")
            elif p == ("log",) and o != "none":
                cands.append("none")
            elif p[-1] in ("jitter", "gates", "d", "ph", "mut") and isinstance(p[-1], str):
                c = _del(cur, p)
                if ok(c):
                    cur = fam.normalise(c)
                    progress = True
                continue
            elif isinstance(o, dict) and o.get("k") not in (None, "none") and set(o) <= {"k", "p", "on", "off", "d", "max"}:
                cands.append({"k": "none"})
            elif isinstance(o, bool):
                if o:
                    cands.append(False)
            elif isinstance(o, int) and p[-1] not in ("seed",) and p[0] != "cfg":
                for c in (0, 1, o // 2, o - 1):
                    if 0 <= c < o and c not in cands:
                        cands.append(c)
            for c in cands:
                c2 = _set(cur, p, c)
                if ok(c2):
                    cur = fam.normalise(c2)
                    progress = True
                    break
    return cur, tried[0]


def in_child(fn, timeout):
    """Runs fn() in a forked child, returns its JSON-able result or None."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            res = fn()
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(res))
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    end = time.time() + timeout
    while True:
        rd, _, _ = select.select([r], [], [], max(0, end - time.time()))
        if not rd:
            os.kill(pid, signal.SIGKILL)
            break
        d = os.read(r, 1 << 16)
        if not d:
            break
        data += d
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(data)
    except ValueError:
        return None


# ------------------------------------------------------------------ replay
def replay_file(prop, path, quiet=False):
    with open(path) as f:
        d = json.load(f)
    if d["property"] != prop:
        print("replay file is for %s" % d["property"])
        return 2
    for s in d.get("prelude", []):
        scn = make_scn(*s) if isinstance(s, list) else s
        run_one(scn, prop)
    v, res = run_one(d["scenario"], prop)
    h = res.hash if res else None
    if v is None:
        print("replay: no violation of %s" % prop)
        return 0
    same = vclass(v) == vclass(d["violation"]) and (h == d.get("trace_hash"))
    print("replay: %s: %s" % (v["kind"], v["message"]))
    print("replay: trace hash %s, recorded %s: %s" % (h, d.get("trace_hash"), "identical execution" if same else "DIFFERENT execution"))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def report(prop, seed, viol, deadline, args):
    """Minimise, verify in a fresh process, write the replay file."""
    fam, x, v = viol["fam"], viol["x"], viol["v"]
    scn = make_scn(seed, prop, fam, x)
    os.makedirs(os.path.join(HERE, "failures"), exist_ok=True)
    cls = vclass(v)
    meta = {"property": prop, "violation": v, "trace_hash": viol["hash"], "verif_seed": seed, "family": fam, "index": x}

    def write(scn, v, h, prelude=None, minimised=None, tried=0):
        d = dict(meta, scenario=scn, violation=v, trace_hash=h, minimised=bool(minimised), minimiser_runs=tried)
        if prelude:
            d["prelude"] = prelude
        name = "%s-%s-%s.json" % (prop, fam, hashlib.sha256(json.dumps(scn, sort_keys=True).encode()).hexdigest()[:10])
        path = os.path.join(HERE, "failures", name)
        with open(path, "w") as f:
            json.dump(d, f, indent=1)
            f.write("\n")
        return path

    def fresh(path):
        try:
            p = subprocess.run([sys.executable, os.path.abspath(__file__), prop, "--replay", path], stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, timeout=RUN_WALL * 8, text=True, env=dict(os.environ, PYTHONHASHSEED="7"))
        except subprocess.TimeoutExpired:
            return v["kind"] == "hang"
        return p.returncode == 1 and ("identical execution" in p.stdout or v["kind"] in ("hang", "died"))

    budget = args.min_budget
    if v["kind"] in ("hang", "died"):
        path = write(scn, v, viol["hash"])
        fresh(path)
        return path, v

    def mini():
        c, tried = minimise(scn, prop, cls, budget)
        v2, res = run_one(c, prop)
        return {"scn": c, "tried": tried, "v": v2, "hash": res.hash if res else None}
    m = in_child(mini, budget + 60)
    if m is not None and m["v"] is not None and vclass(m["v"]) == cls:
        path = write(m["scn"], m["v"], m["hash"], minimised=True, tried=m["tried"])
        if fresh(path):
            return path, m["v"]
        os.unlink(path)
    path = write(scn, v, viol["hash"])
    if fresh(path):
        return path, v
    # depends on what ran before in the same process: replay with its history
    hist = [[seed, prop, f, i] for f, i in viol["hist"][:-1]]
    for k in (1, 8, 50, len(hist)):
        path = write(scn, v, viol["hash"], prelude=hist[-k:])
        if fresh(path):
            return path, v
    print("note: could not be reproduced exactly in a fresh process")
    return path, v


# ------------------------------------------------------------------ evidence
def evidence(prop, tier, seed, runs, aggs, wall, nviol, jobs, samples, requested):
    tot = {}
    for a in aggs:
        for k, c in a.get("stats", {}).items():
            tot[k] = tot.get(k, 0) + c
    states = set()
    for a in aggs:
        states.update(a.get("states", []))
    hs = {(f, h) for gi, f, h, nt in runs if nt and h}
    allh = {(f, h) for gi, f, h, nt in runs if h}
    simt = sum(a.get("time", 0) for a in aggs)
    faults = {k[6:]: {"times": c, "runs": tot.get("runs:" + k, 0)} for k, c in sorted(tot.items()) if k.startswith("fault.")}
    real = {k[5:]: c for k, c in sorted(tot.items()) if k.startswith("real.")}
    stub = {k[5:]: c for k, c in sorted(tot.items()) if k.startswith("stub.")}
    other = {}
    for a in aggs:
        for k, c in a.get("other", {}).items():
            other[k] = other.get(k, 0) + c
    cov = {
        "evaluations": len(runs),
        "distinct_nontrivial": len(hs),
        "rule": "Each case is one simulated execution of a scenario generated from (VERIF_SEED, property, family, index): "
                "configuration, client operations, stall/pause patterns, clock gating and jitter, reset pulses, error placement and the "
                "seeded schedule. Distinct = distinct hash over the time-stamped sequence of every signal change of the execution; "
                "non-trivial = at least one client operation completed in it.",
        "samples": samples,
        "requested_runs": requested,
        "runs_per_family": {f: sum(1 for r in runs if r[1] == f) for f, _ in jobs},
        "distinct_executions": len(allh),
        "runs_per_hour": int(len(runs) / max(wall, 1e-6) * 3600),
        "seeds_per_hour": int(len(runs) / max(wall, 1e-6) * 3600),
        "simulated_time_s": simt / 1e12,
        "simulated_clock_cycles": sum(a.get("cycles", 0) for a in aggs),
        "simulator_callbacks": sum(a.get("callbacks", 0) for a in aggs),
        "signal_changes": sum(a.get("changes", 0) for a in aggs),
        "faults_injected": faults,
        "operations": {k[4:]: c for k, c in sorted(tot.items()) if k.startswith("ops.")},
        "rare_conditions_hit": {k[6:]: {"times": c, "runs": tot.get("runs:" + k, 0)} for k, c in sorted(tot.items()) if k.startswith("cover.")},
        "schedule_permutations": {k[6:]: c for k, c in sorted(tot.items()) if k.startswith("sched.")},
        "distinct_abstract_states": len(states),
        "state_measure": "distinct tuples of (queue depth, outstanding work, handshake phase of the observed channels, reset, pause) "
                         "sampled when each time step settles, plus distinct_executions as the interleaving measure",
        "components_real": ["cocotb scheduler, triggers, queues and handles", "cocotb_bus.bus.Bus", "cocotbext.axi (from /repo)"] + sorted(real),
        "components_stubbed": ["cocotb.simulator (GPI) and all signals: dst/gpi.py", "clock, reset and peer hardware: dst/hw.py"] + sorted(stub),
        "component_use": {"real": real, "stub": stub},
        "reexecuted_in_process": {"runs": sum(a.get("reexec", 0) for a in aggs), "mismatches": sum(a.get("reexec_mismatch", 0) for a in aggs)},
        "violations_of_other_properties_seen": other,
        "wall_limit_reached": any(a.get("deadline") for a in aggs),
    }
    return {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
            "assumptions": ["the simulated GPI (dst/gpi.py) delivers callbacks as an IEEE 1364/1800 simulator may",
                            "signals change only through the models, the reference peers and the scheduled faults",
                            "sampling, not enumeration: a clean batch is evidence, not proof"],
            "wall_s": round(wall, 2), "violations": nviol}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--setup", action="store_true", help="check that the simulator boots")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--runs", type=int, default=0, help="override the number of runs per family")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--family")
    ap.add_argument("--min-budget", type=float, default=60)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--max-wall", type=float, default=0)
    ap.add_argument("--hashes", help="write the trace hash of every run to this file")
    args = ap.parse_args()
    os.environ.setdefault("LC_ALL", "C")
    from dst import plan, kernel  # noqa: F401
    if args.selftest:
        return selftest(args)
    if args.setup:
        for p in plan.PLAN:
            for f, q, t in plan.PLAN[p]:
                plan.family(f)
        print("simulator ready")
        return 0
    prop = args.property
    if args.replay:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        return replay_file(prop, args.replay)
    if prop not in plan.PLAN:
        print("unknown property %r" % prop)
        return 2
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    jobs = []
    for fam, q, t in plan.PLAN[prop]:
        if args.family and fam != args.family:
            continue
        plan.family(fam)
        n = args.runs or max(1, int((q if tier == "quick" else t) * args.scale))
        jobs.append((fam, n))
    t0 = time.time()
    print("check %s tier=%s seed=%d workers=%d jobs=%s" % (prop, tier, seed, args.workers, jobs), flush=True)
    wall = args.max_wall or (480 if tier == "quick" else 7200)
    runs, viols, aggs, errors = search(prop, seed, jobs, args.workers, t0 + wall)
    wall = time.time() - t0
    samples = []
    for fam, n in jobs[:3]:
        samples.append({"family": fam, "index": 0, "scenario": make_scn(seed, prop, fam, 0)})
    if not args.no_evidence:
        ev = evidence(prop, tier, seed, runs, aggs, wall, len(viols), jobs, samples, sum(j[1] for j in jobs))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    if args.hashes:
        with open(args.hashes, "w") as f:
            for r in sorted(runs):
                f.write("%s %s %s\n" % (r[0], r[1], r[2]))
    known = {}
    for a in aggs:
        for k, c in a.get("known", {}).items():
            known[k] = known.get(k, 0) + c
    for k, c in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, k, c))
    print("%d runs in %.1f s (%.0f runs/h), %d violations" % (len(runs), wall, len(runs) / max(wall, 1e-6) * 3600, len(viols)), flush=True)
    if viols:
        viol = min(viols, key=lambda d: d["gi"])
        path, v = report(prop, seed, viol, None, args)
        print("%s: %s (family %s, index %d, cycle %d)" % (v["kind"], v["message"], viol["fam"], viol["x"], v["cycle"]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if errors:
        print("HARNESS ERROR: " + "; ".join(errors), file=sys.stderr)
        return 2
    return 0


def selftest(args):
    """Same seeds -> same executions for any process, worker count and hash seed."""
    from dst import plan
    import tempfile
    bad = 0
    total = 0
    props = [args.property] if args.property else sorted(plan.PLAN)
    with tempfile.TemporaryDirectory() as td:
        for prop in props:
            logs = []
            for k, (nw, hs) in enumerate([(1, "0"), (3, "1"), (8, "random"), (8, "12345")]):
                f = os.path.join(td, "%s-%d" % (prop, k))
                subprocess.run([sys.executable, os.path.abspath(__file__), prop, "--runs", str(args.runs or 40), "--workers", str(nw),
                                "--no-evidence", "--hashes", f], env=dict(os.environ, PYTHONHASHSEED=hs), stdout=subprocess.DEVNULL)
                logs.append(open(f).read().splitlines())
            diff = sum(1 for t in zip(*logs) if len(set(t)) != 1) + (len({len(x) for x in logs}) != 1)
            total += len(logs[0])
            bad += diff
            print("%s: %d executions x %d process layouts, %d differ" % (prop, len(logs[0]), len(logs), diff), flush=True)
    print("selftest: %d executions, %d differ" % (total, bad))
    return 0 if not bad else 2


if __name__ == "__main__":
    sys.exit(main())
