"""
Runs, isolates, aggregates, minimises, replays.

Every run is executed in a process forked from a pristine parent, so a run is a
function of (code, tape) alone: no state leaks from one run to the next.
"""

import gc
import hashlib
import importlib
import json
import os
import pickle
import resource
import select
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

from . import core, seams
from .core import CUR, Discard, Hang, Sim, StepBudget, Tape, Violation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
LIBDIR = os.path.join(REPO, "comb_spec_searcher") + os.sep
KNOWN = os.path.join(VERIF, "known_findings.json")

RUN_WALL = 45.0  # seconds of wall clock before a run is suspected to hang
RUN_MEM = 3 << 29  # bytes
STEP_BUDGET = 120_000_000
COUNT_WALL = 200.0


def now():
    return core.REAL_TIME()


def load_prop(pid):
    return importlib.import_module("dst.props." + pid.lower())


def import_library():
    if REPO not in sys.path[:2]:
        sys.path.insert(0, REPO)
    import comb_spec_searcher

    path = os.path.abspath(comb_spec_searcher.__file__)
    if not path.startswith(LIBDIR):
        raise SystemExit(f"comb_spec_searcher imported from {path}, not {LIBDIR}")
    import pkgutil

    for m in pkgutil.walk_packages(
        comb_spec_searcher.__path__, "comb_spec_searcher."
    ):
        importlib.import_module(m.name)


# ---------------------------------------------------------------------------
# one run
# ---------------------------------------------------------------------------
def tape_seed(seed, pid, index):
    h = hashlib.sha256(f"{seed}/{pid}/{index}".encode()).digest()
    return int.from_bytes(h[:16], "big")


def _lib_frames(tb):
    res = []
    for fr in traceback.extract_tb(tb):
        if os.path.abspath(fr.filename).startswith(LIBDIR):
            res.append(fr)
    return res


def execute(pid, tape, keep_trace=False, tier="quick"):
    """Run the body of the property once in this process."""
    mod = load_prop(pid)
    sim = Sim(tape, keep_trace)
    sim.tier = tier
    res = {"status": "ok", "kind": None, "msg": None}
    cpu0 = core.REAL_CPU()
    CUR[0] = sim
    try:
        mod.body(sim)
    except Violation as e:
        res.update(status="violation", kind=e.kind, msg=e.msg)
    except Discard as e:
        res.update(status="discard", kind=str(e))
    except (Hang, StepBudget):
        raise
    except BaseException as e:  # pylint: disable=broad-except
        lib = _lib_frames(e.__traceback__)
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        if lib and not isinstance(e, (KeyboardInterrupt, SystemExit)):
            # a run that fills the memory it is given (RUN_MEM) never stops growing
            where = "any" if isinstance(e, MemoryError) else lib[-1].name
            res.update(
                status="violation",
                kind=f"exception:{type(e).__name__}:{where}",
                msg=text[-6000:],
            )
        else:
            res.update(status="error", kind=type(e).__name__, msg=text[-6000:])
    finally:
        CUR[0] = None
    res["cpu"] = core.REAL_CPU() - cpu0
    res["digest"] = sim.hash.hexdigest()[:24]
    res["nev"] = sim.nev
    res["rec"] = sim.tape.rec
    fired = Counter(sim.faults)
    fired.update(sim.clock.fired)
    res["faults"] = dict(fired)
    res["probes"] = dict(sim.probes)
    res["states"] = sim.states
    res["trace"] = sim.trace
    res["nontrivial"] = sim.nontrivial
    res["simtime"] = sim.clock.now - sim.clock.t0
    res["reads"] = sim.clock.reads
    return res


def _child(fn, wfd):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (RUN_MEM, RUN_MEM))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        res = fn()
        data = pickle.dumps(res)
    except BaseException as e:  # pylint: disable=broad-except
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        try:
            data = pickle.dumps(
                {"status": "error", "kind": type(e).__name__, "msg": text[-4000:]}
            )
        except BaseException:  # pylint: disable=broad-except
            os._exit(3)
    try:
        view = memoryview(data)
        while view:
            k = os.write(wfd, view)
            view = view[k:]
        os.close(wfd)
    finally:
        os._exit(0)


def forked(fn, wall):
    """Run fn in a forked child; returns its result, or a status dict."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        _child(fn, wfd)
        os._exit(4)
    os.close(wfd)
    chunks = []
    deadline = core.REAL_MONO() + wall
    timed_out = False
    while True:
        left = deadline - core.REAL_MONO()
        if left <= 0:
            timed_out = True
            break
        r, _, _ = select.select([rfd], [], [], left)
        if not r:
            timed_out = True
            break
        b = os.read(rfd, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(rfd)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if timed_out:
        return {"status": "hang", "kind": "hang", "msg": f"no answer in {wall}s"}
    data = b"".join(chunks)
    if not data:
        return {"status": "error", "kind": "died", "msg": f"child ended with status {st}"}
    return pickle.loads(data)


def _counting(pid, tape, tier):
    """Execute under a deterministic step budget (events of the interpreter)."""
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, "dst-steps")
    left = [STEP_BUDGET]

    def ev(*_args):
        left[0] -= 1
        if left[0] < 0:
            mon.set_events(tool, 0)
            raise StepBudget

    E = mon.events
    for e in (E.PY_START, E.PY_RESUME, E.JUMP, E.BRANCH):
        mon.register_callback(tool, e, ev)
    mon.set_events(tool, E.PY_START | E.PY_RESUME | E.JUMP | E.BRANCH)
    try:
        return execute(pid, tape, True, tier)
    except StepBudget:
        CUR[0] = None
        return {
            "status": "violation",
            "kind": "no-progress",
            "msg": f"the run did not finish within {STEP_BUDGET} interpreter steps",
            "rec": tape.rec,
            "digest": "step-budget",
            "faults": {},
            "probes": {},
            "states": set(),
            "trace": [],
            "nev": 0,
            "nontrivial": True,
            "simtime": 0,
            "reads": 0,
            "cpu": 0,
        }
    finally:
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)


def run_one(pid, mk_tape, keep_trace=False, tier="quick", wall=RUN_WALL):
    res = forked(lambda: execute(pid, mk_tape(), keep_trace, tier), wall)
    if res["status"] == "hang":
        res2 = forked(lambda: _counting(pid, mk_tape(), tier), COUNT_WALL)
        if res2["status"] == "hang":
            return {
                "status": "error",
                "kind": "wall-timeout",
                "msg": "run neither finished nor used up its step budget",
            }
        res2["was_hang"] = True
        return res2
    return res


# ---------------------------------------------------------------------------
# batch
# ---------------------------------------------------------------------------
def load_known(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN, encoding="utf8") as f:
        data = json.load(f)
    return [
        e
        for e in data.get("findings", [])
        if e.get("property") == pid and e.get("status") == "known"
    ]


def match_known(known, res):
    for e in known:
        if e["kind"] == res["kind"] and e.get("contains", "") in (res["msg"] or ""):
            return e
    return None


def _worker(pid, seed, indices, tier, deadline, wfd, known):
    out = os.fdopen(wfd, "wb")

    def send(obj):
        pickle.dump(obj, out)
        out.flush()

    for i in indices:
        if core.REAL_MONO() > deadline:
            send(("timeup", i, None))
            break
        res = run_one(pid, lambda: Tape(seed=tape_seed(seed, pid, i)), tier=tier)
        res["index"] = i
        keep = res["status"] in ("violation", "error")
        if not keep:
            res.pop("rec", None)
            if i > 8:
                res.pop("trace", None)
        send(("res", i, res))
        if res["status"] == "violation" and not match_known(known, res):
            break
        if res["status"] == "error":
            break
    send(("done", -1, None))
    out.close()
    os._exit(0)


def batch(pid, seed, nruns, tier, wall, workers, first=0):
    """Returns (results, stopped_early_reason)."""
    known = load_known(pid)
    gc.collect()
    gc.freeze()
    deadline = core.REAL_MONO() + wall
    procs = {}
    for w in range(workers):
        rfd, wfd = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(rfd)
            for fd in list(procs):
                os.close(fd)
            try:
                os.setpgid(0, 0)
                _worker(
                    pid, seed, range(first + w, first + nruns, workers), tier,
                    deadline, wfd, known,
                )
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
                os._exit(5)
        os.close(wfd)
        procs[rfd] = [p, b"", False]
    results = []
    stop = None
    bad = []
    try:
        while procs:
            left = deadline + RUN_WALL + COUNT_WALL + 30 - core.REAL_MONO()
            r, _, _ = select.select(list(procs), [], [], max(0.0, left))
            if not r:
                stop = "workers-stuck"
                break
            for fd in r:
                b = os.read(fd, 1 << 20)
                ent = procs[fd]
                if not b:
                    os.close(fd)
                    os.waitpid(ent[0], 0)
                    if not ent[2]:
                        bad.append("worker died")
                    del procs[fd]
                    continue
                ent[1] += b
                buf = ent[1]
                while True:
                    try:
                        import io

                        bio = io.BytesIO(buf)
                        obj = pickle.load(bio)
                    except (EOFError, pickle.UnpicklingError):
                        break
                    buf = buf[bio.tell():]
                    tag, i, res = obj
                    if tag == "res":
                        results.append(res)
                        if res["status"] == "violation" and not match_known(known, res):
                            stop = stop or "violation"
                        if res["status"] == "error":
                            stop = stop or "error"
                    elif tag == "timeup":
                        stop = stop or "timeup"
                    elif tag == "done":
                        ent[2] = True
                ent[1] = buf
            if stop in ("violation", "error"):
                break
    finally:
        for fd, ent in procs.items():
            try:
                os.killpg(ent[0], signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(ent[0], 0)
            except OSError:
                pass
            os.close(fd)
    if bad and stop is None:
        stop = "error"
        results.append({"status": "error", "kind": "worker", "msg": "; ".join(bad),
                        "index": -1})
    return results, stop


# ---------------------------------------------------------------------------
# minimisation
# ---------------------------------------------------------------------------
def minimise(pid, rec, kind, tier, wall=60.0, log=None):
    best = list(rec)
    deadline = core.REAL_MONO() + wall
    seen = set()
    tries = [0]

    def test(c):
        key = tuple(c)
        if key in seen or core.REAL_MONO() > deadline:
            return None
        seen.add(key)
        tries[0] += 1
        res = forked(lambda: execute(pid, Tape(choices=list(c)), False, tier), 15.0)
        if res["status"] == "violation" and res["kind"] == kind:
            return res["rec"]
        return None

    def better(a, b):
        return (len(a), sum(a)) < (len(b), sum(b))

    improved = True
    while improved and core.REAL_MONO() < deadline:
        improved = False
        # cut the end
        n = len(best)
        k = n // 2
        while k >= 1 and core.REAL_MONO() < deadline:
            r = test(best[: len(best) - k]) if k <= len(best) else None
            if r is not None and better(r, best):
                best = r
                improved = True
            else:
                k //= 2
        # delete chunks
        size = max(1, len(best) // 2)
        while size >= 1 and core.REAL_MONO() < deadline:
            i = 0
            while i < len(best) and core.REAL_MONO() < deadline:
                r = test(best[:i] + best[i + size:])
                if r is not None and better(r, best):
                    best = r
                    improved = True
                else:
                    i += size
            size //= 2
        # zero chunks
        size = max(1, len(best) // 2)
        while size >= 1 and core.REAL_MONO() < deadline:
            i = 0
            while i < len(best) and core.REAL_MONO() < deadline:
                if any(best[i: i + size]):
                    r = test(best[:i] + [0] * len(best[i: i + size]) + best[i + size:])
                    if r is not None and better(r, best):
                        best = r
                        improved = True
                i += size
            size //= 2
        # lower values
        i = 0
        while i < len(best) and core.REAL_MONO() < deadline:
            v = best[i]
            for nv in ([v // 2, v - 1] if v > 1 else []):
                r = test(best[:i] + [nv] + best[i + 1:])
                if r is not None and better(r, best):
                    best = r
                    improved = True
                    break
            i += 1
    if log:
        log(f"minimised {len(rec)} -> {len(best)} choices in {tries[0]} executions")
    return best


def write_replay(pid, seed, tier, res, choices):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    d = {
        "property": pid,
        "seed": seed,
        "index": res.get("index"),
        "tier": tier,
        "kind": res["kind"],
        "msg": res["msg"],
        "digest": res.get("digest"),
        "choices": choices,
        "trace": res.get("trace", []),
    }
    h = hashlib.sha256(json.dumps([pid, choices]).encode()).hexdigest()[:10]
    path = os.path.join(VERIF, "replays", f"{pid}-{h}.json")
    with open(path, "w", encoding="utf8") as f:
        json.dump(d, f, indent=1)
    return path


def replay_fresh(path):
    """Replay in a fresh interpreter; returns (exit code, output)."""
    env = dict(os.environ)
    p = subprocess.run(
        [sys.executable, "-m", "dst.cli", "replay", path],
        cwd=VERIF,
        env=env,
        capture_output=True,
        text=True,
        timeout=RUN_WALL + COUNT_WALL + 60,
        check=False,
    )
    return p.returncode, p.stdout + p.stderr


# ---------------------------------------------------------------------------
# check
# ---------------------------------------------------------------------------
def check(pid, tier, seed, workers=None, nruns=None, wall=None, first=0):
    t0 = core.REAL_MONO()
    mod = load_prop(pid)
    workers = workers or min(8, os.cpu_count() or 1)
    nruns = nruns or mod.RUNS[tier]
    wall = wall or (240.0 if tier == "quick" else 3000.0)
    print(f"{pid} tier={tier} VERIF_SEED={seed} runs={nruns} workers={workers} repo={REPO}",
          flush=True)
    results, stop = batch(pid, seed, nruns, tier, wall, workers, first)
    results.sort(key=lambda r: r.get("index", -1))
    known = load_known(pid)
    faults, probes = Counter(), Counter()
    states = set()
    digests = set()
    status = Counter()
    simtime = 0.0
    reads = nev = 0
    cpu_max = 0.0
    violations, errors, kf = [], [], Counter()
    for r in results:
        status[r["status"]] += 1
        if r["status"] == "error":
            errors.append(r)
            continue
        if r["status"] == "violation":
            e = match_known(known, r)
            if e:
                kf[e["id"]] += 1
            else:
                violations.append(r)
        faults.update(r["faults"])
        probes.update(r["probes"])
        states |= r["states"]
        if r["nontrivial"]:
            digests.add(r["digest"])
        simtime += r["simtime"]
        reads += r["reads"]
        nev += r["nev"]
        cpu_max = max(cpu_max, r["cpu"])
    samples = [
        {"index": r["index"], "digest": r["digest"], "events": r["trace"]}
        for r in results
        if r.get("trace") and r["status"] == "ok"
    ][:3]
    wall_s = core.REAL_MONO() - t0
    for e in known:
        print(f"KNOWN-FINDING: property={pid} {e['what']}"
              f" (met {kf.get(e['id'], 0)} times in this batch)")
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(digests),
            "rule": mod.RULE
            + " Two runs are distinct when their full event logs hash differently.",
            "samples": samples or [{"note": "no sample recorded"}],
            "simulated_runs": len(results),
            "runs_per_hour": int(len(results) / max(wall_s, 1e-9) * 3600),
            "seeds_per_hour": int(len(results) / max(wall_s, 1e-9) * 3600),
            "simulated_seconds": round(simtime, 1),
            "clock_reads": reads,
            "events_logged": nev,
            "distinct_states": len(states),
            "faults_fired": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "run_outcomes": dict(status),
            "max_run_cpu_s": round(cpu_max, 2),
            "stopped": stop or "all runs done",
            "state_measure": getattr(mod, "STATES", ""),
            "real_components": getattr(mod, "REAL", []),
            "stubbed_components": getattr(mod, "STUB", []),
            "known_findings_met": dict(kf),
        },
        "assumptions": getattr(mod, "ASSUME", []),
        "wall_s": round(wall_s, 2),
        "violations": len(violations),
    }
    # --- outcome ------------------------------------------------------------
    rc = 0
    lines = []
    if violations:
        rc = 2
        # the first violation that replays in a fresh process is the one reported
        budget = 60.0 if tier == "quick" else 300.0
        for n, v in enumerate(violations[:6]):
            print(f"violation found: run index {v['index']} kind={v['kind']}")
            print(v["msg"])
            tapes = [list(v["rec"])]
            if v["kind"] != "no-progress" and n < 2:
                tapes.insert(0, list(minimise(pid, v["rec"], v["kind"], tier,
                                              wall=budget, log=print)))
            for choices in tapes:
                final = run_one(pid, lambda c=choices: Tape(choices=list(c)), True, tier)
                if final["status"] != "violation":
                    print("the violation did not reproduce from this tape")
                    continue
                final["index"] = v["index"]
                path = write_replay(pid, seed, tier, final, choices)
                code, out = replay_fresh(path)
                if code != 1:
                    print("the replay in a fresh process differs")
                    print(out)
                    continue
                print("minimised trace:")
                for line in final.get("trace", [])[:60]:
                    print("   ", line)
                print(final["msg"])
                lines.append(f"VIOLATION property={pid} replay={path}")
                rc = 1
                break
            if rc == 1:
                break
        else:
            print("HARNESS-ERROR: no violation could be replayed in a fresh process")
    elif errors:
        print("HARNESS-ERROR:", errors[0]["kind"])
        print(errors[0]["msg"])
        rc = 2
    elif stop == "workers-stuck":
        print("HARNESS-ERROR: workers stuck")
        rc = 2
    elif len(results) < min(nruns, getattr(mod, "MIN_RUNS", 20)):
        print(f"HARNESS-ERROR: only {len(results)} runs were completed")
        rc = 2
    else:
        # a batch whose faults or probes never fired decided nothing
        missing = [p for p in getattr(mod, "MUST_HIT", []) if not (probes[p] or faults[p])]
        if missing and len(results) >= nruns:
            print(f"HARNESS-ERROR: probes never hit: {missing}")
            rc = 2
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w", encoding="utf8") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        f"{pid}: {len(results)} runs, {len(digests)} distinct non-trivial,"
        f" outcomes={dict(status)}, faults={sum(faults.values())}, wall={wall_s:.1f}s,"
        f" max run cpu={cpu_max:.2f}s"
    )
    for line in lines:
        print(line, flush=True)
    return rc
