"""Batch execution, minimisation, replay files, evidence."""
from __future__ import annotations

import hashlib
import json
import os
import pickle
import select
import signal
import struct
import subprocess
import sys
import time
import traceback
from collections import Counter
from dataclasses import dataclass, field

from .core import Sim, Violation, HarnessError, StepLimit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
RUN_ALARM = float(os.environ.get("DST_RUN_ALARM", "25"))
JOBS = int(os.environ.get("DST_JOBS", "8"))


@dataclass
class Scenario:
    name: str
    fn: object
    quick: int
    thorough: int
    chunk: int = 50          # runs per forked process (1: every run starts from the pristine process image)


@dataclass
class Check:
    id: str
    scenarios: list[Scenario]
    rule: str
    real: list[str]
    stub: list[str]
    assumptions: list[str] = field(default_factory=list)
    setup: object = None     # called once in the parent, before any fork
    max_wall: float = 420.0


class RunTimeout(BaseException):
    pass


def _in_repo(tb) -> bool:
    prefix = os.path.join(os.path.realpath(REPO), "src") + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(prefix):
            return True
        tb = tb.tb_next
    return False


def _repo_site(tb) -> str:
    """innermost /repo function of the traceback (stable under edits of line numbers)"""
    prefix = os.path.join(os.path.realpath(REPO), "src") + os.sep
    site = "?"
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(prefix):
            site = os.path.basename(fn) + ":" + tb.tb_frame.f_code.co_name
        tb = tb.tb_next
    return site


#: errors of a check's own code at what the package returned.  The inputs of a check never raise them: every seed was quiet.
UNUSABLE = (TypeError, ValueError, LookupError, AttributeError, ArithmeticError, AssertionError, struct.error)


def _of_module(e) -> bool:
    """a name the package does not have (any more): the check cannot tell"""
    return isinstance(e, AttributeError) and str(e).startswith(("module ", "type object "))


@dataclass
class Result:
    index: int
    digest: str = ""
    violation: tuple[str, str] | None = None
    harness: str | None = None
    choices: list[int] | None = None
    groups: list | None = None
    faults: Counter = field(default_factory=Counter)
    probes: Counter = field(default_factory=Counter)
    states: set = field(default_factory=set)
    now: int = 0
    n_events: int = 0
    capped: bool = False
    known: dict = field(default_factory=dict)
    events: list | None = None


def run_once(scn: Scenario, *, index: int = 0, seed: str | None = None, choices=None, keep_log=False,
             known=frozenset(), alarm: float | None = None) -> Result:
    sim = Sim(seed=seed, choices=choices, keep_log=keep_log, known=known)
    res = Result(index)

    def on_alarm(*_):
        raise RunTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, alarm or RUN_ALARM)
    try:
        scn.fn(sim)
    except Violation as v:
        res.violation = (v.key, v.message)
    except StepLimit:
        res.capped = True
    except RunTimeout:
        res.violation = ("hang", f"the run did not finish within {alarm or RUN_ALARM} s of real time")
    except HarnessError:
        res.harness = traceback.format_exc()
    except RecursionError as e:
        res.violation = ("unexpected-exception:RecursionError", str(e))
    except Exception as e:
        if _in_repo(e.__traceback__):
            res.violation = (f"unexpected-exception:{type(e).__name__}@{_repo_site(e.__traceback__)}",
                             "".join(traceback.format_exception(e)[-6:]))
            sim.log("VIOLATION", res.violation[0], repr(e)[:200])
            if res.violation[0] in known:
                sim.known_hit.setdefault(res.violation[0], str(e))
                res.violation = None
        elif isinstance(e, UNUSABLE) and not _of_module(e):
            """what the package returned cannot be what it is asked for: None, another type, an element short"""
            res.violation = (f"unusable-value:{type(e).__name__}", "".join(traceback.format_exception(e)[-6:]))
            sim.log("VIOLATION", res.violation[0], repr(e)[:200])
        else:
            res.harness = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    res.digest = sim.digest()
    res.faults, res.probes, res.states = sim.faults, sim.probes, sim.states
    res.now, res.n_events, res.known = sim.now, sim.n_events, sim.known_hit
    if res.violation or keep_log:
        res.choices, res.groups = sim.choices, sim.groups
    if keep_log:
        res.events = sim.events
    return res


# ---- forked execution ----------------------------------------------------------------------------------------------
def _spawn(fn):
    """run fn() in a forked child; returns (pid, fd)"""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 0
    try:
        os.close(r)
        import gc
        gc.freeze()
        data = pickle.dumps(fn(), protocol=pickle.HIGHEST_PROTOCOL)
    except BaseException:
        data = pickle.dumps(("ERR", traceback.format_exc()))
    try:
        view = memoryview(data)
        while view:
            n = os.write(w, view)
            view = view[n:]
    except BaseException:
        code = 3
    os._exit(code)


def run_isolated(scn, **kw) -> Result:
    pid, fd = _spawn(lambda: run_once(scn, **kw))
    data = b""
    while chunk := os.read(fd, 1 << 16):
        data += chunk
    os.close(fd)
    os.waitpid(pid, 0)
    if not data:
        return Result(kw.get("index", 0), violation=("process-died", "the simulated process died"), choices=kw.get("choices"))
    out = pickle.loads(data)
    if isinstance(out, tuple):
        return Result(kw.get("index", 0), harness=out[1])
    return out


def batch(check: Check, scn: Scenario, n: int, base_seed: str, known, deadline: float, jobs: int = JOBS):
    """run indexes 0..n-1; returns list of Result, stops handing out work after the first violation"""
    results: list[Result] = []
    live: dict[int, tuple[int, int, bytearray]] = {}
    nxt = 0
    stop_at = n

    def work(a, b):
        def go():
            out = []
            for i in range(a, b):
                r = run_once(scn, index=i, seed=f"{base_seed}/{i}", known=known)
                out.append(r)
                if r.violation or r.harness:
                    break
            return out
        return go

    truncated = False
    while True:
        while len(live) < jobs and nxt < stop_at:
            if time.monotonic() > deadline:
                truncated = True
                stop_at = nxt
                break
            a, b = nxt, min(nxt + scn.chunk, n)
            nxt = b
            pid, fd = _spawn(work(a, b))
            live[fd] = (pid, a, bytearray())
        if not live:
            break
        ready, _, _ = select.select(list(live), [], [], 5.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 18)
            pid, a, buf = live[fd]
            if chunk:
                buf += chunk
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del live[fd]
            if not buf:
                results.append(Result(a, violation=("process-died", "the process running the simulation died")))
                stop_at = min(stop_at, nxt)
                continue
            out = pickle.loads(bytes(buf))
            if isinstance(out, tuple):
                results.append(Result(a, harness=out[1]))
                stop_at = min(stop_at, nxt)
                continue
            results.extend(out)
            if any(r.violation or r.harness for r in out):
                stop_at = min(stop_at, nxt)
    results.sort(key=lambda r: r.index)
    return results, truncated


# ---- minimisation --------------------------------------------------------------------------------------------------
def minimise(scn: Scenario, choices: list[int], groups, key: str, known, budget_s: float = 25.0, max_tries: int = 600):
    t_end = time.monotonic() + budget_s
    tries = 0
    best = list(choices)
    best_groups = list(groups or [])

    def attempt(cand):
        nonlocal tries, best, best_groups
        if tries >= max_tries or time.monotonic() > t_end:
            return False
        tries += 1
        r = run_isolated(scn, choices=cand, known=known, alarm=10.0)
        if r.violation and r.violation[0] == key and r.choices is not None:
            cur = list(r.choices)
            while cur and cur[-1] == 0:
                cur.pop()
            if (len(cur), sum(cur)) < (len(best), sum(best)):
                best, best_groups = cur, list(r.groups or [])
                return True
        return False

    def over():
        return tries >= max_tries or time.monotonic() > t_end

    if key == "hang":
        return best, tries
    while best and best[-1] == 0:
        best.pop()
    progress = True
    while progress and not over():
        progress = False
        # 1. drop whole steps (largest first)
        gi = 0
        gs = sorted({g for g in best_groups if g[1] > g[0]}, key=lambda g: (g[0] - g[1], -g[0]))
        while gi < len(gs) and not over():
            a, b = gs[gi]
            if a < len(best) and attempt(best[:a] + best[b:]):
                progress = True
                gs = sorted({g for g in best_groups if g[1] > g[0]}, key=lambda g: (g[0] - g[1], -g[0]))
                gi = 0
            else:
                gi += 1
        # 2. drop blocks of draws
        size = max(1, len(best) // 2)
        while size >= 1 and not over():
            i = 0
            while i < len(best) and not over():
                if attempt(best[:i] + best[i + size:]):
                    progress = True
                else:
                    i += size
            size //= 2
        # 3. zero / reduce values
        size = max(1, len(best) // 4)
        while size >= 1 and not over():
            i = 0
            while i < len(best) and not over():
                seg = best[i:i + size]
                if any(seg) and attempt(best[:i] + [0] * len(seg) + best[i + size:]):
                    progress = True
                i += size
            size //= 2
        i = 0
        while i < len(best) and not over():
            for v in (1, best[i] // 2, best[i] - 1):
                if 0 < v < best[i] and attempt(best[:i] + [v] + best[i + 1:]):
                    progress = True
                    break
            i += 1
    return best, tries


# ---- known findings ------------------------------------------------------------------------------------------------
def load_known(pid: str):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {e["key"]: e["what"] for e in data.get("findings", []) if e["property"] == pid}


#: the quick run of a check is so many times the number given for a scenario
QUICK = 2


# ---- the check -----------------------------------------------------------------------------------------------------
def run_check(check: Check, tier: str, seed: int) -> int:
    t0 = time.monotonic()
    deadline = t0 + (check.max_wall if tier == "quick" else float(os.environ.get("DST_THOROUGH_WALL", "780")))
    failed = setup_fails(check)
    if failed:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{check.id}.json"), "w") as f:
            json.dump({"property": check.id, "tier": tier, "seed": seed, "level": "exploration", "violations": 1, "wall_s": round(time.monotonic() - t0, 3), "assumptions": check.assumptions,
                       "coverage": {"evaluations": 1, "distinct_nontrivial": 0, "rule": "building the system the runs start from failed", "samples": [{"note": failed}]}}, f, indent=1, ensure_ascii=False)
        path = os.path.join(VERIF, "replays", f"{check.id}-setup.json")
        with open(path, "w") as f:
            json.dump({"property": check.id, "scenario": "setup", "seed": f"{seed}/{check.id}/setup", "violation": "setup-failed", "message": failed, "draws": []}, f, indent=1, ensure_ascii=False)
        print(f"violated: setup-failed: {failed[:1500]}")
        print(f"VIOLATION property={check.id} replay={path}")
        return 1
    known_map = load_known(check.id)
    known = frozenset(known_map)
    agg_f, agg_p = Counter(), Counter()
    states: set = set()
    nontrivial: set = set()
    digests: set = set()
    runs = capped = 0
    sim_us = events = 0
    known_hit: dict[str, str] = {}
    per_scn = {}
    samples = []
    violation = None
    truncated_any = False
    scale = float(os.environ.get("DST_SCALE", "1"))
    det_checked = det_bad = 0
    for scn in check.scenarios:
        n = min(QUICK * scn.quick, scn.thorough) if tier == "quick" else scn.thorough
        n = max(1, int(n * scale))
        base = f"{seed}/{check.id}/{scn.name}"
        t1 = time.monotonic()
        results, truncated = batch(check, scn, n, base, known, deadline)
        truncated_any |= truncated
        for r in results:
            runs += 1
            digests.add((scn.name, r.digest))
            if r.faults or r.probes:
                nontrivial.add((scn.name, r.digest))
            agg_f.update(r.faults)
            agg_p.update(r.probes)
            if len(states) < 2_000_000:
                states.update(r.states)
            sim_us += r.now
            events += r.n_events
            capped += r.capped
            for k, m in r.known.items():
                known_hit.setdefault(k, m)
        per_scn[scn.name] = {"runs": len(results), "seconds": round(time.monotonic() - t1, 2),
                             "first_seed": base + "/0", "stopped_by_wall_cap": truncated}
        bad_h = [r for r in results if r.harness]
        bad_v = [r for r in results if r.violation]
        if bad_v and (not bad_h or bad_v[0].index <= bad_h[0].index or True):
            violation = (scn, bad_v[0])
            break
        if bad_h:
            print(f"HARNESS ERROR property={check.id} scenario={scn.name} run={bad_h[0].index}\n{bad_h[0].harness}", file=sys.stderr)
            return 2
        # determinism: re-execute a few runs in pristine processes, compare the event-log digests
        for r in results[:: max(1, len(results) // 6)][:6]:
            rr = run_isolated(scn, seed=f"{base}/{r.index}", index=r.index, known=known, keep_log=True)
            det_checked += 1
            det_bad += rr.digest != r.digest
            if len(samples) < 6 and rr.events and (rr.faults or len(rr.events) > 3):
                samples.append({"scenario": scn.name, "seed": f"{base}/{r.index}", "draws": len(rr.choices),
                                "simulated_s": rr.now / 1e6, "faults": dict(rr.faults),
                                "trace_head": [e[:200] for e in rr.events[:14]]})
    wall = time.monotonic() - t0
    status = 0
    replay_path = None
    if violation:
        scn, r = violation
        status = 1
        replay_path, min_note = write_replay(check, scn, r, seed, known)
    ev = {
        "property": check.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(nontrivial),
            "rule": check.rule,
            "samples": samples or [{"note": "no sample kept"}],
            "scenarios": per_scn,
            "runs_per_hour": int(runs / max(wall, 1e-6) * 3600),
            "seeds": runs,
            "simulated_seconds": round(sim_us / 1e6, 3),
            "simulator_events": events,
            "faults_fired": dict(sorted(agg_f.items())),
            "rare_conditions_hit": dict(sorted(agg_p.items())),
            "distinct_event_logs": len(digests),
            "distinct_abstract_states": len(states),
            "state_measure": "hash of the abstract state tuple recorded by the scenario after each step",
            "runs_stopped_at_step_cap": capped,
            "determinism": {"runs_re_executed": det_checked, "event_log_mismatches": det_bad},
            "components_real": check.real,
            "components_stub": check.stub,
            "stopped_by_wall_cap": truncated_any,
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.monotonic() - t0, 3),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{check.id}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if not violation:
        for k, what in known_map.items():
            if k in known_hit:
                print(f"KNOWN-FINDING: property={check.id} {what}")
            else:
                print(f"note: listed finding not met in this run: property={check.id} {k}")
    if det_bad:
        print(f"note: {det_bad} of {det_checked} re-executed runs differed in their event log")
    print(f"{check.id} {tier}: runs={runs} nontrivial={len(nontrivial)} faults={sum(agg_f.values())} "
          f"states={len(states)} simulated={sim_us / 1e6:.0f}s wall={wall:.1f}s")
    if violation:
        scn, r = violation
        print(f"violated: {r.violation[0]}: {r.violation[1][:1500]}")
        print(f"VIOLATION property={check.id} replay={replay_path}")
    return status


def write_replay(check, scn, r: Result, seed: int, known):
    key = r.violation[0]
    choices, groups = r.choices, r.groups
    note = ""
    base = f"{seed}/{check.id}/{scn.name}/{r.index}"
    final = None
    if choices is not None:
        # does the run fail alone, from a pristine process?
        alone = run_isolated(scn, choices=choices, known=known, keep_log=False)
        if alone.violation and alone.violation[0] == key:
            best, tries = (choices, 0) if os.environ.get("DST_MIN") == "0" else minimise(scn, choices, groups, key, known)
            final = run_isolated(scn, choices=best, known=known, keep_log=True)
            if not (final.violation and final.violation[0] == key):
                best = choices
                final = run_isolated(scn, choices=best, known=known, keep_log=True)
            choices = best
            note = f"minimised from {len(r.choices)} to {len(best)} draws in {tries} executions"
        else:
            note = "does not fail alone from a pristine process: the replay runs the chunk of runs before it first"
    chunk_start = r.index - r.index % scn.chunk
    doc = {
        "property": check.id, "scenario": scn.name, "seed": base, "violation": key, "message": r.violation[1],
        "draws": choices, "note": note,
        "chunk": None if final is not None else [chunk_start, r.index],
        "base_seed": f"{seed}/{check.id}/{scn.name}",
        "message_minimised": final.violation[1] if final is not None and final.violation else None,
        "event_log_digest": final.digest if final is not None else None,
        "faults": dict(final.faults) if final is not None else None,
        "trace": final.events if final is not None else None,
    }
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    h = hashlib.blake2b(json.dumps([key, choices]).encode(), digest_size=4).hexdigest()
    path = os.path.join(VERIF, "replays", f"{check.id}-{h}.json")
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, ensure_ascii=False)
    return path, note


def setup_fails(check: Check) -> str | None:
    """the package itself fails while the system every run starts from is built (a fixed, fault-free prefix of each run)"""
    try:
        if check.setup:
            check.setup()
    except Exception as e:
        if not _in_repo(e.__traceback__) and (not isinstance(e, UNUSABLE) or _of_module(e)):
            raise
        return f"{type(e).__name__}: {e} at {_repo_site(e.__traceback__)}"
    return None


def replay(check: Check, path: str) -> int:
    with open(path) as f:
        doc = json.load(f)
    failed = setup_fails(check)
    if failed:
        print(f"reproduced={doc['scenario'] == 'setup' and failed == doc['message']}: setup-failed: {failed[:1500]}")
        print(f"VIOLATION property={check.id} replay={path}")
        return 1
    if doc["scenario"] == "setup":
        print("replay: the property held (not reproduced on this tree)")
        return 0
    scn = next(s for s in check.scenarios if s.name == doc["scenario"])
    known = frozenset(load_known(check.id))
    if doc.get("chunk"):
        a, b = doc["chunk"]
        r = None
        for i in range(a, b + 1):
            r = run_once(scn, index=i, seed=f"{doc['base_seed']}/{i}", known=known, keep_log=True)
            if r.violation:
                break
    elif doc["draws"] is None:
        r = run_isolated(scn, seed=doc["seed"], known=known, keep_log=True)
    else:
        r = run_once(scn, choices=doc["draws"], known=known, keep_log=True)
    for e in r.events or []:
        print(e)
    if r.harness:
        print(r.harness, file=sys.stderr)
        return 2
    if r.violation:
        same = r.violation[0] == doc["violation"]
        exact = doc.get("event_log_digest") in (None, r.digest)
        print(f"reproduced={same} event_log_identical={exact}: {r.violation[0]}: {r.violation[1][:1500]}")
        print(f"VIOLATION property={check.id} replay={path}")
        return 1
    print("replay: the property held (not reproduced on this tree)")
    return 0
