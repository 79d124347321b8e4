"""Entry point: python -m mc.run PID [--tier quick|thorough] [--replay FILE]"""
from __future__ import annotations

import argparse
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import warnings

from . import common
from .core import REPO, SEED, VERIF, CellTimeout, Ctx, alarm

CELL_LIMIT = {"quick": 500, "thorough": 6000}


def load_known(pid):
    """known_findings.txt: `known: property=P key=K text` / `fixed: ...`."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                parts = line[len("known: "):].split(" ", 2)
                p = parts[0].removeprefix("property=")
                k = parts[1].removeprefix("key=")
                if p == pid:
                    known[k] = parts[2]
    return known


def init_worker():
    warnings.filterwarnings("ignore")
    import torch

    torch.set_num_threads(1)


def one_cell(args):
    pid, tier, cell, known = args
    mod = importlib.import_module(f"checks.{pid.lower()}")
    ctx = Ctx(pid, tier, cell, known)
    t0 = time.time()
    try:
        with alarm(CELL_LIMIT[tier]):
            if isinstance(cell, dict) and "common" in cell:
                common.run_cell(cell, ctx)
            else:
                mod.run_cell(cell, ctx)
    except CellTimeout as e:
        with_case = ctx._case or {}
        ctx.count("violations")
        ctx.violations.append(dict(cell=cell, case={k: str(v) for k, v in with_case.items()},
                                   key=None, kind="Timeout", where=[],
                                   message=f"code under test did not finish: {e}"))
    except Exception as e:  # noqa: BLE001  (outside any case: set-up of real objects)
        import traceback
        ctx.count("violations")
        ctx.violations.append(dict(cell=cell, case={}, key=None, kind=type(e).__name__,
                                   where=[], message="outside a case: " + traceback.format_exc()[-1500:]))
    return dict(cell=cell, states=ctx.states, transitions=ctx.transitions,
                traces=ctx.traces, samples=ctx.samples, violations=ctx.violations,
                known_hits=ctx.known_hits, counters=ctx.counters, wall=time.time() - t0)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("MC_JOBS", "8")))
    ap.add_argument("--cell", type=int, help="only this cell index")
    ap.add_argument("--stop", action="store_true", help="stop after the first violating cell")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    pid = a.pid.upper()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    warnings.filterwarnings("ignore")
    t0 = time.time()
    known = load_known(pid)
    violations, known_hits, counters = [], {}, {}
    states, transitions, traces, samples, slow = set(), 0, 0, [], []
    cells, assumptions, bounds = [], [], ""
    try:
        init_worker()
        mod = importlib.import_module(f"checks.{pid.lower()}")
        assumptions = list(getattr(mod, "ASSUMPTIONS", []))
        bounds = getattr(mod, "BOUNDS", "")
        cells = list(mod.cells(tier)) + common.cells(pid, tier)
    except Exception as e:  # the code under test no longer imports
        import traceback
        traceback.print_exc()
        violations.append(dict(cell=None, case={}, key=None, kind=type(e).__name__, where=[],
                               message=f"could not load the code under test: {e!r}"))
    if a.replay:
        rep = json.load(open(a.replay))
        cells = [rep["cell"]]
    elif a.cell is not None:
        cells = [cells[a.cell]]
    work = [(pid, tier, c, tuple(known)) for c in cells]
    results = []
    # cells that compare with an untouched process get workers of their own, which never run anything else
    pure = [w for w in work if isinstance(w[2], dict) and w[2].get("common") == "variants"]
    work = pure + [w for w in work if w not in pure]
    if a.jobs <= 1 or len(work) <= 1:
        for w in work:
            results.append(one_cell(w))
            if a.stop and results[-1]["violations"]:
                break
    elif work:
        ctxm = mp.get_context("fork")
        try:
            for group in (pure, work[len(pure):]):
                if not group:
                    continue
                with cf.ProcessPoolExecutor(min(a.jobs, len(group)), mp_context=ctxm,
                                            initializer=init_worker) as ex:
                    futs = [ex.submit(one_cell, w) for w in group]
                    for f in futs:
                        results.append(f.result())
        except cf.process.BrokenProcessPool as e:
            violations.append(dict(cell=work[len(results)][2], case={}, key=None, where=[],
                                   kind="WorkerDied", message=f"worker process died: {e}"))
    for r in results:
        states |= r["states"]
        transitions += r["transitions"]
        traces += r["traces"]
        violations += r["violations"]
        for k, v in r["known_hits"].items():
            known_hits.setdefault(k, v)
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        if r["samples"] and len(samples) < 12:
            samples.append(dict(cell=r["cell"], case=r["samples"][0]))
        slow.append((round(r["wall"], 2), str(r["cell"])[:120]))
    nviol = max(len(violations), counters.pop("violations", 0))
    wall = time.time() - t0
    slow.sort(reverse=True)

    for k in known:
        if k in known_hits:
            print(f"KNOWN-FINDING: property={pid} {known[k]} [{k}]")
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    seen = set()
    shown = 0
    for v in violations:
        sig = (str(v["cell"]), v["message"][:80])
        if sig in seen or shown >= 5:
            continue
        seen.add(sig)
        h = hashlib.blake2b(json.dumps(v, sort_keys=True, default=str).encode(),
                            digest_size=5).hexdigest()
        path = os.path.join(VERIF, "replays", f"{pid}-{h}.json")
        v = dict(v, property=pid, tier=tier, seed=SEED,
                 rerun=f"cd /verif && VERIF_SEED={SEED} ./check {pid} --tier {tier} --replay {path}")
        with open(path, "w") as fh:
            json.dump(v, fh, indent=1, default=str)
        print(f"  cell={v['cell']} case={v['case']}\n  {v['kind']}: {v['message'][:600]}"
              + (f"\n  at {v['where']}" if v["where"] else ""))
        print(f"VIOLATION property={pid} replay={path}")
        shown += 1

    ev = dict(property=pid, tier=tier, seed=SEED, level="model_checking",
              coverage=dict(
                  states=len(states), transitions=transitions,
                  traces_validated_against_impl=traces,
                  samples=samples or [dict(note="no case completed")],
                  cells=len(cells), exhaustive=nviol == 0,
                  bounds=bounds + common.note(pid), slowest_cells=slow[:3],
                  known_findings_observed=sorted(known_hits),
                  state_rule="distinct (configuration, history position, observed result) "
                             "digests reached on the real code",
                  transition_rule="calls made into the real code under test",
                  trace_rule="complete histories whose every observation agreed with the "
                             "reference model",
                  **counters),
              assumptions=assumptions, wall_s=round(wall, 3), violations=nviol)
    if not a.replay and a.cell is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
    print(f"{pid} {tier}: cells={len(cells)} states={len(states)} transitions={transitions} "
          f"traces={traces} violations={nviol} wall={wall:.1f}s")
    if a.v:
        for s in slow[:8]:
            print("   slow", s)
    sys.stdout.flush()
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
