"""P36: differently configured objects in one process never influence one another.

The model of a configuration is a process that never saw another one.  Every ordered pair of configurations of a
component, the whole family in sequence, and all components together are run in a child process of its own and each result compared with the model.  Process-wide settings
(default precision, gradient mode, thread count, error handling, working directory) are compared after every step, and
each configuration is run from two seeds to see that it leaves the random generators to the caller.
"""
import itertools

from mc.variants import ORDERS, families, reference, run_all, run_mixed, run_pair

BOUNDS = ("every component x up to 15 configurations differing in one argument: all ordered pairs in a history of 11 "
          "steps of building and using (thorough: a second order), the whole family forward and backward (thorough: and every "
          "rotation); all components in one process in 8 orders (thorough: all ordered pairs of components)")
ASSUMPTIONS = ["a process is forked after import; what happens at import is shared by model and run"]
PARTS = 10
_f = None


def fams():
    global _f
    if _f is None:
        _f = families()
    return _f


def cells(tier):
    out = []
    for f in fams():
        parts = 1 + len(f.cfgs) // 7
        out += [dict(k="family", name=f.name, part=i, parts=parts) for i in range(parts)]
    out += [dict(k="all", part=i) for i in range(8)]
    return out + ([dict(k="mixed", part=i) for i in range(PARTS)] if tier == "thorough" else [])


def refs_of(ctx, f, which=None, uses=3):
    refs = {}
    for i, (lab, _) in enumerate(f.cfgs):
        if which is not None and i not in which:
            continue
        with ctx.case(family=f.name, alone=lab):
            (ok, res), (ok2, res2) = reference(f, i, uses)
            ctx.step(2 * uses + 4)
            ctx.require(ok, res)
            refs[i] = res
            ctx.state(f.name, lab, res)
            ctx.require(ok2, res2)
    return refs


def run_family(f, ctx, part=0, parts=1):
    refs = refs_of(ctx, f)
    n = len(f.cfgs)
    if len(refs) < n:
        return
    names = [lab for lab, _ in f.cfgs]
    for i, j in itertools.permutations(range(n), 2):
        if i % parts != part:
            continue
        with ctx.case(family=f.name, pair=(names[i], names[j])):
            ctx.step(run_pair(f, refs, i, j, ORDERS if ctx.tier == "thorough" else ORDERS[:1]))
    if part:
        return
    for r in range(n if ctx.tier == "thorough" else 1):
        for d in (1, -1):
            seq = [(r + d * k) % n for k in range(n)]
            with ctx.case(family=f.name, sequence=seq):
                ctx.step(run_all(f, refs, seq))


def run_cell(cell, ctx):
    if cell["k"] == "family":
        run_family({f.name: f for f in fams()}[cell["name"]], ctx, cell["part"], cell["parts"])
        return
    if cell["k"] == "all":
        # one process that uses every component: forward or backward from some component, another configuration of
        # each, and the first ones again
        fs = fams()
        refs = [refs_of(ctx, f, (0, 1), 2) for f in fs]
        if any(len(r) < 2 for r in refs):
            return
        r, d = cell["part"] // 2 * len(fs) // 4, (1, -1)[cell["part"] % 2]
        seq = [(r + d * k) % len(fs) for k in range(len(fs))]
        with ctx.case(start=fs[r].name, direction=d):
            ctx.step(run_mixed(fs, refs, [(i, v) for v in (0, 1, 0) for i in seq]))
        return
    # a component next to every other one: its base configuration before and after the other's
    fs = fams()
    refs = [refs_of(ctx, f, (0, 1), 2) for f in fs]
    for i, j in itertools.permutations(range(len(fs)), 2):
        if i % PARTS != cell["part"] or len(refs[i]) < 2 or len(refs[j]) < 2:
            continue
        with ctx.case(first=fs[i].name, other=fs[j].name):
            ctx.step(run_mixed([fs[i], fs[j]], [refs[i], refs[j]], [(0, 0), (1, 0), (0, 1), (0, 0), (1, 0)]))
