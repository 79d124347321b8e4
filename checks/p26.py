"""P26: augmentations flip exactly the selected samples and channels."""
import itertools

import torch
from mc.data import DT, LAYOUTS, noise, relayout
from mc.rng import PATTERNS, explore, patterned
from ml4gw.augmentations import SignalInverter, SignalReverser

BOUNDS = ("every sequence of answers of the uniform generator on a grid of 4 values per row for up to 4 rows "
          "(8 values for up to 2), probabilities 0, .25, .5, .75, 1; 1-4 dimensional inputs; layouts; "
          "histories of two calls; 129 x 3 x 4097 under 7 answer patterns")


def cells(tier):
    out = [dict(k="all", kind=k, p=p) for k in ("inv", "rev") for p in (0.0, 0.25, 0.5, 0.75, 1.0)]
    out += [dict(k="edge", kind=k) for k in ("inv", "rev")]
    return out + [dict(k=a, kind=b) for a in ("layout", "hist", "big") for b in ("inv", "rev")]


def make(kind, p=None):
    cls = SignalInverter if kind == "inv" else SignalReverser
    return cls() if p is None else cls(p)


def flip(kind, row):
    return -row if kind == "inv" else row.flip(-1)


def mask_of(ctx, kind, got, x):
    """Which rows were flipped; every row must be exactly itself or exactly its flip."""
    ctx.require(tuple(got.shape) == tuple(x.shape) and got.dtype == x.dtype, "shape or dtype changed")
    g, r = got.reshape(-1, x.shape[-1]), x.reshape(-1, x.shape[-1])
    out = []
    for i in range(len(r)):
        if torch.equal(g[i], r[i]):
            out.append(0)
        elif torch.equal(g[i], flip(kind, r[i])):
            out.append(1)
        else:
            ctx.require(False, f"row {i} is neither itself nor its flip")
    return tuple(out)


def run_cell(cell, ctx):
    kind = cell["kind"]
    if cell["k"] == "all":
        p = cell["p"]
        m = make(kind, p)
        for lead, nu in (((), 8), ((1,), 8), ((2,), 8), ((3,), 4), ((4,), 4), ((2, 2), 4), ((2, 1, 2), 4)):
            grid = tuple((i + 0.5) / nu for i in range(nu))
            for T in (2, 3, 4, 5):
                if len(lead) and lead[0] > 2 and T > 3 and ctx.tier == "quick":
                    continue
                with ctx.case(lead=lead, T=T):
                    x = noise(lead + (T,), key=("a", lead))
                    rows = max(1, x[..., 0].numel())
                    hits, seen, total = [0] * rows, {}, 0
                    for ch, (st, res) in explore(lambda ch: m(x.clone()), grid):
                        ctx.step()
                        if st == "err":
                            raise res
                        ctx.require(len(ch.taken) == rows, f"{len(ch.taken)} draws for {rows} rows")
                        k = mask_of(ctx, kind, res, x)
                        seen[k] = seen.get(k, 0) + 1
                        total += 1
                    ctx.count("answer_sequences", total)
                    # rows are flipped independently, each with the requested probability
                    for k in itertools.product((0, 1), repeat=rows):
                        want = 1.0
                        for b in k:
                            want *= p if b else 1 - p
                        ctx.require(abs(seen.get(k, 0) / total - want) < 1e-12,
                                    f"selection {k} has weight {seen.get(k, 0) / total}, expected {want}")
    elif cell["k"] == "edge":
        for p in (0, 0.0, 1, 1.0):
            with ctx.case(p=p):
                x = noise((3, 4), key="edge")
                m = make(kind, p)
                for ch, (st, res) in explore(lambda ch: m(x.clone()), (0.0, 2.0**-24, 0.5, 1 - 2.0**-24)):
                    ctx.step()
                    if st == "err":
                        raise res
                    ctx.require(mask_of(ctx, kind, res, x) == (int(p),) * 3, f"probability {p} at {ch.taken}")
        with ctx.case(default=True):
            x = noise((1, 4), key="edge")
            n = sum(mask_of(ctx, kind, r, x)[0] for _, (_, r) in
                    explore(lambda ch: make(kind)(x.clone()), tuple((i + .5) / 16 for i in range(16))))
            ctx.require(n == 8, f"default probability is {n / 16}")
        with ctx.case(values=True):
            x = torch.tensor([[0.0, -0.0, float("inf"), 1e-42], [1.0, 2, 3, 4], [-3e38, 1e-21, 5, -7]])
            for rule in PATTERNS:
                _, got = patterned(lambda ch: make(kind, 0.5)(x.clone()), rule)
                mask_of(ctx, kind, got, x)
    elif cell["k"] == "layout":
        for lead, lay, dt in itertools.product(((3,), (2, 2), (2, 2, 2)), LAYOUTS, DT):
            with ctx.case(lead=lead, layout=lay, dt=dt):
                x = noise(lead + (5,), DT[dt], "lay")
                for rule in PATTERNS:
                    _, got = patterned(lambda ch: make(kind, 0.5)(relayout(x, lay)), rule, (0.25, 0.75))
                    ctx.step()
                    k = mask_of(ctx, kind, got, x)
                    ctx.require(rule not in ("low", "high") or len(set(k)) == 1, "rows disagree")
                    ctx.require(rule != "alt" or sum(k) in (len(k) // 2, (len(k) + 1) // 2), "alternating")
    elif cell["k"] == "hist":
        xs = [noise((2, 3), key=0), noise((1, 2, 5), key=1), noise((4,), key=2)]
        for a, b in itertools.product(range(3), repeat=2):
            with ctx.case(seq=(a, b)):
                m = make(kind, 0.5)

                def body(ch):
                    return m(xs[a].clone()), m(xs[b].clone())
                for ch, (st, res) in explore(body, (0.25, 0.75)):
                    ctx.step(2)
                    if st == "err":
                        raise res
                    mask_of(ctx, kind, res[0], xs[a])
                    mask_of(ctx, kind, res[1], xs[b])
    else:
        x = noise((129, 3, 4097), key="big")
        for rule in PATTERNS:
            with ctx.case(rule=rule):
                ch, got = patterned(lambda ch: make(kind, 0.5)(x.clone()), rule, (0.25, 0.75))
                k = mask_of(ctx, kind, got, x)
                ctx.step()
                same = {(c, b) for c, b in zip(ch.taken, k)}
                ctx.require(len(same) == len({c for c, _ in same}), "equal draws treat rows differently")
