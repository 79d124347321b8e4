"""P04: sample_kernels under every random answer."""
import itertools
from collections import Counter

import torch
from mc.data import DT, LAYOUTS, noise, ramp, relayout
from mc.rng import PATTERNS, explore, patterned
from ml4gw.utils.slicing import sample_kernels

BOUNDS = ("series length 2..7, kernel 1..length, up to 3 kernels/channels, centre offsets -3..3 or "
          "none: every random answer; lengths to 4097 and 129 kernels under 7 answer patterns")


def cells(tier):
    top = 7 if tier == "quick" else 9
    out = [dict(k="all", T=t, kern=q) for t in range(2, top + 1) for q in range(1, t + 1)]
    out += [dict(k="big", T=t) for t in (33, 64, 4097)]
    out += [dict(k="huge", T=2**24 + 1003)]
    return out


def allowed(T, k, off, ndim):
    """(lowest, one past the highest start the sampler draws, highest start the rule allows)."""
    if ndim == 1 or off is None:
        return 0, T - k, T - k
    c = T // 2
    if off >= 0:
        return c - off - k, c, c
    return c - off - k, c + off, c + off


def want(x, idx, k):
    if x.ndim == 1:
        return torch.stack([x[i:i + k] for i in idx.tolist()])
    if x.ndim == 2 and idx.ndim == 1:
        return torch.stack([x[:, i:i + k] for i in idx.tolist()])
    if x.ndim == 2:
        return torch.stack([torch.stack([x[c, i:i + k] for c, i in enumerate(row)])
                            for row in idx.tolist()])
    return torch.stack([x[b][:, i:i + k] for b, i in enumerate(idx.tolist())])


def check_one(ctx, x, k, N, off, coin, kern, idx):
    shape = (N,) if (x.ndim != 2 or coin) else (N, len(x))
    ctx.require(tuple(idx.shape) == shape, f"index shape {tuple(idx.shape)}, expected {shape}")
    lo, hi, top = allowed(x.shape[-1], k, off, x.ndim)
    ctx.require(bool(((idx >= lo) & (idx <= top)).all()),
                f"start indices {idx.tolist()} outside [{lo}, {top}]")
    ctx.equal(kern, want(x, idx, k), f"kernels at {idx.tolist()}")


def run_cell(cell, ctx):
    T = cell["T"]
    if cell["k"] == "all":
        k = cell["kern"]
        combos = [((T,), n, True) for n in (1, 2)]
        combos += [((c, T), n, co) for c in (1, 2) for n in (1, 2) for co in (True, False)]
        combos += [((b, c, T), n, co) for b in (1, 2) for c in (1, 2) for n in (None, b)
                   for co in (True, False)]
        for shape, N, coin in combos:
            for off in (None, 0, 1, 2, 3, -1, -2, -3):
                if len(shape) == 1 and off not in (None, 1):
                    continue
                full = len(shape) == 1 or off is None
                x = ramp(shape)
                n = shape[0] if N is None else N
                lo, hi, top = allowed(T, k, off, x.ndim)
                bad = not full and (lo < 0 or (off < 0 and hi <= lo))
                if bad:
                    with ctx.case(shape=shape, N=N, off=off, coincident=coin, invalid=True):
                        ctx.raises(ValueError, sample_kernels, x, k, N, off, coin)
                    continue
                if full and T == k:
                    with ctx.case(key="full-length", expect="to be less than 'to'", shape=shape, N=N, off=off, coincident=coin):
                        for _, (st, res) in explore(
                                lambda ch: sample_kernels(x, k, N, off, coin, True)):
                            if st == "err":
                                raise res
                            check_one(ctx, x, k, n, off, coin, *res)
                    continue
                seen = Counter()
                with ctx.case(shape=shape, N=N, off=off, coincident=coin):
                    for ch, (st, res) in explore(
                            lambda ch: ctx.call(sample_kernels, x, k, N, off, coin, True,
                                                keep=False)):
                        if st == "err":
                            raise res
                        check_one(ctx, x, k, n, off, coin, *res)
                        seen[tuple(res[1].reshape(-1).tolist())] += 1
                        ctx.count("executions")
                    for ch, (st, res2) in itertools.islice(explore(
                            lambda ch: sample_kernels(x, k, N, off, coin)), 4):
                        if st == "err":
                            raise res2
                        ctx.require(isinstance(res2, torch.Tensor) and
                                    res2.shape[-1] == k, "kernels only when indices not asked for")
                    m = n * (x.shape[0] if x.ndim == 2 and not coin else 1)
                    need = set(itertools.product(range(lo, hi), repeat=m))
                    ctx.require(need <= set(seen), f"starts never drawn: "
                                f"{sorted(need - set(seen))[:3]} (of {len(need)})")
                    ctx.require(len({seen[s] for s in need}) == 1, "start indices not equally likely")
                    ctx.state("reached", shape, N, off, coin, sorted(seen))
                if full:
                    with ctx.case(key="last-window", expect="the last window", shape=shape, N=N, off=off, coincident=coin):
                        ctx.require(any(T - k in s for s in seen),
                                    f"the last window (start {T - k}) is never drawn")
        if T > k:
            for shape, coin, off in itertools.product(((T,), (2, T), (3, T)), (True, False), (None, 0)):
                if len(shape) > 1 and off == 0 and T // 2 < k:
                    continue
                with ctx.case(shape=shape, N=0, off=off, coincident=coin):
                    kern, idx = ctx.call(sample_kernels, ramp(shape), k, 0, off, coin, True, keep=False)
                    ctx.require(len(idx) == 0 and tuple(kern.shape) == (0, *shape[:-1], k),
                                f"no kernels requested, got shape {tuple(kern.shape)}")
        with ctx.case(invalid="arguments"):
            ctx.raises(ValueError, sample_kernels, ramp((2, T)), T + 1, 1)
            ctx.raises(ValueError, sample_kernels, ramp((T,)), T + 1, 1)
            ctx.raises(ValueError, sample_kernels, ramp((1, 1, 1, T)), k, 1)
            ctx.raises(ValueError, sample_kernels, ramp((2, T)), k)
            ctx.raises(ValueError, sample_kernels, ramp((T,)), k)
            ctx.raises(ValueError, sample_kernels, ramp((2, 2, T)), k, 3)
    elif cell["k"] == "huge":
        x = (torch.arange(T) % 8191).float()
        for shape, N in (((T,), 5), ((1, T), 5), ((1, 1, T), None)):
            for off in (None, 0, 3, -2):
                for coin in (True, False):
                    if (len(shape) == 1 or len(shape) == 3) and not coin:
                        continue
                    for k in (8,):
                        X = x.view(shape)
                        lo, hi, top = allowed(T, k, off, X.ndim)
                        if lo < 0:
                            continue
                        for rule in PATTERNS:
                            with ctx.case(shape=shape, k=k, N=N, off=off, coin=coin, rule=rule):
                                n = 1 if N is None else N
                                kern, idx = patterned(lambda ch: sample_kernels(
                                    X, k, None if N is None else n, off, coin, True), rule)[1]
                                ctx.step()
                                check_one(ctx, X, k, n, off, coin, kern, idx)
                                if rule == "high":
                                    ctx.require(int(idx.max()) >= hi - 1, "highest start not reached")
                                if rule == "low":
                                    ctx.require(int(idx.min()) == lo, "lowest not reached")
    else:
        for k in (1, 8, T // 4, T // 2 - 3):
            for shape, N in (((T,), 129), ((3, T), 7), ((1, T), 129), ((5, 3, T), None)):
                for lay in LAYOUTS:
                    for dt in DT:
                        for off in (None, 0, 3, -2):
                            for coin in (True, False):
                                x = relayout(noise(shape, DT[dt], T), lay)
                                lo, hi, top = allowed(T, k, off, x.ndim)
                                for rule in PATTERNS:
                                    with ctx.case(shape=shape, k=k, N=N, off=off, coin=coin, dt=dt,
                                                  layout=lay, rule=rule):
                                        def body(ch):
                                            return ctx.call(sample_kernels, x, k, N, off, coin,
                                                            True)
                                        if x.ndim > 1 and off is not None and (
                                                lo < 0 or (off < 0 and hi <= lo)):
                                            ctx.raises(ValueError, body, None)
                                            continue
                                        _, (kern, idx) = patterned(body, rule)
                                        check_one(ctx, x, k, shape[0] if N is None else N, off,
                                                  coin, kern, idx)
                                        if rule == "high":
                                            ctx.require(int(idx.max()) >= hi - 1,
                                                        "highest start not reached")
                                        if rule == "low":
                                            ctx.require(int(idx.min()) == lo, "lowest not reached")
                            if T == 4097:
                                break
                        if T == 4097 and lay != "c":
                            break
