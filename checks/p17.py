"""P17: decimation keeps the scheduled samples of each segment."""
import itertools

import torch
from mc.data import LAYOUTS, noise, ramp, relayout
from ml4gw.transforms import Decimator

BOUNDS = ("sample rates 4,6,8,12 with every divisor as target rate; every schedule of 1..3 segments "
          "with lengths 0.5..2 s, gaps 0..1 s (overlaps when split), starts 0/1/5 s; integer and float "
          "schedules; decimal times at rates 10, 100, 1000; a 60 s schedule at 2048 Hz")


def cells(tier):
    out = [dict(k="sched", sr=sr, n=n, start=s) for sr in (4, 6, 8, 12) for n in (1, 2, 3)
           for s in (0, 1, 5)]
    out += [dict(k="decimal", sr=sr) for sr in (10, 100, 1000)]
    return out + [dict(k="misc"), dict(k="invalid")]


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def reference(X, sr, sched):
    t0 = sched[0][0]
    out = []
    for a, b, r in sched:
        i, j, step = round((a - t0) * sr), round((b - t0) * sr), int(sr // r)
        out.append(X[..., [k for k in range(i, j) if (k - i) % step == 0]])
    return out


def check(ctx, X, sr, sched, tens, split):
    d = Decimator(sr, tens, split=split)
    got = ctx.call(d, X)
    want = reference(X, sr, sched)
    if split:
        ctx.require(len(got) == len(want), f"{len(got)} segments")
        for i, (g, w) in enumerate(zip(got, want)):
            ctx.equal(g, w, f"segment {i}")
        segs = got
    else:
        ctx.equal(got, torch.cat(want, -1), "decimated series")
        segs = ctx.call(d.split_by_schedule, X)
        for i, (g, w) in enumerate(zip(segs, want)):
            ctx.equal(g, w, f"segment {i} (split)")
    for n in (X.shape[-1] - 1, X.shape[-1] + 1):
        ctx.raises(ValueError, d, ramp(tuple(X.shape[:-1]) + (n,)))


def run_cell(cell, ctx):
    if cell["k"] == "sched":
        sr, n, start = cell["sr"], cell["n"], cell["start"]
        lens = (1, 2) if sr == 12 or n == 3 else (0.5, 1, 1.5, 2)
        divs = divisors(sr)
        if n == 3 and ctx.tier == "quick":
            divs = divs[:2] + divs[-2:]
        gaps = (0, 1, -0.5, -1)
        for ls in itertools.product(lens, repeat=n):
            for gs in itertools.product(gaps, repeat=n - 1):
                for rs in itertools.product(divs, repeat=n):
                    sched, t = [], start
                    ok = True
                    for i in range(n):
                        if i:
                            t = sched[-1][1] + gs[i - 1]
                            ok &= t >= sched[-1][0] and t + ls[i] >= sched[-1][1] and t >= start
                        sched.append((t, t + ls[i], rs[i]))
                    if not ok:
                        continue
                    whole = all(float(v).is_integer() for s in sched for v in s)
                    dts = (torch.float32, torch.int64) if whole and n < 3 else (
                        (torch.int32,) if whole else (torch.float32,))
                    T = round((sched[-1][1] - sched[0][0]) * sr)
                    overlap = any(g < 0 for g in gs)
                    for dt in dts:
                        tens = torch.tensor(sched, dtype=torch.float64).to(dt)
                        with ctx.case(sched=sched, dt=dt):
                            X = ramp((2, 1, T))
                            check(ctx, X, sr, sched, tens, True)
                            if overlap:
                                ctx.raises(ValueError, Decimator, sr, tens)
                            else:
                                check(ctx, X, sr, sched, tens, False)
    elif cell["k"] == "decimal":
        # times that are whole numbers of samples, but not exact in floating point
        sr = cell["sr"]
        top = 24 if ctx.tier == "quick" else 60
        for o, a, b in itertools.product((0, 1, 3, 7), range(1, top), (1, 2, 5, 11)):
            sched = [(o / sr, (o + a) / sr, sr // 5), ((o + a) / sr, (o + a + b) / sr, sr)]
            for dt in (torch.float32, torch.float64):
                tens = torch.tensor(sched, dtype=torch.float64).to(dt)
                with ctx.case(sched=sched, dt=dt):
                    X = ramp((1, 1, a + b))
                    check(ctx, X, sr, sched, tens, False)
                    check(ctx, X, sr, sched, tens, True)
    elif cell["k"] == "misc":
        sched = [(0, 2, 2), (2, 3, 4), (3, 4, 8)]
        tens = torch.tensor(sched)
        for shape, lay, split, dt in itertools.product(
                ((1, 1), (3, 2), (5,), ()), LAYOUTS, (True, False), (torch.float32, torch.float64)):
            with ctx.case(shape=shape, layout=lay, split=split, dt=dt):
                X = relayout(noise(shape + (32,), dt, "d"), lay)
                check(ctx, X, 8, sched, tens, split)
        # the schedule may be rebuilt from a saved state, and objects do not share schedules
        with ctx.case(two=True):
            a, b = Decimator(8, tens), Decimator(8, torch.tensor([(0, 4, 1)]))
            X = ramp((1, 1, 32))
            for _ in range(2):
                ctx.equal(ctx.call(a, X), torch.cat(reference(X, 8, sched), -1), "a")
                ctx.equal(ctx.call(b, X), reference(X, 8, [(0, 4, 1)])[0], "b")
        sched = [(0, 40, 256), (40, 58, 512), (58, 60, 2048)]
        with ctx.case(big=True):
            X = noise((2, 2, 60 * 2048), key="big")
            check(ctx, X, 2048, sched, torch.tensor(sched, dtype=torch.int), False)
            over = [(0, 40, 256), (32, 58, 512), (52, 60, 2048)]
            check(ctx, X, 2048, over, torch.tensor(over, dtype=torch.int), True)
    else:
        bad = dict(shape=torch.zeros(2, 2), flat=torch.tensor([0, 1, 4]),
                   reversed_times=torch.tensor([[1, 0, 4]]), empty=torch.tensor([[1, 1, 4]]),
                   rate=torch.tensor([[0, 1, 3]]), rate2=torch.tensor([[0, 1, 4], [1, 2, 5]]),
                   faster=torch.tensor([[0, 1, 16]]),
                   overlap=torch.tensor([[0, 2, 4], [1, 3, 4]]),
                   order=torch.tensor([[2, 3, 4], [0, 1, 4]]))
        for k, v in bad.items():
            for split in (True, False):
                if split and k in ("overlap", "order"):
                    continue
                with ctx.case(kind=k, split=split):
                    ctx.raises(ValueError, Decimator, 8, v, split)
