"""P18: integrators follow their per-sample recurrences."""
import itertools

import torch
from mc.data import DT, LAYOUTS, noise, relayout
from ml4gw.transforms import LeakyIntegrator, TophatIntegrator

BOUNDS = ("every input word of length 1..7 (thorough 9) over {below, just below, at, above, far above "
          "threshold} for a grid of thresholds, decays, floors and both modes; moving averages for "
          "rates 1..5 and windows 0..3 s, every impulse position; loud, infinite and undefined samples; windows to 8193 samples; lengths to 200000")


def cells(tier):
    top = 6 if tier == "quick" else 8
    out = [dict(k="leaky", n=n, mode=m) for n in range(1, top + 1) for m in ("count", "score")]
    out += [dict(k="tophat", sr=s) for s in (1, 2, 3, 5)]
    return out + [dict(k="layout"), dict(k="big")]


def leaky(x, thr, decay, lb, mode):
    x = x.double()
    out = torch.empty_like(x)
    s = torch.zeros(x.shape[:-1], dtype=torch.float64)
    for t in range(x.shape[-1]):
        v = x[..., t]
        inc = torch.ones_like(v) if mode == "count" else v
        s = torch.clamp(s + torch.where(v >= thr, inc, -decay), min=lb)
        out[..., t] = s
    return out


def tophat(x, w):
    x = x.double()
    out = torch.zeros_like(x)
    for t in range(x.shape[-1]):
        out[..., t] = x[..., max(0, t - w + 1):t + 1].sum(-1) / w
    return out


def run_cell(cell, ctx):
    if cell["k"] == "leaky":
        n, mode = cell["n"], cell["mode"]
        for thr, decay, lb in itertools.product((0.5, 0.0, -2.0), (0.25, 1.0, 0.0),
                                                (0.0, -1.0, -3.5, 0.75)):
            alpha = (thr - 1.5, thr - 0.125, thr, thr + 0.5, thr + 4.0)
            words = torch.tensor(list(itertools.product(alpha, repeat=n)))
            # many words per call: each is one row; the alphabet is exactly representable
            with ctx.case(thr=thr, decay=decay, lb=lb):
                got = ctx.call(LeakyIntegrator(thr, decay, lb, mode), words)
                ctx.equal(got, leaky(words, thr, decay, lb, mode), "accumulator")
                ctx.count("words", len(words))
                ctx.require(float(got.min()) >= lb, "went below the lower bound")
                ctx.require(got.dtype == words.dtype, "dtype")
            if n <= 3:
                for w in words:
                    with ctx.case(thr=thr, decay=decay, lb=lb, word=w.tolist()):
                        got = ctx.call(LeakyIntegrator(thr, decay, lb, mode), w)
                        ctx.equal(got, leaky(w, thr, decay, lb, mode), "accumulator")
        with ctx.case(invalid=True):
            ctx.raises(ValueError, LeakyIntegrator, 0, 0, 0, "sum")
    elif cell["k"] == "tophat":
        sr = cell["sr"]
        for secs, n, shape in itertools.product((0, 1, 2, 3), (1, 2, 3, 7, 16), ((), (2,), (2, 3))):
            m = TophatIntegrator(sr, secs)
            w = sr * secs + 1
            with ctx.case(secs=secs, n=n, shape=shape):
                x = noise(shape + (n,), key=(sr, n))
                ctx.close(ctx.call(m, x), tophat(x, w), "moving average", rtol=1e-6)
                for pos in range(n):
                    e = torch.zeros(shape + (n,))
                    e[..., pos] = 3.0
                    ctx.close(ctx.call(m, e), tophat(e, w), f"impulse at {pos}", rtol=1e-6)
    elif cell["k"] == "layout":
        for dt, lay, shape in itertools.product(DT, LAYOUTS, ((3,), (2, 3), (2, 2, 3))):
            with ctx.case(dt=dt, layout=lay, shape=shape):
                x = relayout((noise(shape + (20,), torch.float64, "l") * 8).round().div(4).to(DT[dt]),
                             lay)
                for mode in ("count", "score"):
                    got = ctx.call(LeakyIntegrator(0.25, 0.5, -1.0, mode), x)
                    ctx.equal(got, leaky(x, 0.25, 0.5, -1.0, mode), mode)
                m = TophatIntegrator(4, 2).to(DT[dt])
                ctx.close(ctx.call(m, x), tophat(x, 9), "moving average", rtol=1e-6)
        for dt, sr, loud, pos in itertools.product(DT, (1, 4), (1e9, -1e30, float("inf"), float("nan")), (0, 7, 38)):
            with ctx.case(dt=dt, sr=sr, loud=loud, pos=pos):
                m = TophatIntegrator(sr, 2).to(DT[dt])
                x = noise((2, 40), DT[dt], "loud")
                x[0, pos] = loud
                got, want = ctx.call(m, x), tophat(x, 2 * sr + 1)
                quiet = torch.ones(2, 40, dtype=torch.bool)
                quiet[0, pos:pos + 2 * sr + 1] = False
                ctx.close(got[quiet], want[quiet], "windows without the loud sample", rtol=1e-5)
        for dt, off, T in itertools.product(DT, (0.0, 1e3), (4097, 20000)):
            with ctx.case(dt=dt, off=off, T=T):
                x = noise((1, T), DT[dt], "long") + off
                want = torch.cat([torch.zeros(1, 8), x.double()], -1).unfold(-1, 9, 1).mean(-1)
                ctx.close(ctx.call(TophatIntegrator(4, 2).to(DT[dt]), x), want, "long average", rtol=2e-6)
    else:
        for mode in ("count", "score"):
            for T in (4096, 4097):
                with ctx.case(mode=mode, T=T):
                    x = (noise((129, T), key="big") * 8).round().div(8)
                    got = ctx.call(LeakyIntegrator(0.5, 0.25, 0.0, mode), x)
                    ctx.equal(got, leaky(x, 0.5, 0.25, 0.0, mode), "accumulator")
        # mostly quiet streams: the sum of decays is far larger than the output
        for mode, low, decay in itertools.product(("count", "score"), (0.0, -2.0), (0.3, 1.7)):
            with ctx.case(mode=mode, low=low, decay=decay, T=200_000):
                x = noise((1, 200_000), key="quiet")
                got = ctx.call(LeakyIntegrator(1.5, decay, low, mode), x)
                acc, want = 0.0, []
                for v in x[0].tolist():
                    acc = max(acc + ((1.0 if mode == "count" else v) if v >= 1.5 else -decay), low)
                    want.append(acc)
                ctx.close(got[0], torch.tensor(want, dtype=torch.float64), "long accumulator", rtol=1e-5)
        for sr, secs, dt in itertools.product((64, 512, 2048), (1, 4), DT):
            w = sr * secs + 1
            for T in (w - 1, w, w + 1, 3 * w // 2, 3 * w + 5):
                with ctx.case(sr=sr, secs=secs, dt=dt, T=T):
                    x = noise((2, T), DT[dt], "long") + 0.5
                    c = torch.nn.functional.pad(x.double(), (w, 0)).cumsum(-1)
                    got = ctx.call(TophatIntegrator(sr, secs).to(DT[dt]), x)
                    ctx.close(got, (c[:, w:] - c[:, :-w]) / w, "long window", rtol=1e-5)
        with ctx.case(tophat=True):
            x = noise((5, 4097), key="b2")
            ctx.close(ctx.call(TophatIntegrator(64, 1), x), tophat(x, 65), "moving average", rtol=1e-5)
