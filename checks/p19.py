"""P19: sliding correlation equals Pearson's coefficient at each shift."""
import itertools

import numpy as np
import torch
from mc.data import DT, LAYOUTS, noise, relayout
from ml4gw.transforms import ShiftedPearsonCorrelation

BOUNDS = ("lengths 2..12, 33; shifts 0..length+1; all allowed shape pairs of 1-3 dimensional inputs, also with all sizes equal; "
          "memory layouts; offsets; scales 1e-25..1e25; length 4097")


def cells(tier):
    ns = (2, 3, 4, 5, 8, 12, 33) if tier == "quick" else (*range(2, 20), 33, 64)
    return [dict(k="grid", n=n) for n in ns] + [dict(k="layout"), dict(k="big")]


def ref(x, y, m):
    x, y = np.broadcast_arrays(x.double().numpy(), y.double().numpy())
    n = x.shape[-1]
    out = np.full((2 * m + 1,) + x.shape[:-1], np.nan)
    for k in range(2 * m + 1):
        s = k - m
        z = np.zeros_like(x)
        for t in range(n):
            if 0 <= t + s < n:
                z[..., t] = x[..., t + s]
        a, b = z - z.mean(-1, keepdims=True), y - y.mean(-1, keepdims=True)
        with np.errstate(all="ignore"):
            out[k] = (a * b).sum(-1) / np.sqrt((a * a).sum(-1) * (b * b).sum(-1))
    return torch.as_tensor(out)


def run_cell(cell, ctx):
    if cell["k"] == "grid":
        n = cell["n"]
        for m in sorted({0, 1, 2, 3, n - 1, n, n + 1}):
            c = ShiftedPearsonCorrelation(m)
            for xs, ys in (((), ()), ((1,), ()), ((3,), ()), ((3,), (3,)), ((2, 3), ()),
                           ((2, 3), (3,)), ((2, 3), (2, 3)), ((3, 3), (3,)), ((2, 2), (2,)), ((3, 2), (2,)), ((3, 3), (3, 3)), ((1, 1), (1, 1)), ((3, 1), (1,))):
                for off, dt in itertools.product((0.0, 3.0), DT):
                    with ctx.case(m=m, xs=xs, ys=ys, off=off, dt=dt):
                        x = noise(xs + (n,), DT[dt], ("x", n)) + off
                        y = noise(ys + (n,), DT[dt], ("y", n)) * 4 - off
                        want = ref(x, y, m)
                        got = ctx.call(c, x, y)
                        ctx.require(tuple(got.shape) == (2 * m + 1,) + xs,
                                    f"shape {tuple(got.shape)}")
                        ok = torch.isfinite(want)
                        ctx.close(got[ok], want[ok], "coefficients", rtol=0,
                                  atol=1e-4 if dt == "f32" else 1e-10)
            with ctx.case(m=m, invariances=True):
                x, y = noise((2, n), torch.float64, "a"), noise((2, n), torch.float64, "b")
                r = ctx.call(c, x, y)
                ctx.require(bool((r[torch.isfinite(r)].abs() <= 1 + 1e-9).all()), "magnitude above one")
                ctx.close(ctx.call(c, x * 7, y), r, "scale of first", rtol=0, atol=1e-9)
                ctx.close(ctx.call(c, x, y * 0.1 + 5), r, "scale and offset of second", rtol=0,
                          atol=1e-9)
                ctx.close(ctx.call(c, x, -y), -r, "sign", rtol=0, atol=1e-9)
                same = ctx.call(c, x, x)
                ctx.close(same[m], torch.ones(2), "self correlation", rtol=0, atol=1e-9)
        with ctx.case(invalid=True):
            c = ShiftedPearsonCorrelation(1)
            for a, b in (((1, 1, 1, n), (n,)), ((n,), (1, n)), ((2, n), (3, n)), ((n,), (n + 1,)),
                         ((2, 3, n), (2, n)), ((2, 3, n), (3, 3, n))):
                ctx.raises(ValueError, c, noise(a), noise(b))
        if n < 6:
            # every size the same
            for xs, ys in (((n, n), (n,)), ((n, n), ()), ((n,), ()), ((n, n), (n, n))):
                with ctx.case(xs=xs, ys=ys):
                    x, y = noise(xs + (n,), torch.float64, ("x", n)), noise(ys + (n,), torch.float64, ("y", n))
                    want = ref(x, y, n // 2)
                    got = ctx.call(ShiftedPearsonCorrelation(n // 2), x, y)
                    ok = torch.isfinite(want)
                    ctx.close(got[ok], want[ok], "coefficients", rtol=0, atol=1e-10)
    elif cell["k"] == "layout":
        for la, lb, dt, sc in itertools.product(LAYOUTS, LAYOUTS, DT, (1e-3, 1e3, 1e-21, 1e25)):
            with ctx.case(la=la, lb=lb, dt=dt, scale=sc):
                x = relayout(noise((2, 3, 24), DT[dt], "x", sc), la)
                y = relayout(noise((2, 3, 24), DT[dt], "y", sc if sc < 1e20 else 1e-25), lb)
                ctx.close(ctx.call(ShiftedPearsonCorrelation(5), x, y), ref(x, y, 5), "coefficients",
                          rtol=0, atol=1e-4)
    else:
        for B, n, m in ((3, 4097, 10), (129, 257, 4)):
            with ctx.case(B=B, n=n):
                x, y = noise((B, 2, n), key="big"), noise((2, n), key="bigy")
                ctx.close(ctx.call(ShiftedPearsonCorrelation(m), x, y), ref(x, y, m), "coefficients",
                          rtol=0, atol=1e-4)
