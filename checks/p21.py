"""P21: heterodyning multiplies the spectrum by the chirp phase of each chirp mass."""
import itertools

import numpy as np
import torch
from mc.data import DT, LAYOUTS, noise, relayout
from ml4gw.transforms.heterodyne import Heterodyne

BOUNDS = ("sample rates 1..4096 and durations giving every length 2..17 and selected lengths to 4097 (odd "
          "and even), chirp masses 0.1..100 in sets of 1..4, batches, channels, dtypes, layouts, all "
          "return types, call histories of three")
MSUN_S = 4.925490947641267e-6


def cells(tier):
    out = [dict(k="grid", sr=s) for s in (1, 4, 100, "n", "4n", "128n")]
    return out + [dict(k="layout"), dict(k="hist"), dict(k="big")]


def ref(x, sr, mc):
    n = x.shape[-1]
    X = np.fft.rfft(x.double().numpy(), axis=-1) / sr
    f = np.arange(n // 2 + 1) * sr / n
    with np.errstate(all="ignore"):
        ph = 3 / 128 * (np.pi * np.asarray(mc)[:, None] * MSUN_S * f[None]) ** (-5 / 3)
    ph[:, 0] = 0
    H = X[:, :, None] * np.exp(1j * ph)
    H[..., 0] = 0
    t = np.fft.irfft(H, n=n, axis=-1) * sr
    return torch.tensor(t), torch.tensor(H), ph


def compare(ctx, m, rt, x, sr, mc, single):
    wt, wf, ph = ref(x, sr, mc)
    got = ctx.call(m, x)
    t, f = got if rt == "both" else (got, got)
    # rounding of the phase itself in the module's precision
    n = x.shape[-1]
    fr = np.arange(n // 2 + 1) * sr / n
    single = single or bool((fr.astype(np.float32) != fr).any())
    eps = 2.5e-7 if single else 4e-16
    ok = torch.tensor(ph.max(0) * eps * 8 < 0.02)
    ctx.count("phase_resolved", int(ok[1:].all()))
    if rt != "time":
        ctx.require(tuple(f.shape) == tuple(wf.shape) and f.is_complex(), f"spectrum shape {tuple(f.shape)}")
        tol = torch.tensor(ph * eps * 8) + 1e-5
        err = (f.to(torch.complex128) - wf).abs()
        lim = tol * wf.abs() + 1e-5 * wf.abs().mean() + 1e-30
        ctx.require(bool((err <= lim)[..., ok].all()), "heterodyned spectrum differs from definition")
        ctx.close(f.abs(), wf.abs(), "magnitude", rtol=1e-5)
        ctx.require(bool((f[..., 0] == 0).all()), "zero-frequency bin is not removed")
    if rt != "freq":
        ctx.require(tuple(t.shape) == tuple(wt.shape) and not t.is_complex(), f"series shape {tuple(t.shape)}")
        if bool(ok.all()):
            ctx.close(t, wt, "heterodyned series", rtol=2e-5 + float(ph.max()) * eps * 8)
        elif rt == "both":
            back = torch.fft.irfft(f, n=x.shape[-1]) * sr
            ctx.close(t, back, "series is the transform of the spectrum", rtol=1e-5)


def run_cell(cell, ctx):
    if cell["k"] == "grid":
        for n in [*range(2, 18), 32, 33, 64, 125]:
            sr = cell["sr"] if isinstance(cell["sr"], int) else n * int(cell["sr"][:-1] or 1)
            dur = n / sr
            if int(dur * sr) != n:
                ctx.count("not_representable_skipped")
                continue
            for mc, mdt, rt, (b, c) in itertools.product(
                    ((1.2,), (0.1, 30.0, 100.0), (100.0, 1.0, 1.0, 5.5)), DT, ("time", "freq", "both"),
                    ((1, 1), (2, 3))):
                with ctx.case(n=n, mc=mc, mdt=mdt, rt=rt, b=b, c=c):
                    m = Heterodyne(sr, dur, torch.tensor(mc, dtype=DT[mdt]), rt)
                    x = noise((b, c, n), key=("h", n, b))
                    mcs = torch.tensor(mc, dtype=DT[mdt]).double().numpy()
                    compare(ctx, m, rt, x, sr, mcs, mdt == "f32")
        for sr, bad in ((8, ""), (8, "Time"), (8, "frequency")):
            with ctx.case(bad=bad):
                ctx.raises(ValueError, Heterodyne, sr, 8 / sr, torch.ones(1), bad)
    elif cell["k"] == "layout":
        mc = (5.0, 60.0, 12.0)
        for dt, lay, rt, sc in itertools.product(DT, LAYOUTS, ("time", "freq", "both"), (1.0, 1e-21)):
            with ctx.case(dt=dt, layout=lay, rt=rt, sc=sc):
                m = Heterodyne(64, 1.0, torch.tensor(mc, dtype=torch.float64), rt)
                x = relayout(noise((3, 2, 64), DT[dt], "lay", sc), lay)
                compare(ctx, m, rt, x, 64, mc, False)
        with ctx.case(single=True):
            # each chirp mass of a bank gives what it gives alone
            x = noise((2, 2, 65), key="one")
            full = ctx.call(Heterodyne(65, 1.0, torch.tensor(mc, dtype=torch.float64), "time"), x)
            for j, v in enumerate(mc):
                one = ctx.call(Heterodyne(65, 1.0, torch.tensor([v], dtype=torch.float64), "time"), x)
                ctx.close(full[:, :, j], one[:, :, 0], f"mass {v}", rtol=1e-5)
    elif cell["k"] == "hist":
        mc = torch.tensor([3.0, 50.0], dtype=torch.float64)
        menu = [noise((1, 1, 33), key=0), noise((4, 2, 33), key=1), noise((2, 3, 33), torch.float64, 2)]
        for rt, seq in itertools.product(("time", "freq", "both"), itertools.product(range(3), repeat=3)):
            with ctx.case(rt=rt, seq=seq):
                m = Heterodyne(33, 1.0, mc, rt)
                for i in seq:
                    compare(ctx, m, rt, menu[i], 33, mc.numpy(), False)
    else:
        for n, b in ((4096, 2), (4097, 129), (513, 129)):
            with ctx.case(n=n, b=b):
                m = Heterodyne(float(n), 1.0, torch.tensor([1.4, 20.0], dtype=torch.float64), "both")
                compare(ctx, m, "both", noise((b, 2, n), key="big"), n, (1.4, 20.0), False)
