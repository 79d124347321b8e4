"""P22: digital filtering equals the designed filter run forward and backward from rest."""
import itertools

import numpy as np
import torch
from mc.data import LAYOUTS, noise, relayout
from ml4gw.transforms.iirfilter import IIRFilter
from scipy import signal

BOUNDS = ("all five filter families x all four band types x orders 1-5, 8 (thorough 1-12) x sample rates "
          "{none, 512, 2048, 4096} x scalar/tensor arguments; lengths 1..9, 64, 1025, 4097; 1-3 leading "
          "dims; layouts; call histories of three")
FAM = {"butter": {}, "cheby1": dict(rp=0.5), "cheby2": dict(rs=30.0), "ellip": dict(rp=0.5, rs=25.0),
       "bessel": {}}
BT = ("low", "high", "band", "bandstop")


def cells(tier):
    orders = (1, 2, 3, 4, 5, 8) if tier == "quick" else range(1, 13)
    return [dict(k="design", fam=f, N=n) for f in FAM for n in orders] + [
        dict(k="shape"), dict(k="hist"), dict(k="big")]


def ref(x, sos):
    y = signal.sosfilt(sos, x.double().numpy(), axis=-1)
    return torch.tensor(signal.sosfilt(sos, y[..., ::-1], axis=-1)[..., ::-1].copy())


def sensitivity(x, sos):
    """How far the reference itself moves under double rounding of its coefficients."""
    w = ref(x, sos)
    r = 0.0
    for s in (1, 2):
        g = np.random.RandomState(s)
        q = ref(x, sos * (1 + 1e-16 * g.choice([-1, 1], sos.shape) * (np.arange(6) != 3)))
        r = max(r, float((q - w).abs().max() / w.abs().max().clamp(min=1e-300)))
    return w, r


def design(N, Wn, btype="band", ftype="butter", fs=None, **kw):
    return signal.iirfilter(N, Wn, btype=btype, ftype=ftype, fs=fs, output="sos", **kw)


def run_cell(cell, ctx):
    if cell["k"] == "design":
        fam, N = cell["fam"], cell["N"]
        for bt, fs, arg in itertools.product(BT, (None, 512, 2048.0, 4096), ("py", "tensor")):
            h = 1.0 if fs is None else fs / 2
            for lo, hi in ((0.2, 0.5), (0.05, 0.9), (0.4, 0.45), (0.002, 0.01)):
                Wn = [lo * h, hi * h] if bt in ("band", "bandstop") else (lo * h if bt == "low" else hi * h)
                kw = dict(FAM[fam])
                with ctx.case(bt=bt, fs=fs, arg=arg, Wn=Wn):
                    sos = design(N, Wn, bt, fam, fs, **kw)
                    if arg == "tensor":
                        Wn = torch.tensor(Wn, dtype=torch.float64)
                        kw = {k: torch.tensor(v, dtype=torch.float64) for k, v in kw.items()}
                    m = IIRFilter(N, Wn, btype=bt, ftype=fam, fs=fs, **kw)
                    ctx.count("designs")
                    for n in (1, 2, 5, 9, 64, 1025):
                        x = noise((2, n), torch.float64, ("d", n))
                        want, sens = sensitivity(x, sos)
                        if not np.isfinite(sens) or sens > 1e-7:
                            ctx.count("ill_conditioned_skipped")
                            continue
                        got = ctx.call(m, x)
                        ctx.require(got.dtype == torch.float64, "dtype")
                        ctx.close(got, want, f"filtered (n={n})", rtol=1e-10 + 1e3 * sens)
    elif cell["k"] == "shape":
        m = IIRFilter(3, [20, 60], fs=256)
        sos = design(3, [20, 60], fs=256)
        for lead, n, lay, sc in itertools.product(((), (1,), (5,), (2, 3), (129,)), (4, 7, 33), LAYOUTS,
                                                  (1.0, 1e-21, 100.0)):
            with ctx.case(lead=lead, n=n, layout=lay, sc=sc):
                x = relayout(noise(lead + (n,), torch.float64, ("s", n), sc), lay)
                ctx.close(ctx.call(m, x), ref(x, sos), "filtered", rtol=1e-9)
        for n in (6, 9):
            for i in range(n):
                with ctx.case(impulse=i, n=n):
                    x = torch.zeros(2, n, dtype=torch.float64)
                    x[1, i] = 5.0
                    got = ctx.call(m, x)
                    ctx.close(got, ref(x, sos), "impulse response", rtol=1e-10)
                    ctx.require(bool((got[0] == 0).all()), "silent row is not silent")
        with ctx.case(default=True):
            m2 = IIRFilter(2, [0.2, 0.4])
            sos = design(2, [0.2, 0.4])
            x = noise((3, 50), torch.float64, "def")
            ctx.close(ctx.call(m2, x), ref(x, sos), "default design", rtol=1e-9)
        with ctx.case(single=True):
            m3 = IIRFilter(2, [0.2, 0.4]).float()
            x = noise((3, 50), torch.float32, "def")
            ctx.close(ctx.call(m3, x), ref(x, sos), "single precision", rtol=1e-3)
    elif cell["k"] == "hist":
        sos = design(2, [20, 60], ftype="cheby1", fs=256, rp=0.5)
        menu = [noise((1, 5), torch.float64, 0), noise((4, 64), torch.float64, 1), noise((2, 64), torch.float64, 2)]
        for seq in itertools.product(range(3), repeat=3):
            with ctx.case(seq=seq):
                m = IIRFilter(2, [20, 60], rp=0.5, ftype="cheby1", fs=256)
                for i in seq:
                    ctx.close(ctx.call(m, menu[i]), ref(menu[i], sos), "filtered", rtol=1e-9)
    else:
        for n, rows in ((4096, 3), (4097, 129)):
            with ctx.case(n=n):
                x = noise((rows, n), torch.float64, "big")
                sos = design(4, 100, "high", fs=2048)
                ctx.close(ctx.call(IIRFilter(4, 100, btype="high", fs=2048), x), ref(x, sos), "filtered", rtol=1e-8)
