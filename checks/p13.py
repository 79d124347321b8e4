"""P13: spectral density estimates agree with Welch's method (scipy as oracle)."""
import itertools

import numpy as np
import scipy.signal
import torch
from mc.data import DT, noise, relayout
from ml4gw.spectral import fast_spectral_density, spectral_density
from ml4gw.transforms import SpectralDensity

BOUNDS = ("segment lengths 2..9,16,33,64, strides 1..segment+1, 1..6 segments plus a remainder, mean/"
          "median, 3 windows, 1-3 dimensional inputs, all allowed shapes of the second series, four "
          "memory layouts, scales 1e-21..1e3")


def cells(tier):
    segs = [2, 3, 4, 5, 6, 7, 8, 9, 16, 33] if tier == "quick" else [*range(2, 21), 33, 64, 127]
    out = [dict(k="grid", n=n) for n in segs]
    out += [dict(k="mod", fs=f) for f in (1, 16, 128, 100.0)]
    out += [dict(k="layout", n=n) for n in (8, 15)]
    out += [dict(k="big", n=n) for n in (1024, 1023)]
    return out


def windows(n):
    yield "hann", torch.hann_window(n, dtype=torch.float64)
    yield "ones", torch.ones(n, dtype=torch.float64)
    if n > 2:
        yield "kaiser", torch.kaiser_window(n, periodic=False, beta=5.0, dtype=torch.float64)


def welch(x, n, stride, win, fs, avg, y=None, detrend="constant"):
    x = x.double().numpy()
    kw = dict(fs=fs, window=win.double().numpy(), nperseg=n, noverlap=n - stride, detrend=detrend,
              scaling="density", average=avg)
    if y is None:
        return torch.as_tensor(scipy.signal.welch(x, **kw)[1])
    return torch.as_tensor(scipy.signal.csd(x, y.double().numpy(), **kw)[1])


def direct(x, n, stride, win, fs, avg, y=None):
    """Whole-series centring, then segment by segment: the fast estimate's definition."""
    x = x.double() - x.double().mean(-1, keepdim=True)
    y = x if y is None else y.double() - y.double().mean(-1, keepdim=True)
    m = (x.shape[-1] - n) // stride + 1
    out = []
    for i in range(m):
        a = torch.fft.fft(x[..., i * stride:i * stride + n] * win.double())
        b = torch.fft.fft(y[..., i * stride:i * stride + n] * win.double())
        p = (a.conj() * b)[..., : n // 2 + 1].clone()
        for j in range(1, n // 2 + 1):
            if 2 * j != n:
                p[..., j] = 2 * p[..., j]
        out.append(p / (fs * float((win.double() ** 2).sum())))
    out = torch.stack(out, -1)
    if avg == "mean":
        return out.mean(-1)
    half = [2 * i for i in range(1, (m - 1) // 2 + 1)]
    bias = 1 + sum(1 / (i + 1) - 1 / i for i in half)
    med = np.median(out.real.numpy(), axis=-1) + 1j * np.median(out.imag.numpy(), axis=-1)
    return torch.as_tensor(med / bias)


def run_cell(cell, ctx):
    if cell["k"] == "grid":
        n = cell["n"]
        for stride in sorted({1, max(1, n // 2), max(1, n - 1), n, n + 1}):
            for segs, rest, avg in itertools.product((1, 2, 3, 4, 6), (0, 1), ("mean", "median")):
                if rest >= stride:
                    continue
                T = n + (segs - 1) * stride + rest
                for wname, win in windows(n):
                    for shape in ((), (1,), (3,), (2, 1), (1, 2), (2, 3), (2, 2)):
                        x = noise(shape + (T,), torch.float64, ("x", n)) + 0.7
                        fs = 16.0
                        scale = float(1.0 / (fs * (win**2).sum()))
                        d = dict(stride=stride, segs=segs, rest=rest, avg=avg, win=wname, shape=shape)
                        with ctx.case(exact=True, **d):
                            got = ctx.call(spectral_density, x, n, stride, win, scale, avg)
                            if stride <= n:
                                want = welch(x, n, stride, win, fs, avg)
                            else:
                                want = torch.stack([welch(x[..., i * stride:i * stride + n], n, 1,
                                                          win, fs, "mean") for i in range(segs)], -1)
                                want = want.mean(-1) if avg == "mean" else None
                            if want is not None:
                                ctx.close(got, want, "density", rtol=1e-6, atol=1e-15)
                        with ctx.case(fast=True, **d):
                            got = ctx.call(fast_spectral_density, x, n, stride, win, scale, avg)
                            want = direct(x, n, stride, win, fs, avg)
                            ctx.close(got, want.real, "fast density", rtol=1e-6, atol=1e-15)
                            if wname == "hann" and n > 4 and stride <= n:
                                ctx.close(got[..., 2:], welch(x, n, stride, win, fs, avg)[..., 2:],
                                          "fast density from the third bin", rtol=1e-6, atol=1e-14)
                        for ys in {shape, shape[1:] if len(shape) < 2 else shape[:1]}:
                            y = noise(ys + (T,), torch.float64, ("y", n)) - 0.3
                            yy = y[:, None] if len(shape) == 2 and len(ys) == 1 else y
                            with ctx.case(cross=ys, **d):
                                got = ctx.call(fast_spectral_density, x, n, stride, win, scale, avg,
                                               y)
                                xe, ye = torch.broadcast_tensors(x, yy)
                                want = direct(xe, n, stride, win, fs, avg, ye)
                                ctx.close(got, want, "cross density", rtol=1e-6, atol=1e-15)
                                if wname == "hann" and n > 4 and stride <= n:
                                    w = welch(xe, n, stride, win, fs, avg, ye)
                                    ctx.close(got[..., 2:], w[..., 2:], "cross density from bin 2",
                                              rtol=1e-6, atol=1e-14)
        with ctx.case(invalid=True):
            win = torch.hann_window(n)
            for f in (spectral_density, fast_spectral_density):
                ctx.raises(ValueError, f, noise((n - 1,)), n, 1, win, 1.0)
                ctx.raises(ValueError, f, noise((1, 1, 1, n)), n, 1, win, 1.0)
            for xs, ys in (((n,), (1, n)), ((n + 1,), (n,)), ((2, n), (3, n)), ((2, n), (2, 2, n)),
                           ((2, 3, n), (2, 2, n)), ((2, 3, n), (n,)), ((2, 3, n), (3, n))):
                ctx.raises(ValueError, fast_spectral_density, noise(xs), n, 1, win, 1.0, "mean",
                           noise(ys))
    elif cell["k"] == "mod":
        fs = cell["fs"]
        for nper, frac, avg, fast, wname in itertools.product(
                (4, 16, 25), (None, 0, 0.25, 0.75), ("mean", "median"), (True, False),
                (None, "custom")):
            fl = nper / fs
            if fs == 100.0 and nper != 25:
                continue
            ov = None if frac is None else frac * fl
            nov = nper * (0.5 if frac is None else frac)
            if int(nov) != nov and int(nper / fs / 2 * fs) != nper // 2:
                continue
            nov = int((fl / 2 if ov is None else ov) * fs)
            win = torch.hann_window(nper) if wname is None else torch.linspace(0.2, 1, nper)
            with ctx.case(nper=nper, overlap=frac, avg=avg, fast=fast, win=wname):
                m = SpectralDensity(fs, fl, ov, avg, window=None if wname is None else win,
                                    fast=fast)
                for T in (nper, 2 * nper + 1, 5 * nper):
                    for shape in ((), (2,), (2, 3), (3, 3)):
                        for dt in DT:
                            x = noise(shape + (T,), DT[dt], (T, shape)) * 3
                            got = ctx.call(m, x)
                            want = (direct(x, nper, nper - nov, win, fs, avg).real if fast else
                                    welch(x, nper, nper - nov, win, fs, avg))
                            ctx.close(got, want, f"density {T} {shape} {dt}", rtol=2e-6, atol=1e-13)
                            y = noise(shape + (T,), DT[dt], "y")
                            if fast:
                                got = ctx.call(m, x, y)
                                ctx.close(got, direct(x, nper, nper - nov, win, fs, avg, y), "cross",
                                          rtol=1e-5, atol=1e-7)
                            else:
                                ctx.raises(NotImplementedError, m, x, y)
        with ctx.case(invalid=True):
            ctx.raises(ValueError, SpectralDensity, fs, 8 / fs, 8 / fs)
            ctx.raises(ValueError, SpectralDensity, fs, 8 / fs, 9 / fs)
            ctx.raises(ValueError, SpectralDensity, fs, 8 / fs, None, "max")
            ctx.raises(ValueError, SpectralDensity, fs, 8 / fs, None, "mean", torch.ones(7))
    elif cell["k"] == "layout":
        n = cell["n"]
        win = torch.hann_window(n, dtype=torch.float64)
        for shape, lay, avg, scale, dt in itertools.product(
                ((2,), (3, 2)), ("c", "strided", "transposed", "offset"), ("mean", "median"),
                (1e-21, 1e-3, 1e3), DT):
            x = relayout(noise(shape + (5 * n,), DT[dt], "lx", scale), lay)
            y = relayout(noise(shape + (5 * n,), DT[dt], "ly", scale), lay)
            with ctx.case(shape=shape, layout=lay, avg=avg, scale=scale, dt=dt):
                sc = float(1 / (4.0 * (win**2).sum()))
                got = ctx.call(spectral_density, x, n, n // 2, win, sc, avg)
                ctx.close(got, welch(x, n, n // 2, win, 4.0, avg), "density", rtol=1e-6)
                got = ctx.call(fast_spectral_density, x, n, n // 2, win, sc, avg)
                ctx.close(got, direct(x, n, n // 2, win, 4.0, avg).real, "fast", rtol=1e-6)
                got = ctx.call(fast_spectral_density, x, n, n // 2, win, sc, avg, y)
                ctx.close(got, direct(x, n, n // 2, win, 4.0, avg, y), "cross", rtol=1e-5)
    else:
        n = cell["n"]
        win = torch.hann_window(n, dtype=torch.float64)
        sc = float(1 / (2048.0 * (win**2).sum()))
        for shape, avg, mult in itertools.product(((), (3,), (2, 2), (17, 2)), ("mean", "median"),
                                                  (1, 9, 33)):
            if len(shape) == 2 and shape[0] == 17 and mult > 9:
                continue
            T = mult * (n // 2) + n + 5
            x = noise(shape + (T,), torch.float32, "big", 1e-20)
            with ctx.case(shape=shape, avg=avg, T=T):
                ctx.close(ctx.call(spectral_density, x, n, n // 2, win, sc, avg),
                          welch(x, n, n // 2, win, 2048.0, avg), "density", rtol=1e-6)
                ctx.close(ctx.call(fast_spectral_density, x, n, n // 2, win, sc, avg)[..., 2:],
                          welch(x, n, n // 2, win, 2048.0, avg)[..., 2:], "fast", rtol=1e-6)
