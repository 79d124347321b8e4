"""P12: whitening against an independent double-precision reference."""
import itertools

import numpy as np
import scipy.signal
import torch
from mc.data import DT, LAYOUTS, noise, relayout, unif
from ml4gw.spectral import truncate_inverse_power_spectrum, whiten
from ml4gw.transforms import FixedWhiten, Whiten

BOUNDS = ("even series lengths 16..4096, filter lengths 2..length samples, cut-offs none or on a bin "
          "(incl. lowest and highest), backgrounds of 1/2/3 dimensions flat, coloured, with a line, and "
          "resampled, crop on/off, layouts and scales to 1e-21, fits from spectra and from series")

RATES = (8, 16, 128, 2048)


def cells(tier):
    out = [dict(k="grid", N=n, sr=sr) for n, sr in
           ((16, 8), (18, 8), (32, 16), (64, 16), (50, 10), (256, 128), (258, 128))]
    out += [dict(k="odd", N=n) for n in (17, 33, 65)]
    out += [dict(k="fixed", N=n, sr=sr) for n, sr in ((32, 16), (64, 16), (36, 20), (256, 128))]
    out += [dict(k="layout", dt=d) for d in DT]
    out += [dict(k="big", N=4096, sr=2048), dict(k="big", N=2 * 2048 + 2, sr=2048)]
    if tier != "quick":
        out += [dict(k="grid", N=n, sr=sr) for n in range(20, 64, 2) for sr in (8, 16, 20)]
    return out


def np_truncate(psd, flen, sr, hp, lp, window=None):
    """psd (..., F) float64 -> amplitude filter whose square is half the inverse spectrum."""
    F = psd.shape[-1]
    N = 2 * (F - 1)
    a = 1 / np.sqrt(psd)
    f = np.arange(F) * sr / N
    if hp is not None:
        a = np.where(f < hp - 1e-9, 0, a)
    if lp is not None:
        a = np.where(f > lp - 1e-9, 0, a)
    if F % 2:
        a[..., -1] = 0
    # impulse response, tapered to flen samples centred on zero lag
    full = np.concatenate([a, a[..., -2:0:-1]], -1)
    q = np.fft.ifft(full, axis=-1).real
    pad = flen // 2
    w = np.hanning(2 * pad + 1)[:-1] if window is None else np.asarray(window, float)
    t = np.zeros(N)
    t[:pad] = w[-pad:]
    t[N - pad:] += w[:pad] if 2 * pad <= N else 0
    q = q * t
    return np.abs(np.fft.fft(q, axis=-1))[..., :F]


def np_whiten(x, psd, flen, sr, hp, lp, crop, window=None):
    x = np.asarray(x, dtype=np.float64)
    n = x.shape[-1]
    amp = np_truncate(np.asarray(psd, np.float64), flen, sr, hp, lp, window)
    x = x - x.mean(-1, keepdims=True)
    X = np.fft.rfft(x, axis=-1) * amp * np.sqrt(2)
    y = np.fft.irfft(X, n=n, axis=-1) / np.sqrt(sr)
    p = flen // 2
    return torch.as_tensor(y[..., p:n - p] if crop else y)


def spectrum(kind, F, shape=(), key=()):
    f = np.arange(F) / F
    if kind == "flat":
        s = np.full(shape + (F,), 3.0)
    elif kind == "red":
        s = np.broadcast_to(1 / (0.05 + f) ** 2, shape + (F,)).copy()
    elif kind == "line":
        s = np.broadcast_to(1 + 0.5 * np.cos(5 * f), shape + (F,)).copy()
        s[..., F // 3] = 200.0
    else:
        s = unif(shape + (F,), 0.5, 2, torch.float64, ("psd", key)).numpy()
    if shape:
        k = np.arange(1, int(np.prod(shape)) + 1).reshape(shape + (1,))
        s = s * k
    return torch.as_tensor(s)


def cutoffs(N, sr):
    df = sr / N
    for hp, lp in ((None, None), (0, None), (1, None), (3, None), (None, N // 2), (None, N // 2 - 2),
                   (None, N // 4), (2, N // 3), (1, N // 2)):
        # a cut-off whose division by the resolution is inexact is put just above its bin
        eps = 0 if all((k * df) / df == k for k in (hp or 0, lp or 0)) else 1e-12
        yield tuple(None if k is None else k * df * (1 + eps) for k in (hp, lp))


def run_cell(cell, ctx):
    if cell["k"] == "grid":
        N, sr = cell["N"], cell["sr"]
        F = N // 2 + 1
        for flen in sorted({2, 4, N // 4 // 2 * 2, N // 2 // 2 * 2, N - 2}):
            fdur = flen / sr
            for i, ((hp, lp), kind, pdim) in enumerate(itertools.product(
                    cutoffs(N, sr), ("flat", "red", "line", "rand"), (1, 2, 3))):
                # batches smaller than, as large as and larger than the number of channels
                B, C = ((3, 2), (2, 2), (1, 1), (2, 3), (3, 3))[(i + i // 12) % 5]
                x = noise((B, C, N), key=("x", N)) * 5 + 2
                psd = spectrum(kind, F, ((), (C,), (B, C))[pdim - 1], (N,))
                with ctx.case(flen=flen, hp=hp, lp=lp, kind=kind, pdim=pdim, batch=B, channels=C):
                    for crop in (True, False):
                        want = np_whiten(x, psd, flen, sr, hp, lp, crop)
                        got = ctx.call(whiten, x, psd, fdur, sr, hp, lp, crop)
                        ctx.close(got, want, f"whitened crop={crop}", rtol=1e-5, atol=1e-9)
                        ctx.require(got.dtype == torch.float32, "dtype")
                    w = Whiten(fdur, sr, hp, lp)
                    got = ctx.call(w, x, psd)
                    ctx.close(got, np_whiten(x, psd, flen, sr, hp, lp, True), "module", rtol=1e-5,
                              atol=1e-9)
                    got = ctx.call(w, x, psd, crop=False)
                    ctx.close(got, np_whiten(x, psd, flen, sr, hp, lp, False), "module, no crop",
                              rtol=1e-5, atol=1e-9)
                    t = ctx.call(truncate_inverse_power_spectrum, spectrum(kind, F, (1, 2)), fdur, sr,
                                 hp, lp)
                    ctx.close(t ** -0.5, np_truncate(spectrum(kind, F, (1, 2)).numpy(), flen, sr, hp,
                                                     lp) * 2 ** 0.5, "truncated filter",
                              rtol=1e-9, atol=1e-12)
            # a spectrum on another grid is resampled linearly first
            x = noise((3, 2, N), key=("x", N)) * 5 + 2
            for M in (F // 2, 2 * F + 1, F - 1):
                with ctx.case(flen=flen, resampled_from=M):
                    psd = spectrum("rand", M, (2,), (N,))
                    p2 = torch.nn.functional.interpolate(psd[None], size=(F,), mode="linear")[0]
                    got = ctx.call(whiten, x, psd, fdur, sr)
                    ctx.close(got, np_whiten(x, p2, flen, sr, None, None, True), "resampled",
                              rtol=1e-5, atol=1e-9)
            # odd filter windows handed over as a tensor
            win = torch.hann_window(flen + 1, dtype=torch.float64)
            with ctx.case(window=flen + 1):
                got = ctx.call(whiten, x, psd := spectrum("red", F, (2,)), win, sr)
                ctx.close(got, np_whiten(x, psd, flen, sr, None, None, True, win), "window", rtol=1e-5,
                          atol=1e-9)
        with ctx.case(white=True):
            # white noise of variance v has one-sided density 2 v / rate
            v = 2.5
            x = noise((2, 1, N), torch.float64, "w")
            p = torch.full((F,), 2 * v / sr, dtype=torch.float64)
            y = whiten(x, p, (N - 2) / sr, sr, crop=False).double()
            X = torch.fft.rfft(x - x.mean(-1, keepdim=True))
            Y = torch.fft.rfft(y)
            ctx.close(Y[..., 2:F - 2].abs().mean(), X[..., 2:F - 2].abs().mean() / v**0.5,
                      "gain of a flat background", rtol=0.15)
        with ctx.case(invalid=True):
            ctx.raises(ValueError, whiten, noise((1, 1, N)), spectrum("red", F), N / sr, sr)
            ctx.raises(ValueError, Whiten(N / sr, sr), noise((1, 1, N)), spectrum("red", F))
    elif cell["k"] == "odd":
        # odd lengths: the crop and row independence still hold
        N, sr = cell["N"], 16
        for flen in (2, 4, 8):
            with ctx.case(flen=flen):
                x = noise((3, 2, N), key="o")
                psd = spectrum("red", N // 2 + 1, (2,))
                got = ctx.call(whiten, x, psd, flen / sr, sr)
                full = ctx.call(whiten, x, psd, flen / sr, sr, crop=False)
                ctx.require(full.shape == x.shape, f"uncropped shape {tuple(full.shape)}")
                ctx.equal(got, full[..., flen // 2:N - flen // 2], "crop")
                ctx.equal(ctx.call(whiten, x[1:2], psd, flen / sr, sr), got[1:2], "row alone")
    elif cell["k"] == "fixed":
        N, sr = cell["N"], cell["sr"]
        F = N // 2 + 1
        x = noise((3, 2, N), key=("fx", N)) + 1
        dur = N / sr
        for flen, (hp, lp), dt in itertools.product(
                sorted({2, 4, N // 2 // 2 * 2, 18 if N > 18 else 6}), cutoffs(N, sr),
                (torch.float64, torch.float32)):
            fdur = flen / sr
            tol = 1e-5 if dt == torch.float64 else 2e-5
            for src in ("same", "coarse", "fine", "series", "series_overlap", "series_apart", "series_coarse"):
                with ctx.case(flen=flen, hp=hp, lp=lp, dt=dt, src=src):
                    fw = FixedWhiten(2, dur, sr, dtype=dt)
                    if src.startswith("series"):
                        bg = [noise((7 * N + 3,), torch.float64, (i, N)) * (i + 1) + 4 for i in (0, 1)]
                        fl = dur if src != "series_coarse" else dur / 2
                        ov = dict(series_overlap=dur / 4, series_apart=0).get(src)
                        fw.fit(fdur, *bg, fftlength=fl, highpass=hp, lowpass=lp, overlap=ov)
                        nper = int(fl * sr)
                        nov = nper // 2 if ov is None else int(ov * sr)
                        psd = torch.stack([torch.as_tensor(scipy.signal.welch(
                            b.numpy(), sr, "hann", nper, nov, detrend="constant",
                            average="median")[1]) for b in bg])
                    else:
                        M = dict(same=F, coarse=F // 2, fine=2 * F - 1)[src]
                        psd = spectrum("rand", M, (2,), (N,))
                        fw.fit(fdur, *psd, highpass=hp, lowpass=lp)
                    if psd.shape[-1] != F:
                        psd = torch.nn.functional.interpolate(psd[None], size=(F,))[0]
                    for crop in (True, False):
                        got = ctx.call(fw, x, crop=crop)
                        ctx.close(got, np_whiten(x, psd, flen, sr, hp, lp, crop),
                                  f"fixed whitening crop={crop}", rtol=tol, atol=1e-7)
                    ctx.raises(ValueError, fw, x[..., :-1])
        with ctx.case(invalid=True):
            ctx.raises(ValueError, FixedWhiten(2, dur, sr).fit, 4 / sr, torch.ones(F))
    elif cell["k"] == "layout":
        dt = DT[cell["dt"]]
        N, sr, F = 64, 16, 33
        for lay, scale, pdim, pl in itertools.product(LAYOUTS, (1e-21, 1.0, 1e4), (1, 2, 3), LAYOUTS):
            with ctx.case(layout=lay, scale=scale, pdim=pdim, psd_layout=pl):
                x = relayout((noise((3, 2, N), torch.float64, "lay") * scale).to(dt), lay)
                psd = relayout(spectrum("line", F, ((), (2,), (3, 2))[pdim - 1]) * scale**2, pl)
                got = ctx.call(whiten, x, psd, 1.0, sr, 2.0, 7.0)
                ctx.close(got, np_whiten(x, psd, 16, sr, 2.0, 7.0, True), "whitened", rtol=1e-5)
                w = Whiten(1.0, sr, 2.0, 7.0)
                ctx.close(ctx.call(w, x, psd), np_whiten(x, psd, 16, sr, 2.0, 7.0, True), "module",
                          rtol=1e-5)
    else:
        N, sr = cell["N"], cell["sr"]
        F = N // 2 + 1
        for B, (hp, lp), flen in itertools.product((1, 17), ((None, None), (32.0, 1000.0)), (1024, 2048)):
            with ctx.case(B=B, hp=hp, lp=lp, flen=flen):
                if hp and N != 4096:
                    continue
                x = noise((B, 2, N), key="big", scale=1e-20)
                psd = spectrum("red", F, (B, 2)) * 1e-42
                got = ctx.call(whiten, x, psd, flen / sr, sr, hp, lp)
                ctx.close(got, np_whiten(x, psd, flen, sr, hp, lp, True), "whitened", rtol=1e-5)
