"""P24: the combined spectrogram is the maximum over aligned resolutions."""
import itertools

import numpy as np
import torch
import warnings
from mc.data import DT, LAYOUTS, noise, relayout
from ml4gw.transforms import MultiResolutionSpectrogram

BOUNDS = ("all ordered lists of 1..3 (selected lists of 4..8) resolutions from a menu of even/odd FFT sizes; "
          "window lengths, hops, powers, normalisations as single or per-resolution lists; kernel lengths "
          "40..4097 samples odd and even; batch 1..3 (129), channels 1..3; layouts; call histories")
N_FFT = (16, 25, 32, 48, 64)


def cells(tier):
    T = (40, 65, 128, 250) if tier == "quick" else (33, 40, 65, 97, 128, 250, 513)
    out = [dict(k="perm", T=t, n=n) for t in T for n in (1, 2, 3)]
    return out + [dict(k="kwargs"), dict(k="layout"), dict(k="hist"), dict(k="big")] + [dict(k="ratio", part=i) for i in range(6)]


def spec(x, n_fft=400, win_length=None, hop_length=None, power=2.0, normalized=True):
    win = win_length or n_fft
    hop = hop_length or win // 2
    w = np.zeros(n_fft)
    lo = (n_fft - win) // 2
    hann = 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(win) / win)
    w[lo:lo + win] = hann
    p = n_fft // 2
    x = np.pad(x, [(0, 0)] * (x.ndim - 1) + [(p, p)], mode="reflect")
    nt = 1 + (x.shape[-1] - n_fft) // hop
    fr = np.stack([x[..., i * hop:i * hop + n_fft] for i in range(nt)], -2) * w
    S = np.fft.rfft(fr, axis=-1)
    if normalized == "frame_length":
        S = S / np.sqrt(n_fft)
    elif normalized:
        S = S / np.sqrt((hann ** 2).sum())
    return np.moveaxis(np.abs(S) ** power, -1, -2)


def ref(x, confs):
    specs = [spec(x.double().numpy(), **c) for c in confs]
    F, T = max(s.shape[-2] for s in specs), max(s.shape[-1] for s in specs)
    out = None
    for s in specs:
        fi, ti = np.arange(F) * s.shape[-2] // F, np.arange(T) * s.shape[-1] // T
        r = s[..., fi[:, None], ti[None]]
        out = r if out is None else np.maximum(out, r)
    return torch.tensor(out)


def make(T, sr=64, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return MultiResolutionSpectrogram(T / sr, sr, **kw)


def run_cell(cell, ctx):
    if cell["k"] == "perm":
        T, n = cell["T"], cell["n"]
        menu = [f for f in N_FFT if f // 2 < T]
        x = noise((2, 2, T), key=("p", T))
        for lst in itertools.product(menu, repeat=n):
            with ctx.case(n_fft=lst):
                got = ctx.call(make(T, n_fft=list(lst)), x)
                ctx.close(got, ref(x, [dict(n_fft=f) for f in lst]), "combined", rtol=1e-5)
        if n == 2:
            # an impulse in every position shows where each pixel comes from
            for t in range(0, T, 7):
                e = torch.zeros(1, 1, T)
                e[..., t] = 1.0
                with ctx.case(impulse=t):
                    got = ctx.call(make(T, n_fft=[32, 16], hop_length=[5, 3]), e)
                    ctx.close(got, ref(e, [dict(n_fft=32, hop_length=5), dict(n_fft=16, hop_length=3)]),
                              "combined", rtol=1e-5)
    elif cell["k"] == "kwargs":
        T = 120
        x = noise((2, 1, T), key="kw")
        opts = dict(n_fft=([32], [64], [24, 50], [50, 24], [16, 32, 64]),
                    win_length=(None, [16], [10, 16], [16, 12, 16]),
                    hop_length=(None, [6], [3, 8], [8, 4, 2]),
                    power=(None, [1.0], [2.0, 1.0]),
                    normalized=(None, [True], ["window", "frame_length"], ["frame_length"]))
        for vals in itertools.product(*opts.values()):
            kw = {k: v for k, v in zip(opts, vals) if v is not None}
            lens = {len(v) for v in kw.values()} - {1}
            with ctx.case(**kw):
                if len(lens) > 1:
                    ctx.raises(ValueError, make, T, **{k: list(v) for k, v in kw.items()})
                    continue
                n = max(lens, default=1)
                confs = [{k: v[i % len(v)] for k, v in kw.items()} for i in range(n)]
                got = ctx.call(make(T, **{k: list(v) for k, v in kw.items()}), x)
                ctx.close(got, ref(x, confs), "combined", rtol=1e-5)
        for n in (4, 5, 8):
            for rev in (False, True):
                lst = [16 + 4 * i for i in range(n)][::-1 if rev else 1]
                with ctx.case(many=lst):
                    got = ctx.call(make(T, n_fft=list(lst), win_length=[12]), x)
                    ctx.close(got, ref(x, [dict(n_fft=f, win_length=12) for f in lst]), "combined", rtol=1e-5)
        with ctx.case(invalid=True):
            ctx.raises(ValueError, make, T, n_fft=[32], normalized=[False])
            ctx.raises(ValueError, make, T, n_fft=[32, 64], normalized=[True, False])
            m = make(T, n_fft=[32])
            for bad in (T - 1, T + 1):
                ctx.raises(ValueError, m, torch.zeros(1, 1, bad))
    elif cell["k"] == "ratio":
        # numbers of bins whose ratios do not round the same way in every precision
        step = 6 if ctx.tier == "quick" else 2
        for T in range(40 + cell["part"], 300, step):
            x = noise((1, 1, T), key=("r", T))
            for hops in ((1, 7), (2, 6), (3, 10), (11, 1)):
                with ctx.case(T=T, hops=hops):
                    confs = [dict(n_fft=16, hop_length=h) for h in hops]
                    ctx.close(ctx.call(make(T, n_fft=[16], hop_length=list(hops)), x), ref(x, confs), "combined", rtol=1e-5)
        x = noise((1, 1, 130), key="bins")
        pairs = [(a, b) for a in range(6, 110) for b in range(3, a) if np.gcd(a, b) > 2]
        for a, b in pairs[cell["part"]::step]:
            with ctx.case(bins=(a, b)):
                confs = [dict(n_fft=2 * n - 2, hop_length=40) for n in (a, b)]
                ctx.close(ctx.call(make(130, n_fft=[c["n_fft"] for c in confs], hop_length=[40]), x), ref(x, confs),
                          "combined", rtol=1e-5)
    elif cell["k"] == "layout":
        for (b, c), lay, dt, sc in itertools.product(((1, 1), (3, 1), (1, 3), (2, 2)), LAYOUTS, DT,
                                                     (1.0, 1e-8, 1e4)):
            with ctx.case(b=b, c=c, layout=lay, dt=dt, sc=sc):
                m = make(100, n_fft=[40, 20], hop_length=[10, 7]).to(DT[dt])
                x = relayout(noise((b, c, 100), DT[dt], "lay", sc), lay)
                confs = [dict(n_fft=40, hop_length=10), dict(n_fft=20, hop_length=7)]
                ctx.close(ctx.call(m, x), ref(x, confs), "combined", rtol=1e-5)
    elif cell["k"] == "hist":
        confs = [dict(n_fft=40, hop_length=10), dict(n_fft=20, hop_length=7)]
        menu = [noise((1, 1, 100), key=0), noise((4, 2, 100), key=1), noise((2, 3, 100), key=2)]
        for seq in itertools.product(range(3), repeat=3):
            with ctx.case(seq=seq):
                m = make(100, n_fft=[40, 20], hop_length=[10, 7])
                for i in seq:
                    ctx.close(ctx.call(m, menu[i]), ref(menu[i], confs), "combined", rtol=1e-5)
    else:
        for T, b in ((4096, 1), (4097, 2), (600, 129)):
            with ctx.case(T=T, b=b):
                x = noise((b, 2, T), key="big")
                got = ctx.call(make(T, 512, n_fft=[64, 128, 256]), x)
                ctx.close(got, ref(x, [dict(n_fft=f) for f in (64, 128, 256)]), "combined", rtol=1e-5)
