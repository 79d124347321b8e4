"""P23: Q-transform tiles, interpolation and plane selection."""
import itertools
import math
import warnings

import numpy as np
import torch
from mc.data import DT, LAYOUTS, noise, relayout
from ml4gw.transforms import QScan, SingleQTransform
from ml4gw.transforms.qtransform import QTile

from checks.p20 import basis, knots

BOUNDS = ("durations 0.5..4 s, rates 128..1024 (thorough 2048), Q 4..40, mismatches 0.1..0.5, explicit and "
          "default ranges, all norms, all interpolation methods, odd output shapes; inputs of 1-3 dims with "
          "size-1 and large batches; a burst planted at every point of a time x frequency x Q grid; search "
          "ranges; every history of up to three calls")


def wide(**kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return QScan(**kw)


# -- reference -----------------------------------------------------------
def deltam(mm):
    return 2 * math.sqrt(mm / 3)


def default_range(q, D, sr, fr):
    lo, hi = fr or (0, math.inf)
    lo = 50 * q / (2 * math.pi * D) if lo <= 0 else lo
    hi = sr / 2 / (1 + math.sqrt(11) / q) if math.isinf(hi) else hi
    return lo, hi


def raw_freqs(q, D, sr, fr, mm):
    """Frequencies before rounding down to multiples of 1/D."""
    lo, hi = default_range(q, D, sr, fr)
    cum = math.log(hi / lo) * math.sqrt(2 + q * q) / 2
    n = max(1, math.ceil(cum / deltam(mm)))
    base = math.exp(2 / math.sqrt(2 + q * q) * cum / n)
    return [lo * base ** (i + 0.5) for i in range(n)]


def check_freqs(ctx, got, q, D, sr, fr, mm):
    want = raw_freqs(q, D, sr, fr, mm)
    allowed, sure = set(), set()
    for w in want:
        k = w * D
        opts = {math.floor(k), math.floor(k * (1 + 1e-6)), math.floor(k * (1 - 1e-6))}
        allowed |= opts
        if len(opts) == 1:
            sure |= opts
    g = [float(f) * D for f in got]
    for v in g:
        ctx.require(abs(v - round(v)) < 1e-6, f"tile frequency {v / D} is not a multiple of 1/duration")
    gi = [round(v) for v in g]
    ctx.require(gi == sorted(set(gi)), "tile frequencies are not increasing")
    ctx.require(set(gi) <= allowed and sure <= set(gi),
                f"tile frequencies {sorted(set(gi) ^ sure)} differ from the mismatch rule")


def tile(X, q, f, D, sr, mm, norm):
    """X: full one-sided spectrum, numpy complex (..., F)."""
    qp = q / math.sqrt(11)
    half = int(f / qp * D)
    k = np.arange(-half, half + 1)
    cum = D * 2 * math.pi * f / q
    nt = int(2 ** math.ceil(math.log2(cum / deltam(mm))))
    w = (1 - (k / D * qp / f) ** 2) ** 2 * nt / (D * sr) * math.sqrt(315 * qp / (128 * f))
    idx = np.clip(np.round(k + 1 + f * D).astype(int), 0, X.shape[-1] - 1)
    buf = np.zeros(X.shape[:-1] + (nt,), dtype=complex)
    buf[..., k % nt] = X[..., idx] * w
    e = np.abs(np.fft.ifft(buf, axis=-1)) ** 2
    if norm == "median":
        e = e / np.median(e, axis=-1, keepdims=True)
    elif norm == "mean":
        e = e / e.mean(-1, keepdims=True)
    return e


def spectrum(x):
    x = x.double().numpy()
    X = np.fft.rfft(x, axis=-1) / x.shape[-1]
    X[..., 1:] *= 2
    return X


def tiles(x, freqs, q, D, sr, mm, norm):
    X = spectrum(x)
    X = X.reshape((1,) * (3 - X.ndim) + X.shape)
    return [tile(X, q, float(f), D, sr, mm, norm) for f in freqs]


def resample(n, m, mode):
    """(m, n) operator of torch's half-pixel resampling."""
    W = np.zeros((m, n))
    for o in range(m):
        s = (o + 0.5) * n / m - 0.5
        if mode == "bilinear":
            s = max(s, 0.0)
        i = math.floor(s)
        t = s - i
        if mode == "bilinear":
            pts = [(i, 1 - t), (i + 1, t)]
        else:
            a = -0.75
            near = lambda d: (a + 2) * d ** 3 - (a + 3) * d ** 2 + 1  # noqa: E731
            far = lambda d: a * d ** 3 - 5 * a * d ** 2 + 8 * a * d - 4 * a  # noqa: E731
            pts = [(i - 1, far(1 + t)), (i, near(t)), (i + 1, near(1 - t)), (i + 2, far(2 - t))]
        for j, v in pts:
            W[o, min(max(j, 0), n - 1)] += v
    return W


_ops = {}


def spline_op(x, xo):
    t = knots(x, 3)
    B = basis(x, 3, t)
    return basis(xo, 3, t) @ np.linalg.solve(B.T @ B, B.T)


def time_op(nt, m, D, mode):
    key = (nt, m, D, mode)
    if key not in _ops:
        _ops[key] = (spline_op(np.arange(nt) * D / nt, np.arange(m) * D / m) if mode == "spline"
                     else resample(nt, m, mode))
    return _ops[key]


def image(ts, freqs, q, D, sr, fr, shape, mode):
    rows = np.stack([t @ time_op(t.shape[-1], shape[1], D, mode).T for t in ts], -2)
    if mode == "spline":
        lo, hi = default_range(q, D, sr, fr)
        W = spline_op(np.array([float(f) for f in freqs]),
                      np.logspace(math.log10(lo), math.log10(hi), shape[0]))
    else:
        W = resample(len(ts), shape[0], mode)
    return W @ rows


def max_q(D, sr):
    return math.pi * D * sr / 50 - math.sqrt(11)


# -- cells ---------------------------------------------------------------
def cells(tier):
    geo = [(0.5, 256), (1, 256), (2, 256), (1, 1024), (4, 128)] if tier == "quick" else [
        (0.5, 256), (0.5, 1024), (1, 256), (1, 257), (2, 256), (1, 1024), (1, 2048), (4, 128), (4, 512)]
    out = [dict(k="tiles", D=d, sr=s) for d, s in geo]
    out += [dict(k="image", D=d, sr=s, mode=m) for d, s in geo for m in ("bilinear", "bicubic")]
    out += [dict(k="image", D=d, sr=s, mode="spline", q=q)
            for d, s in ([(0.5, 256), (1, 256)] if tier == "quick" else [(0.5, 256), (1, 256), (2, 256), (1, 512)])
            for q in (4, 8.5, 12)]
    out += [dict(k="scan", mode=m, q=q) for m in ("bilinear", "bicubic", "spline") for q in (0, 1, 2)]
    out += [dict(k="mixed", q=q, line=v) for q in ([4, 48], [5, 30]) for v in range(3)]
    return out + [dict(k="layout"), dict(k="hist"), dict(k="range"), dict(k="big")]


def close_tiles(ctx, got, want, what, rtol=2e-4):
    ctx.require(len(got) == len(want), f"{what}: {len(got)} rows, expected {len(want)}")
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.close(g, torch.tensor(w), f"{what}: row {i}", rtol=rtol)


def expect_shape(x, shape):
    return tuple(x.shape[:-1]) + tuple(shape)


def run_cell(cell, ctx):
    thorough = ctx.tier != "quick"
    if cell["k"] == "tiles":
        D, sr = cell["D"], cell["sr"]
        n = int(D * sr)
        for q, fr, mm in itertools.product((4, 8.5, 12, 25, 40), (None, (20, math.inf), (30, 60), (0, 50)),
                                           (0.1, 0.2, 0.35, 0.5)):
            if q >= max_q(D, sr):
                with ctx.case(q=q, toobig=True):
                    ctx.raises(ValueError, SingleQTransform, D, sr, [8, 8], q)
                continue
            lo, hi = default_range(q, D, sr, fr)
            if lo >= hi or hi * (1 + math.sqrt(11) / q) > sr / 2 + 1e-9 or lo * D < 2 * q:
                continue
            for shp, norm in itertools.product(((n,), (2, 3, n), (1, 3, n), (3, 1, n), (1, 1, n)), ("median", "mean", None, "MEDIAN")):
                if 1 in shp and (norm != "median" or mm != 0.2):
                    continue
                with ctx.case(q=q, fr=fr, mm=mm, shp=shp, norm=norm):
                    given = None if fr is None else list(fr)
                    m = SingleQTransform(D, sr, [8, 8], q, given, mm)
                    ctx.require(given is None or given == list(fr), "the caller's frequency range changed")
                    check_freqs(ctx, m.freqs, q, D, sr, fr, mm)
                    x = noise(shp, key=("q", n))
                    nm = norm.lower() if norm else norm
                    ctx.call(m.compute_qtiles, x, norm)
                    want = tiles(x, m.freqs, q, D, sr, mm, nm)
                    close_tiles(ctx, m.qtiles, want, "tiles")
                    if len(shp) == 3:
                        for dim, ax in (("both", None), ("neither", ()), ("channel", (0,)), ("batch", (1,))):
                            mx = np.stack([w.max(-1) for w in want], -1).max(-1)
                            mx = mx if ax == () else mx.max(axis=ax)
                            got = m.get_max_energy(dimension=dim)
                            ctx.require(tuple(got.shape) == np.shape(mx), f"max over {dim} has shape {tuple(got.shape)}")
                            ctx.close(got, torch.tensor(mx), f"max over {dim}", rtol=2e-4)
                        f = float(m.freqs[len(m.freqs) // 2])
                        fs = torch.tensor(spectrum(x)).to(torch.complex64)
                        one = ctx.call(QTile(q, f, D, sr, mm), fs, norm)
                        ctx.close(one, torch.tensor(tile(fs.numpy(), q, f, D, sr, mm, nm)), "single tile",
                                  rtol=2e-4)
        with ctx.case(norm="bad"):
            m = SingleQTransform(D, sr, [8, 8], 4)
            ctx.raises(RuntimeError, m.interpolate)
            ctx.raises(RuntimeError, m.get_max_energy)
            ctx.raises(ValueError, m, noise((n,)), "max")
            ctx.raises(ValueError, m, noise((1, 1, 1, n)))
    elif cell["k"] == "image":
        D, sr, mode = cell["D"], cell["sr"], cell["mode"]
        n = int(D * sr)
        for q, fr, shape, mm in itertools.product([cell["q"]] if "q" in cell else (4, 8.5, 12, 25), (None, (30, 60)), ([16, 32], [33, 17], [64, 5]),
                                              (0.2, 0.1)):
            lo, hi = default_range(q, D, sr, fr)
            if q >= max_q(D, sr) or lo >= hi or lo * D < 2 * q:
                continue
            if mode == "spline":
                fq = sorted({math.floor(f * D) for f in raw_freqs(q, D, sr, fr, mm)})
                nt = 2 ** math.ceil(math.log2(2 * math.pi * fq[0] / q / deltam(mm)))
                if len(fq) < 6 or nt < 8:
                    continue
            m = None
            for shp, norm in itertools.product(((n,), (1, n), (3, n), (1, 2, n), (2, 1, n), (1, 1, n), (2, 3, n)),
                                               ("median", None)):
                with ctx.case(q=q, fr=fr, shape=shape, shp=shp, mm=mm, norm=norm):
                    m = m or SingleQTransform(D, sr, shape, q, fr and list(fr), mm, mode)
                    x = noise(shp, key=("im", n))
                    got = ctx.call(m, x, norm)
                    ctx.require(tuple(got.shape) == expect_shape(x, shape),
                                f"shape {tuple(got.shape)} for input {tuple(x.shape)}")
                    ts = tiles(x, m.freqs, q, D, sr, mm, norm)
                    want = torch.tensor(image(ts, m.freqs, q, D, sr, fr, shape, mode))
                    tol = 5e-4
                    if mode == "spline":
                        B = basis(np.array([float(f) for f in m.freqs]), 3,
                                  knots(np.array([float(f) for f in m.freqs]), 3))
                        tol = 2e-3 + 4e-6 * np.linalg.cond(B.T @ B)
                    ctx.close(got.reshape(want.shape), want, "image", rtol=tol)
        with ctx.case(badmode=True):
            ctx.raises(ValueError, SingleQTransform, D, sr, [8, 8], 4, None, 0.2, "nearest")
    elif cell["k"] == "scan":
        # a sine-Gaussian of one Q planted at every grid point; every plane is computed by the reference
        mode, D, sr, shape, mm = cell["mode"], 1.0, 512, [16, 24], 0.2
        qrange, sel = [4, 26], cell["q"]
        scan = wide(duration=D, sample_rate=sr, spectrogram_shape=shape, qrange=list(qrange), mismatch=mm,
                    interpolation_method=mode)
        n = int(math.log(qrange[1] / qrange[0]) / math.sqrt(2) / deltam(mm)) + 1
        step = math.log(qrange[1] / qrange[0]) / n
        qs = [qrange[0] * math.exp(step * (i + 0.5)) for i in range(n)]
        with ctx.case(qs=True):
            ctx.close(torch.tensor(scan.get_qs()), torch.tensor(qs), "Q values", rtol=1e-9)
            ctx.require([round(m.q, 6) for m in scan.q_transforms] ==
                        [round(q, 6) for q in qs if q < max_q(D, sr)], "planes")
        with ctx.case(default_range=True):
            plain = wide(duration=D, sample_rate=sr, spectrogram_shape=shape, mismatch=mm, interpolation_method=mode)
            k = int(math.log(64 / 4) / math.sqrt(2) / deltam(mm)) + 1
            all_q = [4 * math.exp(math.log(64 / 4) / k * (i + 0.5)) for i in range(k)]
            ctx.close(torch.tensor(plain.get_qs()), torch.tensor(all_q), "Q values by default", rtol=1e-9)
        live = [q for q in qs if q < max_q(D, sr)]
        q0 = live[(sel * (len(live) - 1)) // 2]
        t = torch.arange(512) / sr
        for f, t0, norm, shp in itertools.product((70, 110, 150) if not thorough else (60, 80, 110, 130, 150, 170),
                                                  (0.2, 0.5, 0.83), ("median", None), ("1", "2")):
            tau = q0 / (2 * math.pi * f)
            w = torch.sin(2 * math.pi * f * (t - t0)) * torch.exp(-((t - t0) / tau) ** 2) * 4
            x = noise((512,), key=("scan", f)) * 0.3 + w
            if shp == "2":
                x = torch.stack([noise((2, 512), key="bg") * 0.3, torch.stack([x, noise((512,), key="c")])])
            for fs in (None, (55.5, 200.5), (90.5, 1000.0), (20.0, 90.5)):
                with ctx.case(f=f, t0=t0, norm=norm, shp=shp, fs=fs):
                    planes, best = [], []
                    for m, q in zip(scan.q_transforms, live):
                        ts = tiles(x, m.freqs, q, D, sr, mm, norm)
                        planes.append((m, q, ts))
                        keep = [y.max() for y, fq in zip(ts, m.freqs)
                                if fs is None or fs[0] < float(fq) <= fs[1]]
                        best.append(max(keep) if keep else -1.0)
                    if min(best) < 0:
                        continue
                    got = ctx.call(scan, x, fs, norm)
                    ctx.require(tuple(got.shape) == expect_shape(x, shape), f"shape {tuple(got.shape)}")
                    order = np.argsort(best)[::-1]
                    if best[order[0]] < best[order[1]] * (1 + 1e-3):
                        ctx.count("ambiguous_selection")
                        continue
                    m, q, ts = planes[order[0]]
                    ctx.count(f"selected_plane_{order[0]}")
                    want = torch.tensor(image(ts, m.freqs, q, D, sr, None, shape, mode))
                    ctx.close(got.reshape(want.shape), want, f"plane {order[0]}",
                              rtol=5e-4 if mode != "spline" else 2e-2)
    elif cell["k"] == "mixed":
        # a short burst, a blip in between and a long ringing in every proportion: the energy need not rise and fall
        # once across the planes
        D, sr, shape, mm = 4.0, 256, [12, 20], 0.2
        scan = wide(duration=D, sample_rate=sr, spectrogram_shape=shape, qrange=list(cell["q"]), mismatch=mm)
        t = torch.arange(1024) / sr - 2
        line = torch.exp(-((t - .8) * (2.5, 6, 1.2)[cell["line"]]) ** 2) * torch.cos(
            2 * math.pi * (60, 90, 50)[cell["line"]] * t)
        qs = [m.q for m in scan.q_transforms]
        dips = 0
        for a, b, norm in itertools.product([k / 4 for k in range(0, 14 if thorough else 12)], (0, 1), ("median", None)):
            x = 0.1 * noise((1024,), key="mixed") + line
            x = x + a * torch.exp(-((t + .5) * 60) ** 2) * torch.cos(2 * math.pi * 40 * t)
            x = x + b * 0.8 * torch.exp(-((t + 1.3) * 12) ** 2) * torch.cos(2 * math.pi * 55 * t)
            with ctx.case(q=cell["q"], line=cell["line"], burst=a, blip=b, norm=norm):
                all_ts = [tiles(x, m.freqs, q, D, sr, mm, norm) for m, q in zip(scan.q_transforms, qs)]
                tops = [max(float(y.max()) for y in ts) for ts in all_ts]
                got = ctx.call(scan, x, None, norm)
                ctx.require(tuple(got.shape) == tuple(shape), f"shape {tuple(got.shape)}")
                order = np.argsort(tops)[::-1]
                if tops[order[0]] < tops[order[1]] * (1 + 1e-3):
                    ctx.count("ambiguous_selection")
                    continue
                rises = [v > u for u, v in zip(tops, tops[1:])]
                dips += any(not p and q for p, q in zip(rises, rises[1:]))
                k = int(order[0])
                ctx.count(f"mixed_plane_{k}")
                want = torch.tensor(image(all_ts[k], scan.q_transforms[k].freqs, qs[k], D, sr, None, shape, "bicubic"))
                ctx.close(got.reshape(want.shape), want, f"plane {k} of energies {tops}", rtol=5e-4)
        ctx.count("energies_with_a_dip", dips)
    elif cell["k"] == "layout":
        m = SingleQTransform(1, 256, [12, 20], 6)
        for shp, lay, dt, sc in itertools.product(((256,), (2, 256), (2, 2, 256)), LAYOUTS, DT, (1.0, 1e-21, 100.0)):
            with ctx.case(shp=shp, layout=lay, dt=dt, sc=sc):
                x = relayout(noise(shp, DT[dt], "lay", sc), lay)
                got = ctx.call(m, x)
                ts = tiles(x, m.freqs, 6, 1, 256, 0.2, "median")
                want = torch.tensor(image(ts, m.freqs, 6, 1, 256, None, [12, 20], "bicubic"))
                ctx.close(got.reshape(want.shape), want, "image", rtol=5e-4)
    elif cell["k"] == "hist":
        menu = [noise((256,), key=0), noise((3, 2, 256), key=1), noise((1, 2, 256), key=2) * 5]
        ops = list(itertools.product(range(3), ("median", None)))
        for kind in ("bicubic", "spline", "scan"):
            def make():
                if kind == "scan":
                    return wide(duration=1, sample_rate=256, spectrogram_shape=[8, 12], qrange=[4, 12])
                return SingleQTransform(1, 256, [8, 12], 6, interpolation_method=kind, mismatch=0.1)
            fresh = {o: make()(menu[o[0]], norm=o[1]) for o in ops}
            m = make()
            for seq in itertools.product(ops, repeat=3 if kind != "scan" else 2):
                with ctx.case(kind=kind, seq=seq):
                    for o in seq:
                        got = ctx.call(m, menu[o[0]], norm=o[1])
                        ctx.close(got, fresh[o], f"call {o}", rtol=1e-4)
        with ctx.case(shared=True):
            # one range object given to several transforms of different Q
            fr = [0, math.inf]
            for q in (5, 9, 4):
                m = SingleQTransform(1, 512, [8, 8], q, fr)
                check_freqs(ctx, m.freqs, q, 1, 512, None, 0.2)
            ctx.require(fr == [0, math.inf], "the caller's frequency range changed")
    elif cell["k"] == "range":
        m = SingleQTransform(1, 512, [8, 8], 6)
        x = noise((2, 2, 512), key="rng")
        m.compute_qtiles(x, "median")
        mx = np.array([t.max() for t in tiles(x, m.freqs, 6, 1, 512, 0.2, "median")])
        fq = [float(f) for f in m.freqs]
        edges = [fq[0] - 0.5] + [(a + b) / 2 for a, b in zip(fq, fq[1:])] + [fq[-1] + 0.5, 5000.0]
        for i, j in itertools.combinations(range(len(edges)), 2):
            keep = [k for k, f in enumerate(fq) if edges[i] < f < edges[j]]
            if not keep:
                continue
            with ctx.case(lo=edges[i], hi=edges[j]):
                ctx.close(m.get_max_energy((edges[i], edges[j])), torch.tensor(mx[keep].max()), "max energy",
                          rtol=2e-4)
        with ctx.case(dim="bad"):
            ctx.raises(ValueError, m.get_max_energy, None, "time")
    else:
        for shp, D, sr in (((129, 2, 256), 1, 256), ((2, 4096), 2, 2048), ((1, 4096), 4, 1024)):
            with ctx.case(shp=shp):
                m = SingleQTransform(D, sr, [16, 40], 12 if shp[-1] > 256 else 6)
                q = m.q
                x = noise(shp, key="big")
                got = ctx.call(m, x)
                ts = tiles(x, m.freqs, q, D, sr, 0.2, "median")
                want = torch.tensor(image(ts, m.freqs, q, D, sr, None, [16, 40], "bicubic"))
                ctx.close(got.reshape(want.shape), want, "image", rtol=5e-4)
