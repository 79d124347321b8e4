"""P28: frequency-domain approximants against LAL, per frequency and per source."""
import itertools
import math

import lal
import lalsimulation as ls
import numpy as np
import torch
from ml4gw.waveforms import IMRPhenomD, IMRPhenomPv2, TaylorF2

PI = math.pi
BOUNDS = ("chirp mass x mass ratio x spins x inclination x phase x reference frequency grids "
          "(TaylorF2, PhenomD: 4x5x6x5x3x3; PhenomPv2: 3x5x10x5x3x2) at up to 2000 frequencies each, pointwise "
          "against LAL; every contiguous split, stride-2 subset, reversal and rotation of a frequency grid; "
          "all permutations of 4 sources; 800 masses for finiteness at every degenerate configuration")
ASSUMPTIONS = ("LAL (lalsimulation) is the reference. PhenomD/Pv2 are compared below Mf = 0.199, where LAL "
               "cuts the model off. In-plane spins are 0 or at least 1e-4: between, LAL's own azimuth is rounding.")

CLS = dict(TaylorF2=TaylorF2, IMRPhenomD=IMRPhenomD, IMRPhenomPv2=IMRPhenomPv2)
RTOL = dict(TaylorF2=3e-5, IMRPhenomD=1e-2, IMRPhenomPv2=1e-2)  # Pv2: 6e-2 at extreme mass ratio
MC = (1.2, 8.0, 25.0, 60.0)
Q = (1.0, 0.99, 0.5, 0.1, 0.056)
INC = (0.0, 0.6, PI / 2, 2.5, PI)
ALIGNED = ((0.0, 0.0), (0.5, -0.3), (0.99, 0.99), (-0.99, -0.99), (0.0, 0.9), (-0.7, 0.4))
PREC = (((.99, 0, 0), (0, 0, 0)), ((.5, .5, 0), (0, 0, 0)), ((.8, 0, -.4), (0, 0, -.4)),
        ((.3, -.2, .4), (.1, .5, -.2)), ((0, 0, .5), (0, 0, -.3)), ((0, 0, 0), (0, 0, 0)),
        ((0, .3, .1), (.6, 0, .2)), ((0, 0, 0), (.7, 0, 0)), ((-.4, -.4, -.7), (0, 0, .9)),
        ((1e-4, 0, .3), (0, 0, .1)))


def cells(tier):
    th = tier == "thorough"
    out = []
    for name in CLS:
        mcs = (MC if name != "IMRPhenomPv2" or th else MC[1:]) + ((3.0, 16.0, 40.0) if th else ())
        frs = (20.0, 50.0) if name == "IMRPhenomPv2" and not th else (15.0, 20.0, 50.0)
        for mc, fr in itertools.product(mcs, frs):
            if name == "IMRPhenomPv2":
                out += [dict(k="lal", n=name, mc=mc, fr=fr, q=q) for q in Q]
            else:
                out.append(dict(k="lal", n=name, mc=mc, fr=fr, q=None))
        out += [dict(k=k, n=name) for k in ("grid", "batch", "scaling", "invalid", "history")]
        out += [dict(k="degenerate", n=name, q=q, i=i, m=4000 if th else 800) for q in (1.0, 0.3) for i in range(4)]
    return out


def lalwf(name, m1, m2, s1, s2, d, inc, ph, f_ref, df, fmin, fmax):
    hp, hc = ls.SimInspiralChooseFDWaveform(
        m1=m1 * lal.MSUN_SI, m2=m2 * lal.MSUN_SI, S1x=s1[0], S1y=s1[1], S1z=s1[2], S2x=s2[0],
        S2y=s2[1], S2z=s2[2], distance=d * 1e6 * lal.PC_SI, inclination=inc, phiRef=ph,
        longAscNodes=0.0, eccentricity=0.0, meanPerAno=0.0, deltaF=df, f_min=fmin, f_max=fmax,
        f_ref=f_ref, LALpars=lal.CreateDict(), approximant=getattr(ls, name))
    n = len(hp.data.data)
    return np.arange(n) * df, np.array(hp.data.data), np.array(hc.data.data)


def comp_ref(mc, q):
    m1 = mc * (1 + q) ** 0.2 / q ** 0.6
    return m1, m1 * q


def pack(rows, dtype=torch.float64):
    """rows of (mc, q, s1, s2, dist, phic, inc) -> keyword tensors."""
    a = np.array([[r[0], r[1], *r[2], *r[3], r[4], r[5], r[6]] for r in rows], dtype=float).reshape(len(rows), 11)
    return [torch.tensor(np.ascontiguousarray(c), dtype=dtype) for c in a.T]


def evaluate(ctx, name, f, rows, f_ref, dtype=torch.float64, **kw):
    mc, q, s1x, s1y, s1z, s2x, s2y, s2z, d, ph, inc = pack(rows, dtype)
    f = torch.as_tensor(f, dtype=dtype)
    with torch.no_grad():
        if name == "IMRPhenomPv2":
            hc, hp = ctx.call(CLS[name](), f, mc, q, s1x, s1y, s1z, s2x, s2y, s2z, d, ph, inc, f_ref, **kw)
        else:
            hc, hp = ctx.call(CLS[name](), f, mc, q, s1z, s2z, d, ph, inc, f_ref)
    ctx.require(tuple(hp.shape) == tuple(hc.shape) == (len(rows), len(f)), "one row per source, one value per frequency")
    return hc, hp


def sources(name):
    spins = PREC if name == "IMRPhenomPv2" else [((0, 0, a), (0, 0, b)) for a, b in ALIGNED]
    out = [(s, inc, ph) for s in spins for inc in INC for ph in (0.0, 1.3, 4.0) if not ph or inc in (0.6, PI)]
    return out


def run_lal(ctx, c):
    name, mc, fr = c["n"], c["mc"], c["fr"]
    df = 0.5 if mc < 50 else 1.0
    for q in (Q if c["q"] is None else (c["q"],)):
        rows = [(mc, q, s[0], s[1], 100.0, ph, inc) for s, inc, ph in sources(name)]
        m1, m2 = comp_ref(mc, q)
        refs = []
        for r in rows:
            f, hp, hc = lalwf(name, m1, m2, r[2], r[3], 100.0, r[6], r[5], fr, df, 10.0, 1024.0)
            refs.append((hp, hc))
        k = (f >= 10) & (f <= 1023)
        if name != "TaylorF2":
            k &= (m1 + m2) * lal.MTSUN_SI * f < 0.199
        with ctx.case(q=q, what="LAL"):
            gc, gp = evaluate(ctx, name, f[k], rows, fr)
        for i, (r, (hp, hc)) in enumerate(zip(rows, refs)):
            with ctx.case(q=q, s1=r[2], s2=r[3], phic=r[5], inc=r[6]):
                hp, hc = hp[k], hc[k]
                sc = np.sqrt(abs(hp) ** 2 + abs(hc) ** 2)
                nz = sc > 0
                ctx.require(nz.any(), "LAL reference is not empty")
                e = np.sqrt(np.abs(gp[i].numpy() - hp) ** 2 + np.abs(gc[i].numpy() - hc) ** 2)[nz] / sc[nz]
                ctx.require(np.isfinite(e).all(), f"{name} is finite")
                ctx.step(len(e))
                tol = RTOL[name] * (6 if name == "IMRPhenomPv2" and q <= 0.1 else 1)
                j = int(e.argmax())
                ctx.require(e[j] <= tol, f"{name} agrees with LAL at f={f[k][nz][j]}: relative error "
                            f"{e[j]:.3g} > {tol:.3g}")


def menu(name):
    sp = (PREC[3], PREC[2], PREC[4], PREC[6]) if name == "IMRPhenomPv2" else (
        ((0, 0, .5), (0, 0, -.3)), ((0, 0, .0), (0, 0, .0)), ((0, 0, .9), (0, 0, .2)), ((0, 0, -.4), (0, 0, .7)))
    par = ((25.0, 0.5, 100.0, 0.3, 0.6), (8.0, 1.0, 400.0, 1.3, 0.0), (60.0, 0.1, 50.0, 4.0, 2.5),
           (1.4, 0.9, 40.0, 0.0, PI / 2))
    return [(p[0], p[1], s[0], s[1], p[2], p[3], p[4]) for p, s in zip(par, sp)]


def check_same(ctx, got, want, what, tol=1e-9):
    for g, w, pol in zip(got, want, ("cross", "plus")):
        for i in range(len(g)):
            ctx.close(g[i], w[i], f"{what} ({pol}, source {i})", rtol=tol)


def run_grid(ctx, c):
    """The value at a frequency does not depend on the other frequencies requested."""
    name = c["n"]
    rows = menu(name)
    for dtype, tol in ((torch.float64, 1e-9), (torch.float32, 2e-2)):
        f = torch.arange(20.0, 320.0, 4.0, dtype=dtype)
        n = len(f)
        with ctx.case(what="whole", dtype=dtype):
            whole = evaluate(ctx, name, f, rows, 20.0, dtype)
        subs = [("head%d" % i, list(range(i))) for i in range(1, n, 7)]
        subs += [("tail%d" % i, list(range(i, n))) for i in range(1, n, 7)]
        subs += [("stride2", list(range(0, n, 2))), ("reverse", list(range(n))[::-1]),
                 ("rotate", list(range(n // 2, n)) + list(range(n // 2))), ("repeat", [3, 3, 3, 40, 40])]
        subs += [("single%d" % i, [i]) for i in (0, 1, n // 2, n - 1)]
        for lab, idx in subs:
            with ctx.case(what=lab, dtype=dtype):
                part = evaluate(ctx, name, f[idx], rows, 20.0, dtype)
                check_same(ctx, part, [w[:, idx] for w in whole], f"value on the {lab} sub-grid", tol)


def run_batch(ctx, c):
    """Each source's waveform is what it would be alone."""
    name = c["n"]
    rows = menu(name)
    f = torch.arange(20.0, 320.0, 3.0, dtype=torch.float64)
    with ctx.case(what="alone"):
        alone = [evaluate(ctx, name, f, [r], 20.0) for r in rows]
    for k in range(1, 5):
        for perm in itertools.permutations(range(4), k):
            with ctx.case(what="batch", perm=perm):
                got = evaluate(ctx, name, f, [rows[i] for i in perm], 20.0)
                check_same(ctx, got, [torch.cat([alone[i][p] for i in perm]) for p in (0, 1)], "source in batch")
    with ctx.case(what="large batch"):
        rep = 33
        got = evaluate(ctx, name, f, rows * rep, 20.0)
        check_same(ctx, got, [torch.cat([alone[i][p] for i in range(4)] * rep) for p in (0, 1)], "large batch")
    # as many sources as frequencies, and one of each: the axes must not be confused
    for n in (1, 2, 3, 4):
        with ctx.case(what="square", n=n):
            got = evaluate(ctx, name, f[:n], rows[:n], 20.0)
            check_same(ctx, got, [torch.cat([alone[i][p] for i in range(n)])[:, :n] for p in (0, 1)], "square")


def run_scaling(ctx, c):
    name = c["n"]
    f = torch.arange(20.0, 320.0, 5.0, dtype=torch.float64)
    for r in menu(name):
        with ctx.case(what="distance", row=r):
            ds = (1.0, 10.0, 250.0, 4000.0, 1e6)
            base = evaluate(ctx, name, f, [(*r[:4], 1.0, *r[5:])], 20.0)
            got = evaluate(ctx, name, f, [(*r[:4], d, *r[5:]) for d in ds], 20.0)
            for i, d in enumerate(ds):
                check_same(ctx, [g[i:i + 1] * d for g in got], base, f"amplitude times distance {d}")
        aligned = all(abs(x) < 1e-12 for x in (*r[2][:2], *r[3][:2]))
        if aligned:
            with ctx.case(what="inclination", row=r):
                incs = (0.0, 0.3, 1.0, PI / 2, 2.0, 3.0, PI)
                hc, hp = evaluate(ctx, name, f, [(*r[:6], i) for i in incs], 20.0)
                h = hp[0]  # face-on: plus polarization is the whole amplitude
                for j, i in enumerate(incs):
                    ci = math.cos(i)
                    sc = h.abs().max()
                    ctx.require((hp[j] - 0.5 * (1 + ci * ci) * h).abs().max() < 1e-7 * sc, f"plus factor at {i}")
                    ctx.require((hc[j] + 1j * ci * h).abs().max() < 1e-7 * sc, f"cross factor at {i}")
            with ctx.case(what="phase", row=r):
                phs = (0.0, 0.5, PI / 2, PI, 4.0, 2 * PI)
                got = evaluate(ctx, name, f, [(*r[:5], p, r[6]) for p in phs], 20.0)
                for j, p in enumerate(phs):
                    rot = complex(math.cos(2 * p), math.sin(2 * p))
                    check_same(ctx, [g[j:j + 1] for g in got], [g[:1] * rot for g in got],
                               f"phase rotates by twice {p}", 1e-7)
    if name == "TaylorF2":
        for r in menu(name):
            with ctx.case(what="exchange", row=r):
                a = evaluate(ctx, name, f, [r], 20.0)
                b = evaluate(ctx, name, f, [(r[0], 1 / r[1], r[3], r[2], *r[4:])], 20.0)
                check_same(ctx, b, a, "exchanging the two bodies", 1e-8)


def run_degenerate(ctx, c):
    """Finite and continuous at equal masses, aligned spins and face-on/edge-on sources."""
    name = c["n"]
    f = torch.tensor([20.0, 100.0, 300.0], dtype=torch.float64)
    mcs = np.linspace(3, 80, c["m"])
    for dtype, (s, inc, q) in itertools.product((torch.float64, torch.float32), itertools.product(
            (((0, 0, 0), (0, 0, 0)), ((0, 0, .6), (0, 0, -.2)), ((0, 0, 1.), (0, 0, 1.)), ((1., 0, 0), (0, 1., 0)))[c["i"]:c["i"] + 1],
            (0.0, 0.7, PI), (c["q"],))):
        if dtype == torch.float32 and inc == 0.7:
            continue
        with ctx.case(what="finite", dtype=dtype, s=s, inc=inc, q=q):
            if name == "IMRPhenomPv2" or s[0][2] or s[0] == (0, 0, 0):
                hc, hp = evaluate(ctx, name, f, [(m, q, *s, 100.0, 0.3, inc) for m in mcs], 20.0, dtype)
                ok = torch.isfinite(hp.abs()) & torch.isfinite(hc.abs())
                ctx.require(ok.all(), f"finite for every chirp mass: {int((~ok).sum())} of {ok.numel()} are not")
    if c["q"] != 1 or c["i"]:
        return
    for s in (((0, 0, 0), (0, 0, 0)), ((0, 0, .6), (0, 0, -.2))):
        for r in menu(name):
            with ctx.case(what="continuous", s=s, row=r):
                got = evaluate(ctx, name, f, [(r[0], q, *s, *r[4:]) for q in (1.0, 1 - 1e-9)], 20.0)
                check_same(ctx, [g[1:] for g in got], [g[:1] for g in got], "limit of equal masses", 1e-3)


def run_invalid(ctx, c):
    name = c["n"]
    if name == "IMRPhenomPv2":
        return
    f = torch.arange(20.0, 100.0, dtype=torch.float64)
    mc, q, _, _, s1z, _, _, s2z, d, ph, inc = pack(menu(name)[:3])
    good = [mc, q, s1z, s2z, d, ph, inc]
    for i in range(7):
        for sub in (1, 2):
            with ctx.case(what="mismatch", arg=i, n=sub):
                args = [a[:sub] if j == i else a for j, a in enumerate(good)]
                ctx.raises(ValueError, CLS[name](), f, *args, 20.0)


def run_history(ctx, c):
    """One object used for different frequencies and sources in turn."""
    name = c["n"]
    rows = menu(name)
    grids = (torch.arange(20.0, 320.0, 3.0, dtype=torch.float64), torch.arange(30.0, 130.0, 1.0, dtype=torch.float64))
    uses = [(g, rs, fr) for g in (0, 1) for rs in ((0, 1, 2, 3), (2,)) for fr in (20.0, 50.0)]

    def one(model, u):
        g, rs, fr = uses[u]
        mc, q, s1x, s1y, s1z, s2x, s2y, s2z, d, ph, inc = pack([rows[i] for i in rs])
        a = (s1x, s1y, s1z, s2x, s2y, s2z) if name == "IMRPhenomPv2" else (s1z, s2z)
        with torch.no_grad():
            return ctx.call(model, grids[g], mc, q, *a, d, ph, inc, fr)

    with ctx.case(what="fresh"):
        fresh = [one(CLS[name](), u) for u in range(len(uses))]
    for seq in itertools.product(range(len(uses)), repeat=2):
        with ctx.case(what="sequence", seq=seq):
            m = CLS[name]()
            for u in seq:
                check_same(ctx, one(m, u), fresh[u], f"use {u} of {seq}", 1e-12)


def run_cell(c, ctx):
    globals()["run_" + c["k"]](ctx, c)
