"""P20: spline interpolation equals the tensor-product B-spline of the stated knots."""
import itertools

import numpy as np
import torch
from mc.data import LAYOUTS, lookalikes, noise, relayout, unif
from ml4gw.transforms import SplineInterpolate1D, SplineInterpolate2D
from scipy.interpolate import BSpline

BOUNDS = ("degrees 1..5, every grid size from degree+2 to degree+6 plus 12, 25 (thorough 64); uniform, "
          "offset, scaled, non-uniform and integer grids; regularisation 0 and positive; outputs on the "
          "nodes, between, outside, unsorted, single point; 1-4 dimensional data; every history of up to "
          "three calls over {default, override A, override B, partial overrides}; overrides that agree in length, ends, sum or identity")
EPS = 1.2e-7


def grid(kind, n):
    i = np.arange(n, dtype=np.float64)
    g = dict(unif=i / 4, offset=100 + i / 2, fine=i / 1024, neg=-3 + i * 0.75,
             square=(i + 3) ** 2 / 8, jitter=i + 0.375 * (i % 2) + 0.125 * (i % 3), int=3 * i)[kind]
    return g.astype(np.float32).astype(np.float64)


GRIDS = ("unif", "offset", "fine", "neg", "square", "jitter", "int")


def knots(x, k):
    inner = [x[1 + j:1 + j + k].mean() for j in range(len(x) - k - 1)]
    return np.r_[[x[0]] * (k + 1), inner, [x[-1]] * (k + 1)]


def basis(x, k, t):
    """Every basis function by scipy, one at a time; the last interval is closed."""
    x = np.clip(np.asarray(x, dtype=np.float64), t[k], t[-k - 1])
    n = len(t) - k - 1
    return np.stack([BSpline(t, np.eye(n)[j], k, extrapolate=True)(x) for j in range(n)], -1)


def fit1(x, k, s):
    t = knots(x, k)
    B = basis(x, k, t)
    M = B.T @ B + s * np.eye(B.shape[1])
    return t, np.linalg.solve(M, B.T), np.linalg.cond(M)


def outs(x):
    mid = (x[1:] + x[:-1]) / 2
    return dict(nodes=x, mid=mid, mixed=np.r_[x[-1] + 1, x[0] - 2, mid[::-1], x[:2]],
                one=x[1:2] * 0.25 + x[2:3] * 0.75,
                dense=np.linspace(x[0], x[-1], 41).astype(np.float32).astype(np.float64))


def cells(tier):
    out = []
    for k in (1, 2, 3, 4, 5):
        out.append(dict(k="1d", deg=k))
    for kx, ky in itertools.product((1, 2, 3, 4), repeat=2):
        out.append(dict(k="2d", kx=kx, ky=ky))
    if tier != "quick":
        out += [dict(k="2d", kx=5, ky=3), dict(k="2d", kx=3, ky=5)]
    return out + [dict(k="hist1"), dict(k="hist2"), dict(k="shape"), dict(k="big")]


def alike(ctx, build, run, base):
    """Output grids that agree in length, ends, sum or identity are told apart: all histories of three overrides."""
    menu = dict([("base", base), *lookalikes(base)])
    fresh = {n: run(build(base), o.clone()) for n, o in menu.items()}
    for hist in itertools.product(menu, repeat=3):
        for refill in (False, True):
            with ctx.case(alike=hist, refill=refill):
                m, mine = build(base), base.clone()
                for n in hist:
                    mine = mine.copy_(menu[n]) if refill else menu[n].clone()
                    ctx.close(ctx.call(run, m, mine, keep=False), fresh[n], f"override {n}", rtol=2e-6)


def tt(a):
    return torch.tensor(np.asarray(a)).float()


def run_cell(cell, ctx):
    thorough = ctx.tier != "quick"
    if cell["k"] == "1d":
        k = cell["deg"]
        ns = [k + 2, k + 3, k + 4, k + 5, k + 6, 12, 25] + ([40, 64] if thorough else [])
        for n, g, s in itertools.product(ns, GRIDS, (0.0, 0.01, 1.0)):
            x = grid(g, n)
            t, A, cond = fit1(x, k, s)
            if cond > 1e4:
                ctx.count("ill_conditioned_skipped")
                continue
            Z = noise((3, n), key=("z", n))
            for on, xo in outs(x).items():
                with ctx.case(n=n, grid=g, s=s, out=on):
                    W = basis(xo, k, t) @ A
                    want = Z.double() @ tt(W).double().T if False else torch.tensor(Z.double().numpy() @ W.T)
                    tol = 40 * EPS * cond * n ** 0.5 + (3e-5 if g == "offset" else 2e-6)
                    for where in ("init", "call"):
                        xi = torch.tensor(x).to(torch.int64) if g == "int" else tt(x)
                        m = SplineInterpolate1D(xi, k, s, tt(xo) if where == "init" else None)
                        got = ctx.call(m, Z) if where == "init" else ctx.call(m, Z, tt(xo))
                        ctx.require(tuple(got.shape) == (1, 1, 3, len(xo)), f"shape {tuple(got.shape)}")
                        ctx.close(got[0, 0], want, f"spline ({where})", rtol=tol)
                    if on == "nodes" and s == 0:
                        ctx.close(got[0, 0], Z, "data nodes", rtol=tol)
        for n in range(0, k + 2):
            with ctx.case(short=n):
                ctx.raises(ValueError, SplineInterpolate1D, torch.arange(float(n)), k)
    elif cell["k"] == "2d":
        kx, ky = cell["kx"], cell["ky"]
        for (nx, gx), (ny, gy), (sx, sy) in itertools.product(
                ((kx + 2, "unif"), (kx + 3, "jitter"), (11, "square"), (10, "neg")),
                ((ky + 2, "jitter"), (ky + 4, "unif"), (9, "offset")),
                ((0.0, 0.0), (0.01, 0.0), (0.0, 0.5), (0.2, 0.03))):
            x, y = grid(gx, nx), grid(gy, ny)
            tx, Ax, cx = fit1(x, kx, sx)
            ty, Ay, cy = fit1(y, ky, sy)
            if cx > 1e4 or cy > 1e4:
                ctx.count("ill_conditioned_skipped")
                continue
            Z = noise((2, ny, nx), key=("z2", nx, ny))
            for ox, oy in (("nodes", "nodes"), ("mid", "dense"), ("mixed", "one"), ("one", "mixed")):
                xo, yo = outs(x)[ox], outs(y)[oy]
                with ctx.case(nx=nx, ny=ny, gx=gx, gy=gy, sx=sx, sy=sy, ox=ox, oy=oy):
                    Wx, Wy = basis(xo, kx, tx) @ Ax, basis(yo, ky, ty) @ Ay
                    want = torch.tensor(np.einsum("oi,bij,pj->bop", Wy, Z.double().numpy(), Wx))
                    tol = 40 * EPS * (cx * nx ** .5 + cy * ny ** .5) + (3e-5 if "offset" in (gx, gy) else 4e-6)
                    m = SplineInterpolate2D(tt(x), tt(y), kx, ky, sx, sy, tt(xo), tt(yo))
                    ctx.close(ctx.call(m, Z)[0], want, "surface (init)", rtol=tol)
                    m = SplineInterpolate2D(tt(x), tt(y), kx, ky, sx, sy)
                    ctx.close(ctx.call(m, Z, tt(xo), tt(yo))[0], want, "surface (call)", rtol=tol)
                    m = SplineInterpolate2D(tt(x), tt(y), kx, ky, sx, sy, y_out=tt(yo))
                    ctx.close(ctx.call(m, Z, x_out=tt(xo))[0], want, "surface (mixed)", rtol=tol)
    elif cell["k"] == "hist1":
        x = grid("jitter", 9)
        A, Bv = tt(outs(x)["mid"]), tt(outs(x)["dense"])
        C = tt(outs(x)["mid"][::-1].copy())  # same length as A
        menu = dict(default=None, A=A, B=Bv, C=C)
        alike(ctx, lambda o: SplineInterpolate1D(tt(x), 3, 0.0, o), lambda m, o: m(noise((2, 9), key="al"), o),
              tt(outs(x)["dense"]))
        Z = noise((2, 3, 1, 9), key="h1")
        fresh = {n: SplineInterpolate1D(tt(x), 3, 0.0, C if o is None else o)(Z) for n, o in menu.items()}
        depth = 4 if thorough else 3
        for init in (None, "C"):
            names = [n for n in menu if not (init is None and n == "default")]
            for d in range(1, depth + 1):
                for seq in itertools.product(names, repeat=d):
                    with ctx.case(init=init, seq=seq):
                        m = SplineInterpolate1D(tt(x), 3, 0.0, C if init else None)
                        for op in seq:
                            o = menu[op]
                            got = ctx.call(m, Z) if o is None else ctx.call(m, Z, x_out=o)
                            ctx.close(got, fresh[op], f"call {op}", rtol=2e-6)
                        if init is None:
                            ctx.raises(ValueError, m, Z)
    elif cell["k"] == "hist2":
        x, y = grid("jitter", 7), grid("unif", 6)
        X = dict(d=tt(outs(x)["mid"]), A=tt(outs(x)["mid"][::-1].copy()), B=tt(outs(x)["dense"]))
        Y = dict(d=tt(outs(y)["mid"]), A=tt(outs(y)["mid"][::-1].copy()))
        Z = noise((2, 6, 7), key="h2")
        Z = noise((2, 6, 7), key="h2")
        for fixed in (True, False):
            yo = Y["d"] if fixed else Y["A"]
            alike(ctx, lambda o: SplineInterpolate2D(tt(x), tt(y), x_out=o, y_out=Y["d"]),
                  lambda m, o: m(Z, x_out=o) if fixed else m(Z, o, yo), X["B"])
            alike(ctx, lambda o: SplineInterpolate2D(tt(x), tt(y), x_out=X["d"], y_out=o),
                  lambda m, o: m(Z, y_out=o) if fixed else m(Z, X["A"], o), tt(outs(y)["dense"]))
        ops = list(itertools.product(X, Y))
        fresh = {o: SplineInterpolate2D(tt(x), tt(y), x_out=X[o[0]], y_out=Y[o[1]])(Z) for o in ops}
        for d in (1, 2, 3):
            for seq in itertools.product(ops, repeat=d):
                with ctx.case(seq=seq):
                    m = SplineInterpolate2D(tt(x), tt(y), x_out=X["d"], y_out=Y["d"])
                    for o in seq:
                        kw = {}
                        if o[0] != "d":
                            kw["x_out"] = X[o[0]]
                        if o[1] != "d":
                            kw["y_out"] = Y[o[1]]
                        ctx.close(ctx.call(m, Z, **kw), fresh[o], f"call {o}", rtol=2e-6)
        for have in ("x", "y", ""):
            with ctx.case(missing=have):
                m = SplineInterpolate2D(tt(x), tt(y), **({f"{have}_out": X["d"] if have == "x" else Y["d"]}
                                                         if have else {}))
                ctx.raises(ValueError, m, Z)
    elif cell["k"] == "shape":
        x, y = grid("unif", 7), grid("jitter", 6)
        xo, yo = tt(outs(x)["mid"]), tt(outs(y)["dense"])
        m1, m2 = SplineInterpolate1D(tt(x), x_out=xo), SplineInterpolate2D(tt(x), tt(y), x_out=xo, y_out=yo)
        for lead, lay in itertools.product(((), (2,), (3, 2), (1, 3), (129, 1)), LAYOUTS):
            with ctx.case(lead=lead, layout=lay):
                Z = relayout(noise(lead + (6, 7), key="sh"), lay)
                g1, g2 = ctx.call(m1, Z), ctx.call(m2, Z)
                full = (1,) * (2 - len(lead)) + lead
                ctx.require(tuple(g1.shape) == full + (6, 6), f"1d shape {tuple(g1.shape)}")
                ctx.require(tuple(g2.shape) == full + (41, 6), f"2d shape {tuple(g2.shape)}")
                flat = Z.reshape(-1, 6, 7)
                for i in range(len(flat)):
                    ctx.close(g1.reshape(-1, 6, 6)[i], m1(flat[i])[0, 0], f"1d element {i}", rtol=1e-5)
                    ctx.close(g2.reshape(-1, 41, 6)[i], m2(flat[i])[0, 0], f"2d element {i}", rtol=1e-5)
        for shp in ((7,), (3, 7)):
            with ctx.case(shp=shp):
                Z = noise(shp, key="s1")
                ctx.close(ctx.call(m1, Z).reshape(-1, 6), m1(Z.reshape(1, 1, -1, 7)).reshape(-1, 6), "1d", rtol=1e-6)
        with ctx.case(invalid=True):
            ctx.raises(ValueError, m1, noise((3, 6)))
            ctx.raises(ValueError, m1, noise((1, 1, 1, 1, 7)))
            ctx.raises(ValueError, m2, noise((7,)))
            ctx.raises(ValueError, m2, noise((7, 6)))
            ctx.raises(ValueError, m2, noise((1, 1, 1, 6, 7)))
            ctx.raises(ValueError, SplineInterpolate2D, torch.arange(4.0), torch.arange(9.0))
            ctx.raises(ValueError, SplineInterpolate2D, torch.arange(9.0), torch.arange(4.0))
    else:
        for n, k in ((200, 3), (129, 1), (130, 2)):
            x = grid("unif", n)
            t, A, cond = fit1(x, k, 0.0)
            xo = np.linspace(x[0], x[-1], 1001).astype(np.float32).astype(np.float64)
            with ctx.case(n=n, k=k):
                Z = unif((5, n), -1, 1, key="big")
                got = ctx.call(SplineInterpolate1D(tt(x), k, 0.0, tt(xo)), Z)[0, 0]
                want = torch.tensor(Z.double().numpy() @ (basis(xo, k, t) @ A).T)
                ctx.close(got, want, "spline", rtol=40 * EPS * cond * n ** .5 + 3e-5)
