"""P25: distributions sample by exact inverse CDF; densities are normalised."""
import itertools
import math

import numpy as np
import torch
from mc.data import DT
from mc.rng import patterned
from ml4gw import distributions as D
from scipy.special import ndtri

BOUNDS = ("every draw on a grid of 67 uniform answers incl. 0, 2^-24, 1-2^-24; every distribution over a "
          "grid of parameters; densities on 401 points across the support and outside it, integrated "
          "numerically; scalar, 1-d and 2-d sample shapes; python and tensor parameters")
U = tuple([0.0, 2.0**-24, 1e-6, 1e-4] + [i / 60 for i in range(1, 60)] + [1 - 2.0**-10, 1 - 2.0**-20, 1 - 2.0**-23,
                                                                       1 - 2.0**-24])
U = tuple(float(np.float32(u)) for u in U)
C_KM = 299792.458


def cells(tier):
    out = [dict(k=k) for k in ("cosine", "sine", "loguniform", "powerlaw", "lognormal", "delta", "invalid")]
    out += [dict(k="coarse", rate=r) for r in (None, "inv", "madau")]
    out += [dict(k="comoving", kind=t, rate=r) for t in ("redshift", "comoving_distance", "luminosity_distance")
            for r in (None, "inv", "madau")]
    return out


def draw(ctx, dist, shape):
    ctx.step()
    ch, x = patterned(lambda ch: dist.sample(torch.Size(shape)), "ramp", U)
    n = int(np.prod(shape)) if shape else 1
    ctx.require(tuple(x.shape) == tuple(shape), f"sample shape {tuple(x.shape)} for {shape}")
    ctx.require(len(ch.taken) == n, f"{len(ch.taken)} draws for {n} samples")
    return x.reshape(-1).double().numpy(), np.array([U[c] for c in ch.taken])


def samples(ctx, dist, quantile, lo, hi, tol, slope=None, decreasing=False):
    """Each sample is the quantile of its own draw (or of one minus it)."""
    for shape in ((), (1,), (len(U),), (5, 20), (2, 3, 4)):
        x, u = draw(ctx, dist, shape)
        ctx.require(np.isfinite(x).all(), f"sample is not finite: {x[~np.isfinite(x)][:1]} at draw "
                    f"{u[~np.isfinite(x)][:1]}")
        span = 1e-5 * max(abs(lo), abs(hi) if np.isfinite(hi) else abs(x).max())
        ctx.require((x >= lo - span).all() and (x <= hi + span).all(),
                    f"sample outside [{lo}, {hi}]: {x.min()}..{x.max()}")
        best = None
        for v in (u, 1 - u):
            w = quantile(v)
            # rounding of the draw's image: a draw is known to a few 2^-24
            w0, w1 = quantile(np.clip(v - 4e-7, 0, 1)), quantile(np.clip(v + 4e-7, 0, 1))
            lim = tol * np.abs(w) + np.maximum(np.abs(w1 - w), np.abs(w0 - w)) + 1e-7 * span
            lim = lim if np.ndim(slope) == 0 and slope is None else lim + slope
            with np.errstate(all="ignore"):
                bad = ~((np.abs(x - w) <= lim) | (w == x))
            if best is None or bad.sum() < best[0]:
                best = (bad.sum(), x[bad][:1], w[bad][:1], v[bad][:1])
        ctx.require(best[0] == 0, f"{best[0]} samples are not the quantile of their draw: got {best[1]} "
                    f"expected {best[2]} at {best[3]}")


def density(ctx, dist, logpdf, xs, out, tol, dtype=torch.float32, norm_tol=2e-3, mass=1.0):
    t = torch.tensor(xs).to(dtype)
    got = ctx.call(dist.log_prob, t)
    want = logpdf(t.double().numpy())
    ctx.close(got, torch.tensor(want), "log density", rtol=0, atol=tol)
    total = np.trapezoid(got.double().exp().numpy(), t.double().numpy())
    ctx.require(abs(total - mass) < norm_tol, f"density integrates to {total}, not {mass}")
    for v in out:
        try:
            r = dist.log_prob(torch.tensor([float(v)]))
        except ValueError:
            continue
        ctx.require(bool((r == -math.inf).all()), f"log density at {v} outside the support is {r.item()}")


def run_cell(cell, ctx):
    k = cell["k"]
    if k in ("cosine", "sine"):
        shift = 0.0 if k == "cosine" else math.pi / 2
        cls = D.Cosine if k == "cosine" else D.Sine
        edges = [-math.pi / 2, -1.2, -0.5, 0.0, 0.3, 1.0, math.pi / 2]
        for (lo, hi), arg in itertools.product(itertools.combinations(edges, 2), ("py", "t", "default")):
            if arg == "default" and (lo, hi) != (edges[0], edges[-1]):
                continue
            with ctx.case(lo=lo, hi=hi, arg=arg):
                a = (lo + shift, hi + shift)
                d = cls() if arg == "default" else cls(*map(torch.tensor, a)) if arg == "t" else cls(*a)
                S = math.sin(hi) - math.sin(lo)

                def q(u):
                    return np.arcsin(np.clip(u * S + math.sin(lo), -1, 1)) + shift

                # arcsin is only known to sqrt(eps) next to its ends
                samples(ctx, d, q, a[0], a[1], 4e-6, slope=2e-6 + 6e-8 / np.maximum(
                    np.sqrt(np.maximum(1 - np.sin(lo) ** 2, 0)), 2e-3))
                xs = np.linspace(a[0], a[1], 403)[1:-1]
                with np.errstate(all="ignore"):
                    density(ctx, d, lambda x: np.log(np.cos(x - shift) / S), xs,
                            (a[0] - 0.1, a[1] + 0.1, a[0] - 3, a[1] + 7), 2e-4, norm_tol=1e-2)
    elif k == "loguniform":
        for (lo, hi), arg in itertools.product(((1.0, math.e), (1e-3, 10.0), (20.0, 2048.0), (1e-22, 1e-20), (0.5, 0.6)),
                                               ("py", "t")):
            with ctx.case(lo=lo, hi=hi, arg=arg):
                d = D.LogUniform(lo, hi) if arg == "py" else D.LogUniform(torch.tensor(lo), torch.tensor(hi))
                L = math.log(hi / lo)
                samples(ctx, d, lambda u: lo * np.exp(u * L), lo, hi, 1.5e-5)
                xs = np.geomspace(lo, hi, 2003)[1:-1]
                density(ctx, d, lambda x: -np.log(x * L), xs, (lo * 0.9, hi * 1.1, -1.0), 1e-4, norm_tol=1e-2)
    elif k == "powerlaw":
        for (lo, hi), a in itertools.product(((1.0, 2.0), (10.0, 1000.0), (8.0, math.inf), (0.1, 0.9), (10, 1000), (1, 3),
                                              (1000, 100000)),
                                             (-4, -2, -1.5, -1.04, -1.01, -1, -0.98, -0.96, -0.5, 0.02, 0.5, 1, 2,
                                              3.0, 3, 4, 5)):
            if math.isinf(hi) and a > -1.5:  # no such density, or a tail past the largest float32
                continue
            with ctx.case(lo=lo, hi=hi, index=a):
                d = D.PowerLaw(lo, hi, a)
                p = a + 1
                if a == -1:
                    L = math.log(hi / lo)
                    samples(ctx, d, lambda u: lo * np.exp(u * L), lo, hi, 1.5e-5)
                    lp = lambda x: -np.log(x * L)  # noqa: E731
                else:
                    A, B = lo ** p, (0.0 if math.isinf(hi) else hi ** p)

                    def q(u):
                        with np.errstate(divide="ignore"):
                            return (A + u * (B - A)) ** (1 / p)
                    samples(ctx, d, q, lo, hi, 1.5e-5 / min(1, abs(p)))
                    lp = lambda x: a * np.log(x) + math.log(abs(p) / abs(B - A))  # noqa: E731
                top = hi if np.isfinite(hi) else lo * 4000
                xs = np.geomspace(lo, top, 3003)[1:-1]
                density(ctx, d, lp, xs, (lo * 0.9, -2.0) + ((hi * 1.1,) if np.isfinite(hi) else ()), 2e-4,
                        norm_tol=1e-2, mass=1.0 if np.isfinite(hi) else 1 - 4000.0 ** p)
    elif k == "lognormal":
        for mu, s in itertools.product((0.0, 1.5, -2.0), (0.25, 1.0, 2.0)):
            with ctx.case(mu=mu, s=s):
                d = D.LogNormal(mu, s)
                x, u = draw(ctx, d, (len(U),))
                inner = (u > 0) & (u < 1)
                want = np.exp(mu + s * ndtri(u[inner]))
                ctx.close(torch.tensor(x[inner] / want), torch.ones(int(inner.sum())), "quantile", rtol=1e-4)
                d = D.LogNormal(mu, s, validate_args=False)
                xs = np.exp(mu + s * np.linspace(-5, 5, 3001))
                density(ctx, d, lambda v: -np.log(v * s * math.sqrt(2 * math.pi)) - (np.log(v) - mu) ** 2 / 2 / s ** 2,
                        xs, (), 2e-4)
            with ctx.case(mu=mu, s=s, validated=True, key="lognormal-log-prob",
                          expect="'function' object has no attribute 'check'"):
                ctx.call(D.LogNormal(mu, s).log_prob, torch.tensor([1.0, 2.0]))
            low = math.exp(mu)
            with ctx.case(mu=mu, s=s, low=low, key="lognormal-low", expect="samples lie below low"):
                x, u = draw(ctx, D.LogNormal(mu, s, low=low), (len(U),))
                ctx.require((x >= low * (1 - 1e-5)).all(), f"{(x < low).sum()} of {len(x)} samples lie below low={low}")
            with ctx.case(mu=mu, s=s, low=0.0):
                x, u = draw(ctx, D.LogNormal(mu, s, low=0.0), (len(U),))
                ctx.require((x >= 0).all(), "negative sample")
    elif k == "delta":
        for peak, shape in itertools.product((0.0, 20, -3.5, 1e-21), ((), (1,), (7,), (2, 3))):
            with ctx.case(peak=peak, shape=shape):
                x = D.DeltaFunction(peak).sample(shape)
                ctx.step()
                ctx.require(tuple(x.shape) == shape, f"shape {tuple(x.shape)}")
                ctx.close(x, torch.full(shape, float(peak)), "constant", rtol=1e-6)
    elif k == "invalid":
        with ctx.case(invalid=True):
            ctx.raises(ValueError, D.PowerLaw, 1, 10, 0)
            ctx.raises(ValueError, D.UniformComovingVolume, 0, 1, "distance")
            ctx.raises(ValueError, D.UniformComovingVolume, 0, 5.5)
            ctx.raises(ValueError, D.UniformComovingVolume, 0, 2, z_grid_max=1)
            ctx.raises(ValueError, D.UniformComovingVolume, 0, 1e6, "luminosity_distance")
    elif k == "coarse":
        coarse(cell, ctx)
    else:
        comoving(cell, ctx)


RATES = dict(inv=lambda z: 1 / (1 + z), madau=lambda z: (1 + z) ** 2.7 / (1 + ((1 + z) / 2.9) ** 5.6))


def comoving(cell, ctx):
    kind, rate = cell["kind"], cell["rate"]
    for h0, om, zmax, grid in ((67.66, 0.30966, 5, 10000), (70.0, 0.25, 5, 10000), (67.66, 1.0, 2, 4000), (100.0, 0.1, 8, 20000)):
        z = np.linspace(0, zmax, 400001)
        E = np.sqrt(om * (1 + z) ** 3 + 1 - om)
        f = C_KM / (h0 * E)
        dc = np.r_[0, np.cumsum((f[1:] + f[:-1]) / 2 * np.diff(z))]
        dist = dict(redshift=z, comoving_distance=dc, luminosity_distance=dc * (1 + z))[kind]
        pz = dc ** 2 / E * (1 if rate is None else RATES[rate](z))
        jac = np.gradient(dist, z)
        for a, b in ((0.0, zmax * 0.98), (0.0, 0.1), (0.5, 1.0), (0.03, 0.33), (1.0, 1.2)):
            lo, hi = np.interp([a, b], z, dist)
            if a == 0:
                lo = 0.0
            m = (z >= a) & (z <= b)
            F = np.r_[0, np.cumsum((pz[m][1:] + pz[m][:-1]) / 2 * np.diff(z[m]))]
            tot = F[-1]
            F = F / tot
            dz = zmax / (grid - 1)
            width = (b - a) / dz  # grid points across the range
            with ctx.case(h0=h0, om=om, grid=grid, a=a, b=b):
                kw = dict(distance_type=kind, h0=h0, omega_m=om, z_grid_max=zmax, grid_size=grid)
                d = (D.UniformComovingVolume(float(lo), float(hi), **kw) if rate is None else
                     D.RateEvolution(RATES[rate], float(lo), float(hi), **kw))
                cellw = np.interp(dz, z, dist) if a == 0 else (np.gradient(dist, z)[m].max() * dz)
                cellw = max(cellw, np.gradient(dist, z)[m].max() * dz)

                def q(u):
                    return np.interp(u, F, dist[m])
                samples(ctx, d, q, lo, hi, 1e-3, slope=2.5 * cellw)
                with np.errstate(divide="ignore"):
                    def lp(x):
                        return np.log(np.interp(x, dist, pz / jac) / tot)
                    xs = np.linspace(lo, hi, 1501)[3:-3]
                    xs = xs[(xs > np.interp(a + (2 if a else 20) * dz, z, dist)) & (xs < np.interp(b - 2 * dz, z, dist))]
                    density(ctx, d, lp, xs, (lo - 0.2 * (hi - lo), hi + 0.1 * (hi - lo)), 1e-2 + 4 / width,
                            norm_tol=0.02 + 4 / width)
                if a == 0:
                    edge = torch.tensor(np.interp(np.array([0.1, 0.5, 0.9, 1.5]) * dz, z, dist)).float()
                    r = ctx.call(d.log_prob, edge)
                    ctx.require(not bool(r.isnan().any()), f"log density next to zero is {r.tolist()}")
                    ctx.require(bool((r[1:] >= r[:-1]).all()), f"log density does not rise from zero: {r.tolist()}")


def coarse(cell, ctx):
    """Redshift bounds that are points of a coarse grid: every grid cell between them counts."""
    rate = cell["rate"]
    for om, grid, (a, b) in itertools.product((0.30966, 1.0), (65, 129, 513, 2049), ((0.5, 1.0), (0.25, 1.75), (1.0, 1.125), (0.0, 0.5))):
        dz = 2 / (grid - 1)  # exact in binary
        z = np.linspace(0, 2, 200001)
        E = np.sqrt(om * (1 + z) ** 3 + 1 - om)
        f = C_KM / (70.0 * E)
        dc = np.r_[0, np.cumsum((f[1:] + f[:-1]) / 2 * np.diff(z))]
        pz = dc ** 2 / E * (1 if rate is None else RATES[rate](z))
        m = (z >= a) & (z <= b)
        F = np.r_[0, np.cumsum((pz[m][1:] + pz[m][:-1]) / 2 * np.diff(z[m]))]
        tot, F = F[-1], F / F[-1]
        with ctx.case(om=om, grid=grid, a=a, b=b):
            kw = dict(h0=70.0, omega_m=om, z_grid_max=2, grid_size=grid)
            d = D.UniformComovingVolume(a, b, **kw) if rate is None else D.RateEvolution(RATES[rate], a, b, **kw)
            slack = (1.0 if a == 0 else 0.2) * dz  # near zero the density vanishes between grid points
            samples(ctx, d, lambda u: np.interp(u, F, z[m]), a, b, 1e-4, slope=slack)
            for shape in ((), (len(U),)):
                x, u = draw(ctx, d, shape)
                if (u > 1 - 1e-7).any() and (u < 1e-12).any():
                    ctx.require(max(x.max() - b, b - x.max()) < 1e-3 * dz, f"the largest draw gives {x.max()}, not {b}")
                    ctx.require(abs(x.min() - a) < 1e-3 * dz, f"the smallest draw gives {x.min()}, not {a}")
            near = torch.tensor([a + 0.25 * dz, a + 0.75 * dz, b - 0.75 * dz, b - 0.25 * dz])
            got = ctx.call(d.log_prob, near)
            with np.errstate(divide="ignore"):
                want = np.log(np.interp(near.numpy(), z, pz) / tot)
            ctx.close(got[(a == 0) * 2:].double(), torch.tensor(want[(a == 0) * 2:]), "log density in the outermost grid cells",
                      rtol=0, atol=5e-3 + 20 * dz ** 2)
