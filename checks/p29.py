"""P29: mass and spin-angle conversions."""
import itertools
import math

import lal
import lalsimulation
import numpy as np
import torch
from mc.data import DT, LAYOUTS, relayout
from ml4gw.waveforms.conversion import (
    bilby_spins_to_lalsim,
    chirp_mass_and_mass_ratio_to_components,
)

PI = math.pi
BOUNDS = ("spin angles: full product of 5x5x4x4x4 angles, 5 spin pairs, 4 mass pairs, 4 reference phases (plus "
          "2 reference frequencies), including every aligned, anti-aligned and vanishing-spin case; "
          "60000 mass pairs for non-precessing systems; chirp mass x mass ratio grid 41 x 41")
ASSUMPTIONS = ("Reference: lalsimulation.SimInspiralTransformPrecessingNewInitialConditions. Where the line "
               "of sight, orbital and total angular momentum are parallel the azimuth is not defined; there "
               "only the rotation-invariant content is compared.")

TJN = (0.0, PI / 6, PI / 2, 2.5, PI)
PJL = (0.0, 1.0, PI, 4.0, 2 * PI)
TILT = (0.0, 0.4, PI / 2, PI)
P12 = (0.0, 1.3, PI, 5.0)
SPIN = ((0.0, 0.0), (0.5, 0.3), (0.9, 0.0), (0.0, 0.7), (1.0, 1.0))
MASS = ((30.0, 30.0), (36.0, 29.0), (50.0, 5.0), (1.4, 1.2))
PREF = (0.0, 1.0, PI, 5.5)
NAMES = ("theta_jn", "phi_jl", "tilt_1", "tilt_2", "phi_12", "a_1", "a_2", "mass_1", "mass_2")


def cells(tier):
    fs = (20.0, 50.0) if tier == "quick" else (1.0, 5.0, 20.0, 50.0, 100.0)
    return ([dict(k="spins", f=f, i=i) for f in fs for i in range(len(TJN))]
            + [dict(k="masses"), dict(k="nonprec"), dict(k="alone"), dict(k="invalid")])


def grid(tjn):
    rows = [(a, b, c, d, e, s[0], s[1], m[0], m[1], p) for a, b, c, d, e, s, m, p in
            itertools.product(tjn, PJL, TILT, TILT, P12, SPIN, MASS, PREF)]
    return np.array(rows)


def convert(ctx, cols, f, dtype):
    t = [torch.tensor(np.ascontiguousarray(c), dtype=dtype) for c in cols.T]
    out = ctx.call(bilby_spins_to_lalsim, *t[:9], f, t[9])
    return torch.stack([torch.as_tensor(o).double() for o in out], 1).numpy()


def lal_ref(r, f):
    return lalsimulation.SimInspiralTransformPrecessingNewInitialConditions(
        r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7] * lal.MSUN_SI, r[8] * lal.MSUN_SI, f, r[9])


def invariants(o):
    """Inclination and the rotation-invariant content of both spins about L."""
    return np.stack([o[:, 0], o[:, 3], o[:, 6], np.hypot(o[:, 1], o[:, 2]), np.hypot(o[:, 4], o[:, 5]),
                     o[:, 1] * o[:, 4] + o[:, 2] * o[:, 5],
                     o[:, 1] * o[:, 5] - o[:, 2] * o[:, 4]], 1)


def theta_jl(rows, f):
    out = []
    for r in rows:
        m1, m2 = r[7], r[8]
        M, eta = m1 + m2, m1 * m2 / (m1 + m2) ** 2
        v = (M * lal.MTSUN_SI * PI * f) ** (1 / 3)
        L = M * M * eta / v * (1 + v * v * (1.5 + eta / 6))
        s1 = m1**2 * r[5] * np.array([math.sin(r[2]), 0, math.cos(r[2])])
        s2 = m2**2 * r[6] * np.array([math.sin(r[3]) * math.cos(r[4]), math.sin(r[3]) * math.sin(r[4]),
                                      math.cos(r[3])])
        J = s1 + s2
        out.append(math.hypot(J[0], J[1]) / (abs(L + J[2]) + 1e-300))
    return np.array(out)


def run_cell(cell, ctx):
    k = cell["k"]
    if k == "spins":
        f = cell["f"]
        rows = grid((TJN[cell["i"]],))
        for dt in DT:
            cols = torch.tensor(rows, dtype=DT[dt]).double().numpy()
            with ctx.case(f=f, theta_jn=cell["i"], dt=dt, n=len(rows)):
                got = convert(ctx, rows, f, DT[dt])
                ref = np.array([lal_ref(r, f) for r in cols])
                ctx.count("spin_configurations", len(rows))
                ctx.require(np.isfinite(got).all(), "non-finite output at " + str(
                    dict(zip(NAMES, rows[int((~np.isfinite(got)).any(1).argmax())]))))
                tol = 1e-6 if dt == "f64" else 4e-3
                for j, (g, w) in enumerate(zip(invariants(got).T, invariants(ref).T)):
                    err = np.abs(g - w)
                    i = int(err.argmax())
                    ctx.require(err[i] <= tol, f"invariant {j} off at {dict(zip(NAMES, rows[i]))}: got "
                                f"{g[i]} expected {w[i]}")
                eps = 1e-7 if dt == "f64" else 1e-2
                ok = (np.sin(ref[:, 0]) > eps) & (theta_jl(cols, f) > eps)
                err = np.abs(got - ref).max(1) * ok
                i = int(err.argmax())
                ctx.require(err[i] <= (1e-6 if dt == "f64" else 2e-2),
                            f"conversion off at {dict(zip(NAMES, rows[i]))}, phi_ref {rows[i][9]}: got "
                            f"{got[i]} expected {ref[i]}")
    elif k == "masses":
        mcs = np.geomspace(0.5, 200, 41)
        qs = np.concatenate([np.geomspace(1e-3, 0.999, 40), [1.0]])
        for dt, lay in itertools.product(DT, LAYOUTS):
            with ctx.case(dt=dt, layout=lay):
                a, b = (torch.tensor(v.ravel(), dtype=DT[dt]) for v in np.meshgrid(mcs, qs))
                a, b = relayout(a, lay), relayout(b, lay)
                m1, m2 = ctx.call(chirp_mass_and_mass_ratio_to_components, a, b)
                x, y = m1.double(), m2.double()
                tol = 2e-6 if dt == "f32" else 1e-13
                ctx.require(bool((x >= y).all()), "primary lighter than secondary")
                ctx.close((x * y) ** 0.6 / (x + y) ** 0.2, a.double(), "chirp mass", rtol=tol, norm=False)
                ctx.close(y / x, b.double(), "mass ratio", rtol=tol, norm=False)
                ctx.require(bool(torch.allclose(x[b == 1], y[b == 1], rtol=tol)), "equal masses")
                for i in (0, 7, len(a) - 1):
                    o = ctx.call(chirp_mass_and_mass_ratio_to_components, a[i:i + 1], b[i:i + 1])
                    ctx.close(torch.cat(o).double(), torch.stack((x[i], y[i])), "alone", rtol=tol,
                              norm=False)
    elif k == "nonprec":
        # J, L along z: every output is determined, for any masses
        n = 20000
        m1 = np.linspace(3.0, 90.0, n)
        for dt, (tj, a, tilt), qr in itertools.product(
                DT, ((0.0, 0, 0.3), (1.1, 0, 2.0), (PI, 0, 0.0), (0.7, 0.8, 0.0), (0.0, 0.6, 0.0)),
                (1.0, 0.37, 0.83)):
            with ctx.case(dt=dt, theta_jn=tj, a=a, tilt=tilt, q=qr, n=n):
                o = np.ones(n)
                rows = np.stack([tj * o, 0.9 * o, tilt * o, tilt * o, 0.4 * o, a * o, a * o, m1, m1 * qr,
                                 0.3 * o], 1)
                got = convert(ctx, rows, 20.0, DT[dt])
                ctx.count("spin_configurations", n)
                bad = ~np.isfinite(got).all(1)
                ctx.require(not bad.any(), f"{bad.sum()} of {n} aligned systems give a non-finite result, "
                            f"first at mass_1={m1[bad.argmax()]}")
                tol = 1e-6 if dt == "f64" else 2e-3
                ctx.close(torch.tensor(got[:, 0]), torch.full((n,), tj), "inclination", rtol=0, atol=tol)
                want = torch.zeros(n, 6, dtype=torch.float64)
                want[:, 2] = want[:, 5] = a * math.cos(tilt)
                ctx.close(torch.tensor(got[:, 1:]), want, "spins", rtol=0, atol=tol)
    elif k == "alone":
        rows = grid(TJN)[::797]
        for f, lay in itertools.product((20.0, 50.0), LAYOUTS):
            with ctx.case(f=f, layout=lay, n=len(rows)):
                t = [relayout(torch.tensor(np.ascontiguousarray(c)), lay) for c in rows.T]
                full = torch.stack(ctx.call(bilby_spins_to_lalsim, *t[:9], f, t[9]), 1)
                rev = torch.stack(ctx.call(bilby_spins_to_lalsim, *(c.flip(0) for c in t[:9]), f,
                                           t[9].flip(0)), 1).flip(0)
                fi = invariants(full.numpy())
                ctx.close(torch.tensor(invariants(rev.numpy())), torch.tensor(fi), "order", rtol=0, atol=1e-6)
                for i in range(len(rows)):
                    one = torch.stack(bilby_spins_to_lalsim(*(c[i:i + 1] for c in t[:9]), f,
                                                            t[9][i:i + 1]), 1)
                    ctx.step()
                    ctx.close(torch.tensor(invariants(one.numpy())[0]), torch.tensor(fi[i]), "alone", rtol=0,
                              atol=1e-6)
    else:
        one = [torch.ones(2, dtype=torch.float64) for _ in range(10)]
        for f in (0.0, -1.0, -20, 0):
            with ctx.case(f=f):
                ctx.raises(ValueError, bilby_spins_to_lalsim, *one[:9], f, one[9])
