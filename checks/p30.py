"""P30: ad hoc bursts follow their closed forms."""
import itertools
import math

import numpy as np
import torch
from mc.data import DT, LAYOUTS, relayout
from ml4gw.waveforms import Ringdown, SineGaussian

BOUNDS = ("full products of sample rate/duration (7 grids incl. odd lengths), quality 0.5..60, frequency "
          "10..900 Hz, amplitude 1e-24..1, 5 phases, eccentricity/inclination incl. both ends; batches "
          "1..129 in 4 layouts; radiated energy and hrss integrals")
ASSUMPTIONS = ("duration*sample_rate is a whole number. Sample values are compared to 1e-4 of the peak "
               "(single precision constants).")

C, G, MPC = 299792458.0, 6.67430e-11, 3.085677581491367e22
GRIDS = ((256, 1.0), (256, 0.5), (1024, 0.25), (2048, 0.125), (1000, 0.015), (257, 1.0), (512.5, 2.0))


def cells(tier):
    g = GRIDS if tier == "quick" else (*GRIDS, (4096, 1.0), (8192, 0.5), (100, 1.01))
    return ([dict(k=k, g=list(x)) for k in ("sg", "rd") for x in g]
            + [dict(k="integrals"), dict(k="batch", w="sg"), dict(k="batch", w="rd")])


def npf(*a):
    return [np.asarray(x, dtype=np.float64).reshape(-1, 1) for x in a]


def sg_ref(sr, dur, Q, f, hrss, ph, e):
    n = round(sr * dur)
    t = np.arange(n)[None] / sr - dur / 2
    Q, f, hrss, ph, e = npf(Q, f, hrss, ph, e)
    a = 1 / np.sqrt(2 - e**2)
    b = a * np.sqrt(1 - e**2)
    cn = Q / (4 * f * math.sqrt(math.pi)) * (1 + np.exp(-Q * Q))
    sn = Q / (4 * f * math.sqrt(math.pi)) * (1 - np.exp(-Q * Q))
    hp = hrss * a / np.sqrt(cn * np.cos(ph) ** 2 + sn * np.sin(ph) ** 2)
    hc = hrss * b / np.sqrt(cn * np.sin(ph) ** 2 + sn * np.cos(ph) ** 2)
    w = 2 * math.pi * f * t
    env = np.exp(-(w**2) / (2 * Q**2))
    return env * np.sin(w - ph) * hc, env * np.cos(w - ph) * hp


def rd_ref(sr, dur, f, Q, eps, ph, i, d):
    n = round(sr * dur)
    t = np.arange(n)[None] / sr
    f, Q, eps, ph, i, d = npf(f, Q, eps, ph, i, d)
    d = d * MPC
    one_minus_a = (2 / Q) ** (20 / 9)
    m = C**3 / (2 * math.pi * G * f) * (1 - 0.63 * one_minus_a**0.3)
    g = 1 - 0.63 * one_minus_a**0.3
    A = np.sqrt(2.5 * eps) * G * m / C**2 / np.sqrt(Q * (1 + 7 / (24 * Q**2)) * g)
    env = A / d * np.exp(-math.pi * f * t / Q)
    arg = 2 * math.pi * f * t + ph
    return 2 * np.cos(i) * env * np.sin(arg), (1 + np.cos(i) ** 2) * env * np.cos(arg)


def compare(ctx, out, ref, what, dt, n):
    for name, got, want in zip(("cross", "plus"), out, ref):
        want = torch.tensor(want)
        ctx.require(tuple(got.shape) == tuple(want.shape), f"{what} {name} shape {tuple(got.shape)}")
        # per source: relative to that source's own peak over both polarizations
        peak = torch.tensor(np.maximum(np.abs(ref[0]).max(1), np.abs(ref[1]).max(1)))[:, None]
        peak = torch.where(peak == 0, torch.ones_like(peak), peak)
        ctx.close(got.double() / peak, want / peak, f"{what} {name}", rtol=0,
                  atol=2e-4 if dt == "f32" else 3e-5)


SG = dict(Q=(0.5, 2.0, 9.0, 60.0), f=(10.0, 55.5, 300.0), h=(1e-24, 1e-21, 1.0),
          ph=(0.0, 0.7, math.pi / 2, 3.0, -1.2), e=(0.0, 0.3, 0.9, 1.0))
RD = dict(f=(20.0, 155.5, 400.0), Q=(2.5, 10.0, 40.0), eps=(1e-4, 0.01, 0.3), ph=(0.0, 0.7, math.pi / 2, -2.0),
          i=(0.0, 0.6, math.pi / 2, 2.2, math.pi), d=(0.1, 10.0, 5000.0))


def params(tab, dtype):
    rows = np.array(list(itertools.product(*tab.values())))
    t = [torch.tensor(np.ascontiguousarray(c), dtype=dtype) for c in rows.T]
    return t, [c.double().numpy() for c in t]


def run_cell(cell, ctx):
    k = cell["k"]
    if k in ("sg", "rd"):
        sr, dur = cell["g"]
        tab, cls, ref = (SG, SineGaussian, sg_ref) if k == "sg" else (RD, Ringdown, rd_ref)
        for dt in DT:
            with ctx.case(dt=dt, sample_rate=sr, duration=dur):
                mod = cls(sr, dur)
                t, c = params(tab, DT[dt])
                out = ctx.call(mod, *t)
                ctx.count("waveforms", len(c[0]))
                compare(ctx, out, ref(sr, dur, *c), k, dt, len(c[0]))
                ctx.require(out[0].dtype == (DT[dt] if k == "sg" else torch.float64), f"dtype {out[0].dtype}")
                # singles, incl. 0-dim parameters
                for i in (0, len(c[0]) // 2, len(c[0]) - 1):
                    one = ctx.call(mod, *(x[i:i + 1] for x in t))
                    ctx.close(one[0][0], out[0][i], "alone", rtol=1e-5)
                    ctx.close(one[1][0], out[1][i], "alone", rtol=1e-5)
                again = ctx.call(cls(sr, dur), *t)
                ctx.equal(again[1], out[1], "fresh object")
    elif k == "integrals":
        # hrss is the root sum square amplitude; a ringdown radiates epsilon of its mass
        for Q, f, ph, e in itertools.product((3.0, 9.0, 20.0), (60.0, 100.0), SG["ph"], SG["e"]):
            with ctx.case(w="hrss", Q=Q, f=f, ph=ph, e=e):
                t = [torch.tensor([v], dtype=torch.float64) for v in (Q, f, 2e-21, ph, e)]
                c, p = ctx.call(SineGaussian(4096, 4.0), *t)
                a2 = 1 / (2 - e * e)
                ctx.close((p**2).sum() / 4096, torch.tensor(4e-42 * a2), "plus energy", rtol=1e-3)
                ctx.close((c**2).sum() / 4096, torch.tensor(4e-42 * (1 - a2)), "cross energy", rtol=1e-3,
                          atol=1e-50)
        mu, w = np.polynomial.legendre.leggauss(8)
        for f, Q, eps, ph in itertools.product((200.0, 500.0), (8.0, 15.0), (0.001, 0.05, 0.2), (0.0, 0.8)):
            with ctx.case(w="energy", f=f, Q=Q, eps=eps, ph=ph):
                t = [torch.full((8,), v, dtype=torch.float64) for v in (f, Q, eps, ph)]
                c, p = ctx.call(Ringdown(65536, 0.5), *t, torch.tensor(np.arccos(mu)),
                                torch.full((8,), 100.0, dtype=torch.float64))
                dh = torch.gradient(c, spacing=1 / 65536, dim=-1)[0] ** 2 + torch.gradient(
                    p, spacing=1 / 65536, dim=-1)[0] ** 2
                E = (dh.sum(-1) / 65536 * torch.tensor(w) * 2 * math.pi).sum() * (100 * MPC) ** 2 * C**3 / (
                    16 * math.pi * G)
                m = C**3 / (2 * math.pi * G * f) * (1 - 0.63 * (2 / Q) ** (2 / 3))
                ctx.close(E / (m * C**2), torch.tensor(eps), "radiated fraction", rtol=0.02)
    else:
        tab, cls, ref = (SG, SineGaussian, sg_ref) if cell["w"] == "sg" else (RD, Ringdown, rd_ref)
        for B, lay, dt in itertools.product((1, 2, 3, 129), LAYOUTS, DT):
            with ctx.case(B=B, layout=lay, dt=dt):
                mod = cls(256, 1.0)
                t, c = params(tab, DT[dt])
                ix = torch.arange(B) * 53 % len(c[0])
                tt = [relayout(x[ix], lay) for x in t]
                out = ctx.call(mod, *tt)
                compare(ctx, out, ref(256, 1.0, *(x[ix.numpy()] for x in c)), "batch", dt, B)
                flip = ctx.call(mod, *(x.flip(0) for x in tt))
                for a, b in zip(out, flip):
                    ctx.close(b.flip(0), a, "order", rtol=1e-6)
                # linear in the amplitude: hrss, or the inverse of the distance
                j = 2 if cell["w"] == "sg" else 5
                big = ctx.call(mod, *(x * 2 if q == j else x for q, x in enumerate(tt)))
                for a, b in zip(out, big):
                    ctx.close(b, a * (2 if cell["w"] == "sg" else 0.5), "scaling", rtol=1e-6)
