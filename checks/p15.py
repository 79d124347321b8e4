"""P15: projected responses equal antenna pattern times delayed polarizations."""
import itertools
import math

import lal
import numpy as np
import torch
from mc.data import DT, LAYOUTS, noise, relayout
from ml4gw.gw import (
    compute_antenna_responses,
    compute_observed_strain,
    get_ifo_geometry,
    shift_responses,
)
from ml4gw.transforms import WaveformProjector

BOUNDS = ("all 64 ordered detector subsets x all 15 ordered polarization subsets x 150 sky positions "
          "(poles, wrap-around) x 3 sample rates x lengths 1..4096 (longer and shorter than the delays); LAL as oracle for geometry and "
          "antenna factors")
NAMES = ("H1", "L1", "V1", "K1")
LALDET = {d.frDetector.prefix: d for d in lal.CachedDetectors}
MODES = ("plus", "cross", "breathing")
CLIGHT = 299792458.0


def cells(tier):
    subs = [s for r in range(1, 5) for s in itertools.permutations(NAMES, r)]
    out = [dict(k="proj", ifos=list(s), sr=sr) for s in subs for sr in (64, 2048, 16384)]
    out += [dict(k="geom"), dict(k="layout"), dict(k="custom")]
    return out


def sky(dtype):
    g = list(itertools.product((-math.pi / 2, -1.1, 0.0, 0.7, math.pi / 2),
                               (0.0, 0.4, math.pi / 2, 2.9, math.pi),
                               (-math.pi, -1.0, 0.0, 2.2, math.pi, 5.9)))
    return tuple(torch.tensor(g, dtype=torch.float64).T.to(dtype))


def factors(dec, psi, phi, names, modes):
    """(sky, mode, ifo) antenna factors from LAL detector tensors, straight from the definition."""
    out = np.zeros((len(dec), len(modes), len(names)))
    for i, (d, p, a) in enumerate(zip(dec.double(), psi.double(), phi.double())):
        d, p, a = float(d), float(p), float(a)
        # unit vectors at the source: east, north, and the polarization basis
        east = np.array([-math.sin(a), math.cos(a), 0])
        north = np.array([-math.sin(d) * math.cos(a), -math.sin(d) * math.sin(a), math.cos(d)])
        X = -math.cos(p) * east + math.sin(p) * north
        Y = math.sin(p) * east + math.cos(p) * north
        for j, nm in enumerate(names):
            D = detector(nm)
            for k, m in enumerate(modes):
                if m == "breathing":
                    e = np.outer(X, X) + np.outer(Y, Y)
                elif m == "plus":
                    e = np.outer(X, X) - np.outer(Y, Y)
                else:
                    e = np.outer(X, Y) + np.outer(Y, X)
                out[i, k, j] = (D * e).sum()
    return torch.as_tensor(out)


def detector(nm):
    # arm unit vectors from LAL's tabulated angles
    fr = LALDET[nm].frDetector
    lon, lat = fr.vertexLongitudeRadians, fr.vertexLatitudeRadians
    e = np.array([-math.sin(lon), math.cos(lon), 0])
    n = np.array([-math.sin(lat) * math.cos(lon), -math.sin(lat) * math.sin(lon), math.cos(lat)])
    z = np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])

    def arm(az, alt):
        return math.cos(alt) * (math.cos(math.pi / 2 - az) * e + math.sin(math.pi / 2 - az) * n) + \
            math.sin(alt) * z
    x = arm(fr.xArmAzimuthRadians, fr.xArmAltitudeRadians)
    y = arm(fr.yArmAzimuthRadians, fr.yArmAltitudeRadians)
    return (np.outer(x, x) - np.outer(y, y)) / 2


def delays(dec, phi, verts, sr):
    d, a = dec.double(), phi.double()
    om = torch.stack([torch.cos(d) * torch.cos(a), torch.cos(d) * torch.sin(a), torch.sin(d)], -1)
    return -(om @ verts.double().T) * sr / CLIGHT


def project(dec, psi, phi, names, modes, pols, sr, F=None, verts=None):
    F = factors(dec, psi, phi, names, modes) if F is None else F
    if verts is None:
        verts = torch.as_tensor(np.stack([LALDET[n].location for n in names]))
    dt = delays(dec, phi, verts, sr)
    h = sum(F[:, k, :, None] * p.double()[:, None, :] for k, p in enumerate(pols))
    n = torch.trunc(dt).long()
    out = torch.empty_like(h)
    for i in range(h.shape[0]):
        for j in range(h.shape[1]):
            out[i, j] = torch.roll(h[i, j], int(n[i, j]))
    near = ((dt - dt.round()).abs() < 5e-3) & (dt.abs() > 0.5)
    return out, ~near.any(1)


def run_cell(cell, ctx):
    if cell["k"] == "proj":
        names, sr = cell["ifos"], cell["sr"]
        # the second length is shorter than the delays: the shift wraps around more than once
        lens = {64: (5, 1), 2048: (48, 19), 16384: (1031, 170)}[sr]
        proj = WaveformProjector(names, sr)
        tens, verts = get_ifo_geometry(*names)
        for dt in DT:
            dec, psi, phi = sky(DT[dt])
            if sr == 16384:
                dec, psi, phi = dec[::7], psi[::7], phi[::7]
            Fall = factors(dec, psi, phi, names, MODES)
            subs = [m for r in (1, 2, 3) for m in itertools.permutations(MODES, r)]
            for T, modes in [(lens[(i + (dt == "f64")) % 2], m) for i, m in enumerate(subs)]:
                with ctx.case(modes=modes, dt=dt, T=T):
                    F = Fall[:, [MODES.index(m) for m in modes]]
                    got = ctx.call(compute_antenna_responses, math.pi / 2 - dec, psi, phi, tens,
                                   list(modes))
                    ctx.close(got, F, "antenna factors", rtol=0, atol=2e-5)
                    pols = [noise((len(dec), T), DT[dt], (m, T)) for m in modes]
                    want, ok = project(dec, psi, phi, names, modes, pols, sr, F=F)
                    kw = dict(zip(modes, pols))
                    got = ctx.call(proj, dec, psi, phi, **kw)
                    ctx.close(got[ok], want[ok], "projected strain", rtol=1e-4)
                    got = ctx.call(compute_observed_strain, dec, psi, phi, tens, verts, sr, **kw)
                    ctx.close(got[ok], want[ok], "observed strain", rtol=1e-4)
                    ctx.require(got.dtype == DT[dt], "dtype")
                    ctx.count("sky_positions", int(ok.sum()))
        with ctx.case(invalid=True):
            ctx.raises(ValueError, compute_antenna_responses, dec, psi, phi, tens, ["plus", "scalar"])
    elif cell["k"] == "geom":
        for nm in NAMES:
            with ctx.case(ifo=nm):
                tens, verts = ctx.call(get_ifo_geometry, nm)
                d = LALDET[nm]
                ctx.close(tens[0], torch.as_tensor(np.array(d.response, dtype=float)), "tensor",
                          rtol=0, atol=1e-5)
                ctx.close(verts[0], torch.as_tensor(np.array(d.location)), "vertex", rtol=1e-6)
            for dec, psi, phi in zip(*sky(torch.float64)):
                with ctx.case(ifo=nm, sky=(float(dec), float(psi), float(phi))):
                    fp, fc = lal.ComputeDetAMResponse(LALDET[nm].response, float(phi), float(dec),
                                                      float(psi), 0.0)
                    got = ctx.call(compute_antenna_responses, (math.pi / 2 - dec)[None], psi[None],
                                   phi[None], tens, ["plus", "cross"], keep=False)
                    ctx.close(got[0, :, 0], torch.tensor([fp, fc]), "LAL antenna factors", rtol=0,
                              atol=2e-5)
        with ctx.case(invalid=True):
            ctx.raises(ValueError, get_ifo_geometry, "H1", "G1")
    elif cell["k"] == "layout":
        dec, psi, phi = (x[::11] for x in sky(torch.float32))
        B, T, sr = len(dec), 64, 512
        names = ["L1", "H1", "V1"]
        proj = WaveformProjector(names, sr)
        pols = [noise((B, T), key=m, scale=1e-21) for m in "pc"]
        want, ok = project(dec, psi, phi, names, ("plus", "cross"), pols, sr)
        for la, lb, lc in itertools.product(LAYOUTS, LAYOUTS, LAYOUTS):
            with ctx.case(layouts=(la, lb, lc)):
                got = ctx.call(proj, relayout(dec, lc), relayout(psi, la), relayout(phi, lb),
                               plus=relayout(pols[0], la), cross=relayout(pols[1], lb))
                ctx.close(got[ok], want[ok], "strain", rtol=1e-4)
    else:
        # detectors placed so that every whole-sample delay -3..3 occurs, in each axis direction
        T, sr = 11, 100
        sample = CLIGHT / sr
        for n, ax, sgn in itertools.product(range(0, 4), range(3), (1, -1)):
            for off in (0.25, 0.75):
                with ctx.case(samples=n, axis=ax, sign=sgn, part=off):
                    verts = torch.zeros(2, 3)
                    verts[0, ax] = sgn * (n + off) * sample
                    dec = torch.tensor([0.0, 0.0, math.pi / 2, -0.3])
                    phi = torch.tensor([0.0, math.pi / 2, 0.4, 1.3])
                    psi = torch.tensor([0.1, 0.2, 0.3, 0.4])
                    h = noise((4, 2, T), key="cust")
                    got = ctx.call(shift_responses, h, math.pi / 2 - dec, phi, verts, sr)
                    d = delays(dec, phi, verts, sr)
                    want = torch.stack([torch.stack([torch.roll(h[i, j], int(torch.trunc(d[i, j])))
                                                     for j in (0, 1)]) for i in range(4)])
                    ctx.equal(got, want, f"shift by {torch.trunc(d)[:, 0].tolist()}")
        with ctx.case(big=True):
            B = 129
            dec = torch.linspace(-1.5, 1.5, B)
            phi = torch.linspace(-3, 3, B)
            psi = torch.linspace(0, 3, B)
            names = ["H1", "L1", "V1", "K1"]
            pols = [noise((B, 4096), key=m) for m in "pc"]
            want, ok = project(dec, psi, phi, names, ("plus", "cross"), pols, 4096)
            got = ctx.call(WaveformProjector(names, 4096), dec, psi, phi, plus=pols[0], cross=pols[1])
            ctx.close(got[ok], want[ok], "strain", rtol=1e-4)
