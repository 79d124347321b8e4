"""P27: time-domain generation against a LAL-based reimplementation of the conditioning and against gwsignal."""
import itertools
import math

import lal
import lalsimulation as ls
import numpy as np
import torch
from ml4gw.constants import MSUN
from ml4gw.waveforms import IMRPhenomD, IMRPhenomPv2, TaylorF2
from ml4gw.waveforms.generator import TimeDomainCBCWaveformGenerator
from ml4gw.waveforms.cbc import utils
from scipy import signal

BOUNDS = ("sample rates {1024, 1700, 2048, 4096, 8192, 16384} x f_min {15, 20, 30, 45} x right pad {0, 0.05, 0.5, 1.3, 3} "
          "x durations {1, 4, 8} x 4 approximants (including one with a flat spectrum) x batches of 1-5 of nine "
          "sources with chirp lengths from 1 to 16 seconds; all ordered pairs of calls on one generator; "
          "the chirp, merger and ringdown bounds over 7 x 7 masses (1-200), 8 x 8 spins and 4 frequencies")
ASSUMPTIONS = ("duration x sample rate is exact and the sample rate even. Reference conditioning uses LAL's own "
               "chirp-time bounds (lalsimulation); the frequency-domain model is the real approximant (decided by "
               "P28). gwsignal is the independent end-to-end reference for content.")


class Flat(torch.nn.Module):
    """Spectrum that is flat from the lowest frequency up: a pulse at the coalescence."""

    def forward(self, f, chirp_mass, scale, f_ref, **kw):
        one = torch.ones(len(chirp_mass), len(f), dtype=torch.complex128) * scale[:, None] * 1e-24 * (1 + f_ref)
        return 1j * one, one


APP = dict(IMRPhenomD=IMRPhenomD, TaylorF2=TaylorF2, IMRPhenomPv2=IMRPhenomPv2, Flat=Flat)
# chirp mass, mass ratio, s1z, s2z, distance, phase, inclination
SRC = ((26.0, 0.8, 0.0, 0.0, 100.0, 0.3, 0.6), (60.0, 0.3, 0.5, -0.2, 400.0, 0.0, 0.0),
       (12.0, 1.0, 0.9, 0.9, 50.0, 2.0, 2.5), (35.0, 0.1, -0.9, 0.0, 900.0, 1.0, 1.2),
       (16.0, 0.6, 0.0, 0.7, 200.0, 5.0, math.pi / 2), (90.0, 0.9, 0.3, 0.3, 1000.0, 0.1, 0.2),
       (8.0, 0.7, 0.1, -0.1, 300.0, 0.0, 0.4), (30.0, 0.5, 0.99, 0.99, 100.0, 0.0, 3.0),
       (21.0, 0.95, -0.99, -0.99, 100.0, 0.0, 0.1))


def cells(tier):
    th = tier == "thorough"
    srs = (1024, 1700, 2048, 4096, 8192, 16384)
    out = []
    for app, sr, fmin in itertools.product(APP, srs, (15.0, 20.0, 30.0, 45.0)):
        if not th and (app in ("TaylorF2", "IMRPhenomPv2") and (sr > 4096 or fmin in (15.0, 45.0))):
            continue
        if not th and sr == 16384 and fmin == 15.0:
            continue
        out.append(dict(k="ref", app=app, sr=sr, fmin=fmin))
    out += [dict(k="gwsignal", i=i, sr=sr) for i in range(9) for sr in ((2048, 8192) if not th else (1024, 2048, 4096, 16384))]
    out += [dict(k="alone", app=a) for a in ("IMRPhenomD", "Flat", "IMRPhenomPv2")]
    out += [dict(k="place", sr=sr) for sr in (1024, 1700, 4096)] + [dict(k="history"), dict(k="single")]
    out += [dict(k="bounds", m1=m) for m in (1.0, 1.4, 3.0, 10.0, 36.0, 80.0, 200.0)]
    return out


def comps(mc, q):
    m1 = mc * (1 + q) ** 0.2 / q ** 0.6
    return m1, m1 * q


def params(rows, dtype=torch.float64):
    a = torch.tensor(rows, dtype=dtype)
    mc, q, x1, x2, d, ph, inc = (c.clone() for c in a.T)
    m = [comps(r[0], r[1]) for r in rows]
    m1, m2 = (torch.tensor([x[i] for x in m], dtype=dtype) for i in (0, 1))
    z = torch.zeros_like(mc)
    return dict(chirp_mass=mc, mass_ratio=q, mass_1=m1, mass_2=m2, chi1=x1, chi2=x2, s1z=x1.clone(), s2z=x2.clone(),
                s1x=z, s1y=z.clone(), s2x=z.clone(), s2y=z.clone(), phic=ph, distance=d, inclination=inc,
                scale=1 + mc / 100)


def bounds(rows, sr, fmin, rp):
    """Per source: start of taper, end of taper, last-stable-orbit frequency; and the buffer length."""
    out, n = [], 1
    for mc, q, x1, x2, *_ in rows:
        m1, m2 = comps(mc, q)
        fisco = 1.0 / (9.0 ** 1.5 * math.pi * (m1 + m2) * lal.MTSUN_SI)
        fm = min(fisco, fmin)
        k1, k2 = m1 * lal.MSUN_SI, m2 * lal.MSUN_SI
        t = ls.SimInspiralChirpTimeBound(fm, k1, k2, x1, x2)
        s = ls.SimInspiralFinalBlackHoleSpinBound(x1, x2)
        tm = ls.SimInspiralMergeTimeBound(k1, k2) + ls.SimInspiralRingdownTimeBound(k1 + k2, s)
        fs = ls.SimInspiralChirpStartFrequencyBound(1.1 * t, k1, k2)
        t2 = ls.SimInspiralChirpTimeBound(fs, k1, k2, x1, x2)
        textra = 3.0 / fm
        length = (t2 + tm + textra + max(textra, rp)) * sr
        n = max(n, 2 ** math.ceil(math.log2(round(length))))
        out.append((fs, fm, fisco))
    return out, n


def reference(app, sr, fmin, rp, dur, rows, f_ref):
    """All admissible conditioned waveforms: (cross, plus), one alternative per rounding of a near-tie."""
    info, n = bounds(rows, sr, fmin, rp)
    df = sr / n
    f = np.arange(n // 2 + 1) * df
    lo = min(i[0] for i in info)
    mask = f >= lo
    with torch.no_grad():
        c, p = APP[app]()(torch.tensor(f[mask]), **params(rows), f_ref=f_ref)
    res = []
    w1 = math.tan(math.pi * fmin / sr)
    wc = w1 * (1 / 0.99 ** 0.5 - 1) ** (1 / 16)
    sos = signal.butter(8, math.atan(wc) / math.pi * 2, btype="highpass", output="sos")
    shift = np.exp(2j * math.pi * f * round(rp * sr) / sr)
    size = int(dur * sr)
    for j, (fs, fm, fisco) in enumerate(info):
        k0, k1 = round(fs / df), round(fm / df)
        k = np.arange(n // 2 + 1)
        w = np.where(k <= k1, 0.5 - 0.5 * np.cos(math.pi * (k - k0) / (k1 - k0)), 1.0)
        w[(f < fs) & (k >= 0)] = 0
        w[k < k0] = 0
        w[-1] = 0
        pol = []
        for h in (c, p):
            spec = np.zeros(n // 2 + 1, complex)
            spec[mask] = h[j].numpy()
            x = np.fft.irfft(spec * w * shift, n) * sr
            na = max(round(sr / fmin), 4)
            x[:na] *= 0.5 - 0.5 * np.cos(math.pi * np.arange(na) / na)
            nb = max(round(sr / fisco), 4)
            x[n - nb + 1:] *= (0.5 - 0.5 * np.cos(math.pi * np.arange(1, nb) / nb))[::-1]
            x = np.pad(x, (max(size - n, 0), 0))[-size:]
            x = signal.sosfilt(sos, x)
            x = signal.sosfilt(sos, x[::-1])[::-1]
            pol.append(x)
        res.append(pol)
    return torch.tensor(np.array(res)), info, n


def tie(info, n, sr):
    """A taper edge, or the grid point at the start frequency, within float rounding of a tie."""
    df = sr / n
    for fs, fm, _ in info:
        for v in (fs / df, fm / df):
            if abs(v - math.floor(v) - 0.5) < 2e-4:
                return True
        if abs(fs / df - round(fs / df)) < 2e-5:
            return True
    return False


def generate(ctx, app, sr, fmin, rp, dur, rows, f_ref=20.0, dtype=torch.float64, gen=None):
    g = gen or TimeDomainCBCWaveformGenerator(APP[app](), sr, dur, fmin, f_ref, rp)
    with torch.no_grad():
        hc, hp = ctx.call(g, **params(rows, dtype))
    size = int(dur * sr)
    ctx.require(tuple(hc.shape) == tuple(hp.shape) == (len(rows), size), f"(batch, duration x rate) expected, got {tuple(hp.shape)}")
    ctx.require(hc.dtype == hp.dtype == torch.float64, "double precision output")
    return torch.stack([hc, hp], 1)


def agree(ctx, got, want, what, tol=2e-4):
    """Relative to each source's own loudest sample (both polarizations)."""
    for i in range(len(want)):
        ctx.close(got[i], want[i], f"{what}, source {i}", rtol=tol)


GROUPS = ((0,), (1,), (2,), (0, 1), (1, 0, 5), (3, 4, 7, 8), (5, 6), (8, 2, 0, 1, 5))


def run_ref(ctx, c):
    app, sr, fmin = c["app"], c["sr"], c["fmin"]
    groups = [g for g in GROUPS if sr <= 4096 or len(g) < 3]
    if sr > 4096:
        groups = [g for g in groups if 6 not in g]
    for gi, (grp, rp) in enumerate(itertools.product(groups, (0.0, 0.05, 0.5, 1.3, 3.0) if sr <= 4096 else (0.05, 1.3))):
        for dur in (1.0, 4.0, 8.0)[gi % 3::2] or (4.0,):
            if dur <= rp:
                continue
            rows = [SRC[i] for i in grp]
            if app == "IMRPhenomPv2":
                rows = [r for r in rows]
            f_ref = (20.0, 35.0)[gi % 2]
            with ctx.case(sources=grp, right_pad=rp, duration=dur):
                want, info, n = reference(app, sr, fmin, rp, dur, rows, f_ref)
                if tie(info, n, sr):
                    ctx.count("near_tie_skipped")
                    continue
                got = generate(ctx, app, sr, fmin, rp, dur, rows, f_ref)
                # the translation phase 2 pi f right_pad is evaluated in single precision
                agree(ctx, got, want, "conditioned waveform", (3e-3 if app == "TaylorF2" else 3e-4) + (1e-2 if app in ("Flat", "TaylorF2") else 3e-3) * rp)


def run_gwsignal(ctx, c):
    """Agreement with gwsignal's own conditioning of the LAL waveform, lined up on the loudest sample (LAL moves
    its time origin there; the generator keeps the model's coalescence time)."""
    import astropy.units as u
    from lalsimulation.gwsignal.core.waveform import GenerateTDWaveform, LALCompactBinaryCoalescenceGenerator

    class Gen(LALCompactBinaryCoalescenceGenerator):
        @property
        def metadata(self):
            return dict(type="cbc_lalsimulation", f_ref_spin=True, modes=True, polarizations=True,
                        implemented_domain=self._implemented_domain, generation_domain=self._generation_domain,
                        approximant=self._approx_name, implementation="LALSimulation",
                        conditioning_routines="gwsignal")

        def _update_domains(self):
            self._implemented_domain = "freq"

    sr, row = c["sr"], SRC[c["i"]]
    mc, q, x1, x2, d, ph, inc = row
    m1, m2 = comps(mc, q)
    one = u.dimensionless_unscaled
    for fmin in (20.0, 30.0):
        hp_l, hc_l = GenerateTDWaveform(dict(
            mass1=m1 * u.solMass, mass2=m2 * u.solMass, deltaT=u.s / sr, f22_start=fmin * u.Hz, f22_ref=40 * u.Hz,
            phi_ref=ph * u.rad, distance=d * u.Mpc, inclination=inc * u.rad, eccentricity=0 * one,
            longAscNodes=0 * u.rad, meanPerAno=0 * u.rad, spin1x=0 * one, spin1y=0 * one, spin1z=x1 * one,
            spin2x=0 * one, spin2y=0 * one, spin2z=x2 * one, condition=1), Gen("IMRPhenomD"))
        for rp, dur in ((0.5, 8.0), (0.25, 4.0), (2.0, 16.0)):
            with ctx.case(f_min=fmin, right_pad=rp, duration=dur):
                got = generate(ctx, "IMRPhenomD", sr, fmin, rp, dur, [row], 40.0)[0].numpy()
                # both put whole samples between their time origins: line up the loudest samples
                ka = int((got ** 2).sum(0).argmax())
                kb = int((hp_l.value ** 2 + hc_l.value ** 2).argmax())
                n0, n1 = int(0.25 * sr), min(int(0.02 * sr), got.shape[-1] - ka)
                scale = np.abs(hp_l.value).max() + np.abs(hc_l.value).max()
                for h, ref, pol in ((got[1], hp_l.value, "plus"), (got[0], hc_l.value, "cross")):
                    a = h[ka - n0:ka + n1]
                    b = max((ref[kb + s - n0:kb + s + n1] for s in (-1, 0, 1)), key=lambda b: float(a @ b))
                    if np.abs(b).max() < 1e-3 * scale:
                        ctx.require(np.abs(a).max() < 3e-3 * scale, f"{pol} vanishes edge-on")
                        continue
                    ov = (a @ b) / math.sqrt((a @ a) * (b @ b))
                    ctx.require(ov > 1 - 1e-3, f"{pol}: overlap with gwsignal is {ov}")
                    ctx.require(abs(math.sqrt(a @ a) / math.sqrt(b @ b) - 1) < 1e-2, f"{pol}: amplitude of gwsignal")


def run_alone(ctx, c):
    """Other sources in the batch change a source's waveform only by the width of the shared buffer."""
    sr, fmin, rp, dur = 2048, 20.0, 0.5, 8.0
    for app in (c["app"],):
        idx = (0, 1, 2, 3, 5)
        for k in (1, 2, 3):
            for sub in itertools.combinations(idx, k):
                base = {}
                for perm in itertools.permutations(sub):
                    with ctx.case(app=app, perm=perm):
                        got = generate(ctx, app, sr, fmin, rp, dur, [SRC[i] for i in perm])
                        for j, i in enumerate(perm):
                            if i in base:
                                ctx.close(got[j], base[i], f"source {i} in another order", rtol=1e-6)
                            else:
                                base[i] = got[j].clone()
        # same buffer: alone and repeated
        for i in range(9):
            with ctx.case(app=app, repeat=i):
                a = generate(ctx, app, sr, fmin, rp, dur, [SRC[i]])
                b = generate(ctx, app, sr, fmin, rp, dur, [SRC[i]] * 5)
                for j in range(5):
                    ctx.close(b[j], a[0], f"copy {j} in a batch", rtol=1e-6)
        long = SRC[6]
        for i in (0, 1, 2, 3, 4, 5, 7, 8):
            with ctx.case(app=app, with_long=i):
                a = generate(ctx, app, sr, fmin, rp, dur, [SRC[i]])[0]
                b = generate(ctx, app, sr, fmin, rp, dur, [SRC[i], long])[0]
                lo = int((dur - rp - 0.3) * sr)
                hi = int((dur - rp + 0.05) * sr)
                ctx.close(b[:, lo:hi], a[:, lo:hi], "merger next to a long source", rtol=3e-2)


def run_history(ctx, c):
    """One generator, calls in every order."""
    sr, fmin, rp, dur = 2048, 20.0, 0.5, 4.0
    menu = ((0,), (1,), (0, 1), (4, 2, 0), (5,))
    for app in ("IMRPhenomD", "IMRPhenomPv2", "Flat"):
        fresh = {}
        for i, grp in enumerate(menu):
            with ctx.case(app=app, fresh=i):
                fresh[i] = generate(ctx, app, sr, fmin, rp, dur, [SRC[j] for j in grp])
        for seq in itertools.product(range(len(menu)), repeat=2):
            with ctx.case(app=app, seq=seq):
                g = TimeDomainCBCWaveformGenerator(APP[app](), sr, dur, fmin, 20.0, rp)
                for i in (*seq, seq[0]):
                    got = generate(ctx, app, sr, fmin, rp, dur, [SRC[j] for j in menu[i]], gen=g)
                    agree(ctx, got, fresh[i], f"call {i} of {seq}", 1e-9)
    for i in range(3):
        with ctx.case(attributes=i):
            sr2, dur2 = (1024, 2048, 4096)[i], (1.0, 8.0, 0.5)[i]
            g = TimeDomainCBCWaveformGenerator(IMRPhenomD(), sr2, dur2, 20.0, 20.0, 0.1)
            ctx.require(g.size == int(sr2 * dur2) and abs(g.delta_t * sr2 - 1) < 1e-12
                        and abs(g.delta_f * dur2 - 1) < 1e-12, "size, delta_t and delta_f describe the output")


def run_single(ctx, c):
    """Single-precision parameters give the same waveform to single precision."""
    for i, (sr, fmin) in itertools.product(range(9), ((2048, 20.0), (4096, 30.0))):
        with ctx.case(source=i, sr=sr):
            a = generate(ctx, "IMRPhenomD", sr, fmin, 0.5, 4.0, [SRC[i]])
            b = generate(ctx, "IMRPhenomD", sr, fmin, 0.5, 4.0, [SRC[i]], dtype=torch.float32)
            ctx.close(b, a, "single precision parameters", rtol=2e-2)


def run_bounds(ctx, c):
    """The bounds on frequency and duration that the conditioning is built from, against LAL's."""
    m1 = c["m1"]
    spins = (-0.99, -0.5, -0.1, 0.0, 0.3, 0.7, 0.9, 0.99)
    k1 = m1 * lal.MSUN_SI
    for m2 in (1.0, 1.4, 3.0, 10.0, 30.0, 80.0, 200.0):
        k2 = m2 * lal.MSUN_SI
        grid = list(itertools.product(spins, spins, (5.0, 15.0, 20.0, 60.0)))
        x, y, f = torch.tensor(grid, dtype=torch.float64).T
        a, b = torch.full_like(f, m1 * MSUN), torch.full_like(f, m2 * MSUN)
        with ctx.case(m2=m2, bound="chirp time"):
            want = torch.tensor([ls.SimInspiralChirpTimeBound(g[2], k1, k2, g[0], g[1]) for g in grid])
            same(ctx, ctx.call(utils.chirp_time_bound, f, a, b, x, y), want, "chirp time bound")
        with ctx.case(m2=m2, bound="start frequency"):
            t = torch.tensor([1e-3, 0.1, 1.0, 10.0, 100.0, 1e4], dtype=torch.float64)
            want = torch.tensor([ls.SimInspiralChirpStartFrequencyBound(float(v), k1, k2) for v in t])
            same(ctx, ctx.call(utils.chirp_start_frequency_bound, t, a[:6], b[:6]), want, "start frequency bound")
        with ctx.case(m2=m2, bound="merge time and last stable orbit"):
            same(ctx, ctx.call(utils.merge_time_bound, a[:2], b[:2]),
                 torch.full((2,), ls.SimInspiralMergeTimeBound(k1, k2), dtype=torch.float64), "merge time bound")
            fisco = 1.0 / (9.0 ** 1.5 * math.pi * (m1 + m2) * lal.MTSUN_SI)
            same(ctx, ctx.call(utils.frequency_isco, a[:2], b[:2]), torch.full((2,), fisco, dtype=torch.float64), "last stable orbit")
        with ctx.case(m2=m2, bound="ringdown"):
            s = torch.tensor([-0.5, 0.0, 0.3, 0.7, 0.9, 0.998], dtype=torch.float64)
            want = torch.tensor([ls.SimInspiralRingdownTimeBound(k1 + k2, float(v)) for v in s])
            same(ctx, ctx.call(utils.ringdown_time_bound, a[:6] + b[:6], s), want, "ringdown time bound")
    for dt, tol in ((torch.float64, 1e-12), (torch.float32, 1e-6)):
        with ctx.case(bound="final spin", dtype=dt):
            g = list(itertools.product(spins, spins))
            x, y = torch.tensor(g, dtype=dt).T
            want = torch.tensor([ls.SimInspiralFinalBlackHoleSpinBound(*v) for v in g], dtype=torch.float64)
            got = ctx.call(utils.final_black_hole_spin_bound, x, y)
            ctx.close(got.double(), want, "final spin bound", rtol=tol)


def same(ctx, got, want, what):
    """Element by element (the bounds span many decades)."""
    ctx.require(tuple(got.shape) == tuple(want.shape), f"{what}: one value per source, got {tuple(got.shape)}")
    ctx.close(got.double() / want, torch.ones_like(want), f"{what} relative to LAL's", rtol=2e-6)


def run_place(ctx, c):
    """The coalescence sits right_pad from the end, for every right pad and every buffer geometry."""
    for sr, fmin, i in itertools.product((c["sr"],), (20.0, 30.0), (0, 1, 5, 8)):
        ref = None
        for rp in (0.25, 0.4, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 3.5):
            with ctx.case(sr=sr, f_min=fmin, source=i, right_pad=rp):
                pos = []
                for dur in (4.0, 8.0):
                    got = generate(ctx, "IMRPhenomD", sr, fmin, rp, dur, [SRC[i]])[0]
                    amp = (got ** 2).sum(0)
                    k = int(amp.argmax())
                    pos.append(got.shape[-1] - round(rp * sr) - k)
                    lo = k + int(0.2 * sr)
                    if rp >= 0.25 and lo < len(amp):
                        ctx.require(amp[lo:].max() < 1e-2 ** 2 * 4 * amp.max(), "nothing follows the ringdown")
                pulse = generate(ctx, "Flat", sr, fmin, rp, 4.0, [SRC[i]])[0, 1]
                k = len(pulse) - int(pulse.abs().argmax())
                ctx.require(k == round(rp * sr), f"pulse at the coalescence is {k} samples from the end")
                ctx.require(abs(pos[0] - pos[1]) <= 1, f"coalescence does not move with the duration: {pos}")
                ref = pos[0] if ref is None else ref
                ctx.require(abs(pos[0] - ref) <= 1, f"coalescence offset {pos[0]} samples, {ref} for the first right pad")
                ctx.require(abs(pos[0]) <= 0.05 * sr, f"coalescence {pos[0]} samples away from right_pad")


def run_cell(c, ctx):
    globals()["run_" + c["k"]](ctx, c)
