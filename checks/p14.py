"""P14: signal-to-noise ratios, reweighting and rescaling."""
import itertools

import numpy as np
import scipy.signal
import torch
from mc.data import DT, LAYOUTS, noise, relayout, unif
from mc.rng import explore, patterned
from ml4gw.gw import compute_ifo_snr, compute_network_snr, reweight_snrs
from ml4gw.transforms import SnrRescaler

BOUNDS = ("lengths 16..4096 (odd and even), 1..4 interferometers, 1..4 waveforms, cut-offs none/float/"
          "mask on and off bins, 1/2/3-dimensional and resampled spectra, scales to 1e-22, every "
          "permutation the rescaler can draw for up to 4 waveforms")


def cells(tier):
    ns = (16, 17, 32, 65) if tier == "quick" else (16, 17, 18, 31, 32, 33, 64, 65, 128, 255)
    out = [dict(k="grid", N=n, sr=sr) for n in ns for sr in (8, 64, 100.0)]
    out += [dict(k="layout", dt=d) for d in DT]
    out += [dict(k="rescaler", C=c, hp=h, lp=l) for c in (1, 2, 3)
            for h, l in ((None, None), (3, None), (None, 12), (3, 12))]
    out += [dict(k="big")]
    return out


def ref(h, psd, sr, hp, lp):
    h, psd = h.double().numpy(), psd.double().numpy()
    n = h.shape[-1]
    H = np.fft.rfft(h) / sr
    f = np.arange(H.shape[-1]) * sr / n
    keep = np.ones_like(f)
    if hp is not None:
        keep = keep * (f >= hp)
    if lp is not None:
        keep = keep * (f < lp)
    rho2 = 4 * np.sum(np.abs(H) ** 2 / psd * keep, -1) * sr / n
    return torch.as_tensor(np.sqrt(rho2))


def run_cell(cell, ctx):
    if cell["k"] == "grid":
        N, sr = cell["N"], cell["sr"]
        F, df = N // 2 + 1, sr / N
        freqs = torch.arange(F, dtype=torch.float64) * df
        for B, C in itertools.product((1, 2, 4), (1, 2, 4)):
            h = noise((B, C, N), key=("h", N)) * torch.arange(1, B + 1).view(-1, 1, 1)
            for pdim, (hk, lk) in itertools.product(
                    (1, 2, 3), ((None, None), (0.5, None), (2.5, None), (None, 2.5),
                                (None, F - 1.5), (1.5, F - 2.5), (3.5, 3.7), (0, F), (1.5, F - 1.9),
                                (0.9, F - 1.1), (2.1, 3.9), (F - 3.1, F - 1.9), (F - 2.9, None))):
                hp = None if hk is None else hk * df
                lp = None if lk is None else lk * df
                psd = unif(((), (C,), (B, C))[pdim - 1] + (F,), 0.5, 3, torch.float64, (N, pdim))
                want = ref(h, psd, sr, hp, lp)
                net = (want**2).sum(-1).sqrt()
                with ctx.case(B=B, C=C, pdim=pdim, hp=hk, lp=lk):
                    masks = [None if hp is None else freqs >= hp, None if lp is None else freqs < lp]
                    for a, b in ((hp, lp), (masks[0], masks[1]), (masks[0], lp), (hp, masks[1])):
                        got = ctx.call(compute_ifo_snr, h, psd, sr, a, b)
                        ctx.close(got, want, "interferometer ratio", rtol=1e-5, atol=1e-7)
                        got = ctx.call(compute_network_snr, h, psd, sr, a, b)
                        ctx.close(got, net, "network ratio", rtol=1e-5, atol=1e-7)
                    if bool((net > 0).all()):
                        for tgt in (8.0, unif((B,), 4, 30, key="t"), torch.full((B,), 1e-3)):
                            out = ctx.call(reweight_snrs, h, tgt, psd, sr, hp, lp)
                            w = torch.as_tensor(tgt, dtype=torch.float64) / net
                            ctx.close(out, h.double() * w.view(-1, 1, 1) if w.ndim else h.double() *
                                      w[..., None, None], "reweighted", rtol=1e-5)
                            ctx.close(ref(out, psd, sr, hp, lp).pow(2).sum(-1).sqrt(),
                                      torch.as_tensor(tgt).double().expand(B), "target reached",
                                      rtol=1e-4, norm=False)
            with ctx.case(B=B, C=C, resampled=True):
                for M in (F // 2, 2 * F):
                    psd = unif((C, M), 0.5, 3, torch.float64, M)
                    p2 = torch.nn.functional.interpolate(psd[None], size=F, mode="linear")[0]
                    ctx.close(ctx.call(compute_ifo_snr, h, psd, sr), ref(h, p2, sr, None, None),
                              "resampled spectrum", rtol=1e-5)
            with ctx.case(B=B, C=C, invalid=True):
                psd = torch.ones(C, F, dtype=torch.float64)
                for n in (F - 1, F + 1):
                    ctx.raises(ValueError, compute_ifo_snr, h, psd, sr, torch.ones(n))
                    ctx.raises(ValueError, compute_ifo_snr, h, psd, sr, None, torch.ones(n))
    elif cell["k"] == "layout":
        dt = DT[cell["dt"]]
        for lay, pl, scale, pdim in itertools.product(LAYOUTS, LAYOUTS, (1e-22, 1.0, 1e3), (2, 3)):
            with ctx.case(layout=lay, psd_layout=pl, scale=scale, pdim=pdim):
                h = relayout((noise((3, 2, 32), torch.float64, "l") * scale).to(dt), lay)
                psd = relayout(unif(((2,), (3, 2))[pdim - 2] + (17,), 0.5, 3, torch.float64, "l")
                               * scale**2, pl)
                want = ref(h, psd, 16, 2.5, 7.2)
                ctx.close(ctx.call(compute_ifo_snr, h, psd, 16, 2.5, 7.2), want, "snr", rtol=1e-5)
                out = ctx.call(reweight_snrs, h, torch.tensor([5.0, 9.0, 50.0]), psd, 16, 2.5, 7.2)
                ctx.close(ref(out, psd, 16, 2.5, 7.2).pow(2).sum(-1).sqrt(),
                          torch.tensor([5.0, 9.0, 50.0]), "targets", rtol=1e-4, norm=False)
    elif cell["k"] == "rescaler":
        C, hp, lp, sr, dur = cell["C"], cell["hp"], cell["lp"], 32, 2
        N, F = 64, 33
        for src in ("psd", "series", "apart", "coarse"):
            r = SnrRescaler(C, sr, dur, hp, lp)
            if src in ("series", "apart"):
                bg = [noise((1000,), torch.float64, i) * (i + 1) for i in range(C)]
                r.fit(*bg, fftlength=dur, **(dict(overlap=0.0) if src == "apart" else {}))
                psd = torch.stack([torch.as_tensor(scipy.signal.welch(
                    b.numpy(), sr, "hann", N, N // 2 if src == "series" else 0, detrend="constant",
                    average="median")[1])
                    for b in bg])
            else:
                psd = unif((C, F if src == "psd" else F // 2), 0.5, 3, torch.float64, src)
                r.fit(*psd)
                if src == "coarse":
                    psd = torch.nn.functional.interpolate(psd[None], size=F)[0]
            for B in (1, 2, 3, 4):
                h = noise((B, C, N), key="h") * torch.arange(1, B + 1).view(-1, 1, 1) * 3
                snr = ref(h, psd, sr, hp, lp).pow(2).sum(-1).sqrt()
                tgt = unif((B,), 3, 40, key="tgt")
                with ctx.case(src=src, B=B, given=True):
                    out, t = ctx.call(r, h, tgt)
                    ctx.equal(t, tgt, "returned targets")
                    ctx.close(out, h.double() * (tgt / snr).view(-1, 1, 1), "rescaled", rtol=1e-5)
                with ctx.case(src=src, B=B, drawn=True):
                    seen = set()
                    for ch, (st, res) in explore(lambda ch: r(h)):
                        ctx.step()
                        if st == "err":
                            raise res
                        out, t = res
                        perm = tuple(int((snr - v).abs().argmin()) for v in t.double())
                        ctx.close(t, snr[list(perm)], "drawn targets are the batch's own ratios",
                                  rtol=1e-5)
                        ctx.require(len(set(perm)) == B, "targets are not a permutation")
                        ctx.close(out, h.double() * (t.double() / snr).view(-1, 1, 1), "rescaled",
                                  rtol=1e-5)
                        seen.add(perm)
                    ctx.require(len(seen) == len(list(itertools.permutations(range(B)))),
                                "some permutations are never drawn")
        with ctx.case(invalid=True):
            ctx.raises(ValueError, SnrRescaler(C, sr, dur).fit, *torch.ones(C + 1, F))
    else:
        for B, C, N in ((129, 2, 4097), (2, 3, 4096)):
            with ctx.case(B=B, C=C, N=N):
                h = noise((B, C, N), key="big", scale=1e-21)
                psd = unif((C, N // 2 + 1), 0.5, 3, torch.float64, "big") * 1e-46
                ctx.close(ctx.call(compute_ifo_snr, h, psd, 2048, 20.3, 1000.1),
                          ref(h, psd, 2048, 20.3, 1000.1), "snr", rtol=1e-5)
                r = SnrRescaler(C, 2048, N / 2048, 20.3, dtype=torch.float64)
                r.fit(*psd)
                out, t = patterned(lambda ch: r(h), ("lcg", 1))[1]
                ctx.close(ref(out, psd, 2048, 20.3, None).pow(2).sum(-1).sqrt(), t, "targets",
                          rtol=1e-4)
