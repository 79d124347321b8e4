"""P16: waveform sampling keeps parameters and polarizations together."""
import itertools
from collections import Counter

import numpy as np
import torch
from mc.data import LAYOUTS, relayout
from mc.rng import PATTERNS, explore, patterned
from ml4gw.gw import compute_observed_strain, get_ifo_geometry
from ml4gw.transforms import WaveformProjector, WaveformSampler

BOUNDS = ("banks of 1..4 waveforms, 1..3 polarizations, 0..3 parameters, requests -1,0..bank+2: every "
          "random answer; histories of 3 requests with consumers that overwrite what they receive; "
          "bank of 1000 under 7 answer patterns")
POLS = ("plus", "cross", "breathing")


def bank(n, npol, T, npar):
    """Row r of polarization p at time t holds (p, r, t) exactly; parameters hold the row."""
    pols = {POLS[p]: (torch.arange(n).view(n, 1) * 1000 + torch.arange(T) + 2_000_000 * p).float()
            for p in range(npol)}
    par = None if npar is None else torch.arange(n).view(n, 1).float() + 0.125 * torch.arange(npar)
    return pols, par


def cells(tier):
    out = [dict(k="all", n=n, npol=p, npar=q) for n in (1, 2, 3, 4) for p in (1, 2, 3)
           for q in (None, 1, 3)]
    out += [dict(k="big"), dict(k="invalid")]
    return out


def check_draw(ctx, res, n, N, npol, T, npar):
    waves, par = res if npar is not None else (res, None)
    ctx.require(list(waves) == list(POLS[:npol]), f"polarizations {list(waves)}")
    rows = (waves["plus"][:, 0] // 1000).long()
    ctx.require(len(rows) == N and bool(((rows >= 0) & (rows < n)).all()), f"rows {rows.tolist()}")
    for p in range(npol):
        want = rows.view(-1, 1) * 1000 + torch.arange(T) + 2_000_000 * p
        ctx.equal(waves[POLS[p]], want.float(), f"{POLS[p]} of the sampled rows")
    if par is not None:
        ctx.equal(par, rows.view(-1, 1).float() + 0.125 * torch.arange(npar), "parameters of the rows")
    return tuple(rows.tolist())


def run_cell(cell, ctx):
    if cell["k"] == "all":
        n, npol, npar = cell["n"], cell["npol"], cell["npar"]
        T = 7
        for N in range(0, n + 1):
            with ctx.case(N=N):
                pols, par = bank(n, npol, T, npar)
                s = WaveformSampler(par, **pols)
                seen = Counter()
                for ch, (st, res) in explore(lambda ch: s(N)):
                    ctx.step()
                    if st == "err":
                        raise res
                    seen[check_draw(ctx, res, n, N, npol, T, npar)] += 1
                    for t in (res[0] if npar is not None else res).values():
                        t.fill_(-1)  # a consumer may overwrite its sample
                    if npar is not None:
                        res[1].fill_(-1)
                reach = {r for d in seen for r in d}
                ctx.require(N == 0 or reach == set(range(n)), f"rows never drawn: {reach}")
                for pos in range(N):
                    cnt = Counter()
                    for d, c in seen.items():
                        cnt[d[pos]] += c
                    ctx.require(len(set(cnt.values())) == 1, "rows not equally likely")
        for hist in itertools.product((-1, 1, n), repeat=3):
            for rule in PATTERNS:
                with ctx.case(hist=hist, rule=rule):
                    pols, par = bank(n, npol, T, npar)
                    s = WaveformSampler(par, **pols)

                    def body(ch):
                        return [ctx.call(s, N, keep=True, label=f"request {N}") for N in hist]
                    _, outs = patterned(body, rule)
                    for N, res in zip(hist, outs):
                        rows = check_draw(ctx, res, n, n if N == -1 else N, npol, T, npar)
                        if N == -1:
                            ctx.require(rows == tuple(range(n)), f"all rows in order, got {rows}")
                    # a full request must hand out copies
                    for t in (outs[0][0] if npar is not None else outs[0]).values():
                        t.fill_(-3)
                    ctx._kept = []
                    check_draw(ctx, patterned(lambda ch: s(-1), rule)[1], n, n, npol, T, npar)
        for N in (n + 1, n + 2):
            with ctx.case(N=N, invalid=True):
                pols, par = bank(n, npol, T, npar)
                ctx.raises(ValueError, WaveformSampler(par, **pols), N)
        # sampling then projecting with the returned sky parameters
        if npar == 3:
            for rule in PATTERNS:
                with ctx.case(project=rule):
                    pols, par = bank(n, npol, 32, 3)
                    pols = {k: v / 1000 for k, v in pols.items()}
                    par = par * 0.3
                    s, pr = WaveformSampler(par, **pols), WaveformProjector(["H1", "L1"], 256)
                    w, q = patterned(lambda ch: s(n), rule)[1]
                    got = ctx.call(pr, *q.T, **w)
                    tens, verts = get_ifo_geometry("H1", "L1")
                    for i in range(n):
                        r = int((par[:, 0] - q[i, 0]).abs().argmin())
                        one = compute_observed_strain(
                            *(par[r:r + 1, j] for j in range(3)), tens, verts, 256,
                            **{k: v[r:r + 1] for k, v in pols.items()})
                        ctx.close(got[i], one[0], f"projection of row {r}", rtol=1e-5)
    elif cell["k"] == "big":
        for lay in LAYOUTS:
            for rule in PATTERNS:
                with ctx.case(layout=lay, rule=rule):
                    pols, par = bank(1000, 2, 129, 3)
                    s = WaveformSampler(relayout(par, lay),
                                        **{k: relayout(v, lay) for k, v in pols.items()})
                    res = patterned(lambda ch: ctx.call(s, 257), rule)[1]
                    check_draw(ctx, res, 1000, 257, 2, 129, 3)
                    res = patterned(lambda ch: ctx.call(s, -1), rule)[1]
                    check_draw(ctx, res, 1000, 1000, 2, 129, 3)
        # polarizations and parameters that lie differently in memory
        for lays in itertools.product(LAYOUTS, repeat=3):
            for rule in ("alt", ("lcg", 1)):
                with ctx.case(layouts=lays, rule=rule):
                    pols, par = bank(40, 2, 17, 3)
                    s = WaveformSampler(relayout(par, lays[0]), plus=relayout(pols["plus"], lays[1]),
                                        cross=relayout(pols["cross"], lays[2]))
                    for N in (9, -1, 40):
                        res = patterned(lambda ch, N=N: ctx.call(s, N), rule)[1]
                        check_draw(ctx, res, 40, 40 if N == -1 else N, 2, 17, 3)
        with ctx.case(numpy=True):
            pols, par = bank(10, 2, 5, 2)
            s = WaveformSampler(par, **{k: v.numpy().astype(np.float64) for k, v in pols.items()})
            check_draw(ctx, patterned(lambda ch: s(4), "ramp")[1], 10, 4, 2, 5, 2)
    else:
        for a, b in itertools.product(range(1, 4), repeat=2):
            with ctx.case(a=a, b=b):
                mk = lambda: WaveformSampler(None, plus=torch.ones(a, 3), cross=torch.ones(b, 3))  # noqa
                mk2 = lambda: WaveformSampler(torch.ones(b, 2), plus=torch.ones(a, 3))  # noqa
                for f in (mk, mk2):
                    if a == b:
                        f()
                        ctx.step()
                    else:
                        ctx.raises(ValueError, f)
