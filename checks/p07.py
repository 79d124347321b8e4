"""P07: Hdf5TimeSeriesDataset windows come from the right file, channel and time."""
import itertools
import os
import pickle
import shutil
import tempfile
from collections import Counter, defaultdict

import h5py
import numpy as np
import torch
from mc.rng import PATTERNS, explore, patterned
from ml4gw.dataloading import Hdf5TimeSeriesDataset

BOUNDS = ("up to 3 files of length window..window+3, 1..3 channels, batch 1..3, all coincidence modes "
          "and files-per-batch limits: every random answer up to 3000 sequences per configuration "
          "(patterns beyond); 0..5 workers x 1..7 batches; two interleaved iterators")
MODES = (True, False, "files")


def cells(tier):
    out = [dict(k="all", sizes=s, c=c, mode=m) for s in ((0,), (1,), (0, 1), (1, 1), (2, 0), (0, 1, 2))
           for c in (1, 2) for m in MODES]
    out += [dict(k="pat", c=c, mode=m, chunked=ck) for c in (1, 2, 3) for m in MODES
            for ck in (True, False)]
    out += [dict(k="workers"), dict(k="inter"), dict(k="huge")]
    return out


def label(f, c, t):
    return (f * 8 + c) * 10_000 + t


def write(folder, sizes, nch, chunked=True, names=None):
    paths = []
    for f, n in enumerate(sizes):
        # files may share their base name, and need not be listed in alphabetical order
        p = os.path.join(folder, names[f] if names else f"{'zam'[f % 3]}{f}/data.h5")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with h5py.File(p, "w") as h:
            for c in range(nch):
                h.create_dataset(f"ch{c}", data=label(f, c, np.arange(n)).astype("float64"),
                                 chunks=(max(1, min(n, 4)),) if chunked else None)
        paths.append(p)
    return paths


def check_batch(ctx, x, sizes, chans, B, K, mode, nfpb):
    C = len(chans)
    ctx.require(tuple(x.shape) == (B, C, K), f"batch shape {tuple(x.shape)}, expected {(B, C, K)}")
    v = x[:, :, 0].double().long()
    f, c, t = v // 80_000, v // 10_000 % 8, v % 10_000
    ctx.require(bool((c == torch.tensor(chans)).all()), f"window of another channel: {c.tolist()}")
    ctx.require(bool((f < len(sizes)).all()), "unknown file")
    room = torch.tensor(sizes)[f] - K
    ctx.require(bool((t <= room).all()), "window runs past the end of its file")
    ctx.require(torch.equal(x.double(), x[:, :, :1].double() + torch.arange(K)),
                "window is not contiguous")
    if mode is not False:
        ctx.require(bool((f == f[:, :1]).all()), f"channels from different files: {f.tolist()}")
    if mode is True:
        ctx.require(bool((t == t[:, :1]).all()), f"channels not coincident: {t.tolist()}")
    ctx.require(len(set(f.reshape(-1).tolist())) <= nfpb, "too many distinct files in one batch")
    return tuple(map(tuple, f.tolist())), tuple(map(tuple, t.tolist()))


def run_cell(cell, ctx):
    folder = tempfile.mkdtemp(prefix="p07-")
    try:
        run(cell, ctx, folder)
    finally:
        shutil.rmtree(folder)


def run(cell, ctx, folder):
    if cell["k"] == "all":
        K, nch, mode = 3, cell["c"], cell["mode"]
        sizes = [K + s for s in cell["sizes"]]
        paths = write(folder, sizes, nch)
        for nfpb in (None, *range(1, len(sizes) + 1)):
            for B in (1, 2):
                ds = Hdf5TimeSeriesDataset(paths, [f"ch{i}" for i in range(nch)], K, B, 1, mode, nfpb)
                lim = nfpb or len(sizes)
                m = B * (nch if mode is False else 1)
                tm = B * (1 if mode is True else nch)
                space = max(1, len(sizes)) ** (m + (len(sizes) > 1) * lim) * (
                    max(cell["sizes"]) + 1) ** tm
                with ctx.case(nfpb=nfpb, B=B):
                    full = space <= (3000 if ctx.tier == "quick" else 60000)
                    seen, marg = Counter(), defaultdict(float)
                    total = 0.0
                    exact = True

                    def body(ch):
                        ctx.step()
                        out = list(ds)
                        ctx.require(len(out) == 1, f"{len(out)} batches")
                        return out[0]
                    runs = explore(body) if full else (
                        (c, ("ok", r)) for c, r in (patterned(body, r) for r in PATTERNS))
                    for ch, (st, res) in runs:
                        if st == "err":
                            raise res
                        f, t = check_batch(ctx, res, sizes, range(nch), B, K, mode, lim)
                        seen[f, t] += 1
                        ctx.count("executions")
                        if full:
                            if ch.prob is None:
                                exact = False
                            else:
                                total += ch.prob
                                for row in f:
                                    marg[row[0]] += ch.prob / B
                    if full:
                        # every window of every file must be reachable
                        got = {(f[b][c], t[b][c], b, c) for f, t in seen for b in range(B)
                               for c in range(nch)}
                        want = {(f, s, b, c) for f, n in enumerate(sizes) for s in range(n - K + 1)
                                for b in range(B) for c in range(nch)}
                        ctx.require(got == want, f"never drawn: {sorted(want - got)[:3]}")
                        if mode is not True and nch > 1:
                            ctx.require(any(len(set(t[0])) > 1 for f, t in seen) or
                                        max(sizes) == K, "channels never independent in time")
                        if mode is False and nch > 1 and lim > 1:
                            ctx.require(any(len(set(f[0])) > 1 for f, t in seen),
                                        "channels never drawn from different files")
                        if B > 1 and lim > 1:
                            ctx.require(any(f[0] != f[1] for f, t in seen),
                                        "batch elements always share the file")
                        if exact:
                            ctx.require(abs(total - 1) < 1e-9, f"probabilities sum to {total}")
                            if lim == len(sizes):
                                for i, n in enumerate(sizes):
                                    p = n / sum(sizes)
                                    ctx.require(abs(marg[i] - p) < 1e-9, f"file {i} drawn with "
                                                f"probability {marg[i]:.6f}, expected {p:.6f}")
                            else:
                                order = sorted(range(len(sizes)), key=lambda i: sizes[i])
                                for a, b in zip(order, order[1:]):
                                    ctx.require(marg[a] <= marg[b] + 1e-9,
                                                "a shorter file is drawn more often")
                    ctx.state("seen", nfpb, B, sorted(seen))
    elif cell["k"] == "pat":
        nch, mode = cell["c"], cell["mode"]
        for sizes, K in (((40, 7, 100), 7), ((9, 9, 9, 9, 9, 30), 4), ((1000,), 1000), ((5000, 33), 33)):
            # names whose sorted order differs from the given order
            names = [f"{'zyxwvu'[i]}_{i}.h5" for i in range(len(sizes))]
            sub = tempfile.mkdtemp(dir=folder)
            paths = write(sub, sizes, nch, cell["chunked"], names)
            for order in {tuple(range(nch)), tuple(reversed(range(nch)))}:
                for B in (1, 5, 33):
                    for nfpb in {None, 1, max(1, len(sizes) - 1)}:
                        ds = Hdf5TimeSeriesDataset(paths, [f"ch{i}" for i in order], K, B, 2, mode,
                                                   nfpb)
                        for rule in PATTERNS:
                            with ctx.case(sizes=sizes, K=K, order=order, B=B, nfpb=nfpb, rule=rule):
                                out = patterned(lambda ch: list(ds), rule)[1]
                                ctx.step(len(out))
                                ctx.require(len(out) == 2 == len(ds), "batches per epoch")
                                for x in out:
                                    ctx.require(x.dtype == torch.float32, "dtype")
                                    check_batch(ctx, x, sizes, order, B, K, mode,
                                                nfpb or len(sizes))
    elif cell["k"] == "huge":
        # only the end of a long file carries labels: starts beyond single precision indices
        T, K, tail = 2**25 + 7, 9, 64
        path = os.path.join(folder, "long.h5")
        with h5py.File(path, "w") as h:
            for c in range(2):
                d = h.create_dataset(f"ch{c}", shape=(T,), dtype="float32")
                d[T - tail:] = 1000.0 * (c + 1) + np.arange(tail)
        for mode in MODES:
            for rule in PATTERNS:
                with ctx.case(length=T, mode=mode, rule=rule):
                    ds = Hdf5TimeSeriesDataset([path], ["ch0", "ch1"], K, 3, 2, mode)
                    out = patterned(lambda ch: list(ds), rule)[1]
                    ctx.step(len(out))
                    for x in out:
                        ctx.require(tuple(x.shape) == (3, 2, K), "shape")
                        if rule == "high":
                            want = 1000.0 * torch.arange(1, 3)[:, None] + torch.arange(tail - K, tail)
                            ctx.equal(x, want.expand(3, 2, K), "last window")
                        else:
                            for e in x:
                                for c, row in enumerate(e):
                                    lead = int((row == 0).sum())
                                    want = torch.arange(K - lead) + row[min(lead, K - 1)]
                                    ctx.equal(row[lead:], want, "window is not contiguous")
                    ctx.require(len(out) == 2, "batches")
    elif cell["k"] == "workers":
        paths = write(folder, (5, 6), 1)
        import torch.utils.data as tud
        for nb in range(1, 8):
            ds = Hdf5TimeSeriesDataset(paths, ["ch0"], 3, 2, nb, True)
            with ctx.case(batches=nb, workers=0):
                out = patterned(lambda ch: list(ds), "ramp")[1]
                ctx.require(len(out) == nb == len(ds), f"{len(out)} batches")
            for w in range(1, 6):
                with ctx.case(batches=nb, workers=w):
                    tot = []
                    for i in range(w):
                        # the loader's own per-worker information record
                        tud._utils.worker._worker_info = tud._utils.worker.WorkerInfo(
                            id=i, num_workers=w, seed=0, dataset=ds)
                        try:
                            tot.append(len(patterned(lambda ch: list(ds), "ramp")[1]))
                        finally:
                            tud._utils.worker._worker_info = None
                        ctx.step()
                    ctx.require(sum(tot) == nb, f"workers yield {tot}, expected total {nb}")
                    ctx.require(max(tot) - min(tot) <= 1, f"uneven split {tot}")
        for w, nb in ((0, 3), (2, 5), (3, 2)):
            with ctx.case(real_loader=w, batches=nb):
                ds = Hdf5TimeSeriesDataset(paths, ["ch0"], 3, 2, nb, True)
                out = list(tud.DataLoader(ds, batch_size=None, num_workers=w))
                ctx.require(len(out) == nb, f"loader yields {len(out)} batches")
                for x in out:
                    check_batch(ctx, x, (5, 6), [0], 2, 3, True, 2)
        # with the library's own generators: no two workers, epochs or iterators may draw the same windows
        # (16 starts out of 9000 agree by chance with probability below 1e-60)
        paths = write(os.path.join(folder, "long"), (9003,), 1, False)
        for w, make in itertools.product((0, 2, 3), (True, False)):
            with ctx.case(independent=w, pickled=make):
                ds = Hdf5TimeSeriesDataset(paths, ["ch0"], 3, 16, 6, True)
                if make:
                    ds = pickle.loads(pickle.dumps(ds))
                seen = []
                for epoch in range(3):
                    for x in tud.DataLoader(ds, batch_size=None, num_workers=w):
                        check_batch(ctx, x, (9003,), [0], 16, 3, True, 1)
                        seen.append(tuple(x[:, 0, 0].tolist()))
                        ctx.step()
                ctx.require(len(seen) == 18, f"{len(seen)} batches in three epochs")
                ctx.require(len(set(seen)) == 18, "workers or epochs repeat each other's batches")
        with ctx.case(invalid=True):
            ctx.raises(ValueError, Hdf5TimeSeriesDataset, paths, ["ch0"], 3, 2, 1, "file")
            ctx.raises(ValueError, Hdf5TimeSeriesDataset, paths, ["ch0"], 3, 2, 1, True, 2)
    else:
        paths = write(folder, (5, 9), 2)
        for mode in MODES:
            for order in sorted(set(itertools.permutations("AAACCC"))):
                with ctx.case(mode=mode, order="".join(order)):
                    def body(ch):
                        ds = Hdf5TimeSeriesDataset(paths, ["ch0", "ch1"], 4, 2, 3, mode)
                        its = {}
                        for w in order:
                            it = its.setdefault(w, iter(ds))
                            x = ctx.call(next, it, label=w)
                            check_batch(ctx, x, (5, 9), [0, 1], 2, 4, mode, 2)
                        for it in its.values():
                            ctx.require(next(it, None) is None, "too many batches")
                        ctx.require(len(list(ds)) == 3, "second epoch")
                    patterned(body, ("lcg", 1))
