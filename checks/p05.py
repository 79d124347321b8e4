"""P05: InMemoryDataset visits exactly the promised windows."""
import itertools
import math
from collections import Counter

import numpy as np
import torch
from mc.data import noise, ramp, relayout
from mc.rng import PATTERNS, explore, patterned
from ml4gw.dataloading import InMemoryDataset

BOUNDS = ("series length 2..7, kernel and stride 1..3, batch 1..4, 1..3 batches or unlimited: every "
          "random answer up to 150 (thorough 5000) sequences per configuration (patterns beyond); all interleavings of two "
          "iterators over two epochs; consumers that overwrite batches")


def cells(tier):
    top = 7 if tier == "quick" else 9
    out = [dict(k="cfg", T=t, kern=q) for t in range(2, top + 1) for q in range(1, min(t, 4) + 1)]
    out += [dict(k="inter", coin=c, shuf=s, y=y) for c in (True, False) for s in (True, False)
            for y in (True, False) if c or not y]
    out += [dict(k="big", T=t) for t in (129, 1030, 4097)]
    out += [dict(k="huge", coin=c) for c in (True, False)]
    return out


def starts_of(ctx, X, rows, k):
    """Map every returned window back to the start index of each channel (X is a ramp)."""
    C, T = X.shape
    ctx.require(tuple(rows.shape[1:]) == (C, k), f"window shape {tuple(rows.shape[1:])}")
    base = torch.arange(C) * T + 1
    st = (rows[:, :, 0] - base).long()
    ctx.require(bool(((st >= 0) & (st <= T - k)).all()), "window value not from its channel")
    want = (st + base)[:, :, None] + torch.arange(k)
    ctx.require(torch.equal(rows, want.to(rows.dtype)), "window is not a contiguous slice")
    return [tuple(r) for r in st.tolist()]


def check_epoch(ctx, X, y, cfg, batches, nlen):
    k, stride, B, bpe, coin, shuf = cfg
    nk = (X.shape[1] - k) // stride + 1
    total = B * bpe if bpe is not None else nk
    sizes = [B] * (total // B) + ([total % B] if total % B else [])
    ctx.require(nlen == len(sizes), f"length {nlen}, expected {len(sizes)} batches")
    ctx.require(len(batches) == len(sizes), f"{len(batches)} batches, expected {len(sizes)}")
    order = []
    for b, n in zip(batches, sizes):
        xb = b[0] if y is not None else b
        ctx.require(isinstance(xb, torch.Tensor) and len(xb) == n,
                    f"batch of {len(xb)} windows, expected {n}")
        st = starts_of(ctx, X, xb, k)
        if y is not None:
            ctx.require(b[1].dtype == y.dtype, "target dtype changed")
            ctx.equal(b[1], torch.stack([y[s[0]:s[0] + k] for s in st]), "targets")
        order += st
    for s in order:
        ctx.require(all(i % stride == 0 for i in s), f"start {s} off the stride")
        if coin:
            ctx.require(len(set(s)) == 1, f"channels not coincident: {s}")
    if coin:
        ctx.require(len(set(order)) == len(order), "a window was repeated")
        if not shuf:
            ctx.require([s[0] for s in order] == [i * stride for i in range(total)],
                        "windows out of time order")
    elif not shuf:
        want = list(itertools.islice(itertools.product(range(nk), repeat=len(X)), total))
        ctx.require(order == [tuple(i * stride for i in w) for w in want], "order of channels")
    return order


def build(X, y, cfg):
    k, stride, B, bpe, coin, shuf = cfg
    return InMemoryDataset(X, k, y=y, batch_size=B, stride=stride, batches_per_epoch=bpe,
                           coincident=coin, shuffle=shuf)


def run_cell(cell, ctx):
    if cell["k"] == "cfg":
        T, k = cell["T"], cell["kern"]
        for C, stride, B, bpe, coin, shuf, wy in itertools.product(
                (1, 2), (1, 2, 3), (1, 2, 3, 4), (None, 1, 2, 3), (True, False), (True, False),
                (False, True)):
            X = ramp((C, T))
            y = ramp((T,), start=500) if wy else None
            cfg = (k, stride, B, bpe, coin, shuf)
            nk = (T - k) // stride + 1
            desc = dict(C=C, stride=stride, B=B, bpe=bpe, coin=coin, shuf=shuf, y=wy)
            if (wy and not coin) or (not coin and bpe is None) or (
                    bpe is not None and nk < B * bpe):
                with ctx.case(invalid=True, **desc):
                    ctx.raises(ValueError, build, X, y, cfg)
                continue
            total = nk if bpe is None else B * bpe
            if not shuf:
                space = 1
            elif coin:
                space = math.factorial(nk)
            else:
                space = nk ** (total * C)
            with ctx.case(**desc):
                def body(ch):
                    ds = build(X, y, cfg)
                    n = len(ds)
                    out = []
                    for b in ds:
                        out.append(b if y is not None else b.clone())
                        if y is None and total <= 4:
                            b.fill_(-1)  # a consumer may overwrite its batch
                    ctx.step(len(out))
                    return out, n
                seen = Counter()
                if space <= (150 if ctx.tier == "quick" else 5000):
                    for ch, (st, res) in explore(body):
                        if st == "err":
                            raise res
                        seen[tuple(check_epoch(ctx, X, y, cfg, *res))] += 1
                    ctx.count("executions", sum(seen.values()))
                    if shuf and coin:
                        want = set(itertools.permutations([(i * stride,) * C for i in range(nk)],
                                                          total))
                    elif shuf:
                        want = set(itertools.product(itertools.product(
                            range(0, nk * stride, stride), repeat=C), repeat=total))
                    else:
                        want = set(seen)
                    ctx.require(set(seen) == want, f"{len(seen)} orders reached of {len(want)}")
                    ctx.require(len(set(seen.values())) == 1, "orders not equally likely")
                else:
                    for rule in PATTERNS:
                        _, res = patterned(body, rule)
                        check_epoch(ctx, X, y, cfg, *res)
                        ctx.count("patterned")
                ctx.equal(X, ramp((C, T)), "source data")
                ctx.state("orders", str(desc), len(seen))
        with ctx.case(arguments="mismatched target"):
            ctx.raises(ValueError, InMemoryDataset, ramp((2, T)), k, ramp((T + 1,)))
    elif cell["k"] == "huge":
        # windows far beyond what single precision indices can address, each with its own label
        stride, k, coin = 2**22 + 1, 9, cell["coin"]
        T = 8 * stride + k + 3
        X = torch.zeros(2, T)
        for w in range(9):
            for c in range(2):
                X[c, w * stride:w * stride + k] = 1000 * c + 100 * w + torch.arange(k) + 1.0
        y = X[0].double() if coin else None
        for shuf, bpe, rule in itertools.product((True, False), (None, 2), ("low", "high", ("lcg", 1), ("lcg", 2))):
            if not coin and bpe is None:
                continue
            with ctx.case(stride=stride, shuffle=shuf, batches=bpe, rule=rule):
                def body(ch):
                    ds = build(X, y, (k, stride, 4, bpe, coin, shuf))
                    return list(ds), len(ds)
                _, (out, n) = patterned(body, rule)
                ctx.step(n)
                ctx.require(n == len(out) == (bpe or 3), f"{len(out)} batches")
                starts = []
                for b in out:
                    xb = b[0] if coin else b
                    wi = ((xb[:, :, 0] - 1) % 1000 / 100).long()
                    want = (100 * wi + 1000 * torch.arange(2)).unsqueeze(-1) + torch.arange(k) + 1.0
                    ctx.equal(xb, want, "windows")
                    if coin:
                        ctx.equal(b[1], xb[:, 0].double(), "targets")
                        ctx.require(bool((wi == wi[:, :1]).all()), "channels not coincident")
                    starts += [tuple(r) for r in wi.tolist()]
                if coin:
                    ctx.require(len(set(starts)) == len(starts), "a window was repeated")
                if coin and not shuf:
                    ctx.require(starts == [(i, i) for i in range(len(starts))], "out of order")
    elif cell["k"] == "inter":
        for stride, (B, bpe) in itertools.product((1, 2), ((2, 2), (3, None), (1, 3))):
            if bpe is None and not cell["coin"]:
                continue
            T = 9 if stride == 1 else 16  # seven windows
            X = ramp((2, T))
            y = ramp((T,), torch.float64, start=500) if cell["y"] else None
            cfg = (3, stride, B, bpe, cell["coin"], cell["shuf"])
            nb = bpe or math.ceil(7 / B)
            for rule in ("ramp", ("lcg", 1), "high"):
                for order in sorted(set(itertools.permutations("A" * nb + "C" * nb))):
                    with ctx.case(stride=stride, B=B, bpe=bpe, rule=rule, order="".join(order)):
                        def body(ch):
                            ds = build(X, y, cfg)
                            its = {}
                            got = {"A": [], "C": []}
                            for w in order:
                                if w not in its:
                                    its[w] = iter(ds)
                                got[w].append(next(its[w]))
                                ctx.step()
                            for w in its:
                                ctx.require(next(its[w], None) is None, "too many batches")
                            return got, len(ds)
                        _, (got, n) = patterned(body, rule)
                        for w in "AC":
                            check_epoch(ctx, X, y, cfg, got[w], n)
            # abandoned iterators and several epochs
            for taken in range(nb + 1):
                with ctx.case(stride=stride, B=B, bpe=bpe, abandoned=taken):
                    def body(ch):
                        ds = build(X, y, cfg)
                        it = iter(ds)
                        for _ in range(taken):
                            next(it)
                        return [list(ds) for _ in range(3)], len(ds)
                    _, (eps, n) = patterned(body, ("lcg", 2))
                    for e in eps:
                        check_epoch(ctx, X, y, cfg, e, n)
    else:
        T = cell["T"]
        for C, k, stride, B, bpe, coin, shuf, lay in itertools.product(
                (1, 3), (1, 33), (1, 7), (32, 129), (None, 1), (True, False), (True, False),
                ("c", "strided", "transposed")):
            if (not coin and bpe is None) or (bpe and (T - k) // stride + 1 < B):
                continue
            cfg = (k, stride, B, bpe, coin, shuf)
            with ctx.case(C=C, cfg=cfg, layout=lay):
                X = relayout(ramp((C, T)), lay)
                y = ramp((T,), torch.float64, start=9e5) if coin else None
                _, res = patterned(lambda ch: (list(ds := build(X, y, cfg)), len(ds)), ("lcg", 3))
                if T < 1000 or not shuf:
                    check_epoch(ctx, X, y, cfg, *res)
                else:
                    res = ([b for b in res[0]], res[1])
                    check_epoch(ctx, X, y, cfg, *res)
        with ctx.case(source="numpy"):
            a = ramp((2, T)).numpy().astype(np.float64)
            ds = InMemoryDataset(a, 5, shuffle=False)
            check_epoch(ctx, ramp((2, T)), None, (5, 1, 32, None, True, False), list(ds), len(ds))
