"""P09: an element's or channel's result does not depend on what it is batched with.

For every component of the zoo the result of each element processed alone is
the model; every batch composition up to the bound (and large cyclic ones) is
run on the real code and each element's slice compared with it.  Elements that
are not-a-number, all zero or huge only ever act as neighbours.
"""
import itertools

import torch
from mc.zoo import CONTENTS, POISON, items, out_list

BOUNDS = ("every zoo component x precision x all batch compositions of length <= 3 over 4 contents and 3 poisoned "
          "neighbours (thorough: length 4 over contents), batches of 3-9, 33 and 129, all input sizes and call options, all "
          "channel compositions of length <= 3 over 3 channels")
ASSUMPTIONS = ["equality within the rounding of the precision: batched kernels may sum in another order"]
NAMES = None


def zoo():
    global NAMES
    if NAMES is None:
        NAMES = {it.name: it for it in items()}
    return NAMES


def cells(tier):
    return [dict(item=n, dtype=str(d).removeprefix("torch."), part=part)
            for n, it in zoo().items() if it.batch
            for d in it.dtypes for part in (["batch", "chan"] if it.chan else ["batch"])]


def tol(it, dtype, out):
    t = it.tol[dtype]
    return max(t, 3e-5) if out.dtype in (torch.float32, torch.complex64) else t


def agree(ctx, it, dtype, got, want, what):
    ctx.require(len(got) == len(want), f"{what}: {len(got)} outputs, {len(want)} alone")
    for j, (g, w) in enumerate(zip(got, want, strict=True)):
        ctx.require(g.dtype == w.dtype, f"{what}: output {j} is {g.dtype}, {w.dtype} alone")
        ctx.close(g, w, f"{what}, output {j}", rtol=tol(it, dtype, w))


def part_batch(ctx, it, dtype, tier, short=False):
    obj = it.obj(dtype)

    def go(es, size, ov):
        return out_list(ctx.call(it.run, obj, it.batch_of(es, dtype, size=size), keep=False, **ov))

    for size, ov in itertools.product(it.sizes, it.overrides):
        base = size == it.sizes[0] and ov == it.overrides[0]
        lab = dict(size=size, options=list(ov))
        alone = {}
        for e in range(CONTENTS):
            with ctx.case(alone=e, **lab):
                alone[e] = go((e,), size, ov)
                for o in alone[e]:
                    ctx.require(o.shape[it.bdim] == 1, f"batch of one gave {tuple(o.shape)}")
        if len(alone) < CONTENTS:
            return
        seqs = list(itertools.product(range(CONTENTS), repeat=2))
        if base and not short:
            seqs += itertools.product(range(CONTENTS), repeat=3)
            if tier == "thorough":
                seqs += itertools.product(range(CONTENTS), repeat=4)
        if it.poison:
            for n in ((2, 3) if base and not short else (2,)):
                seqs += [s for s in itertools.product((0, 1, 2, 3, *POISON), repeat=n)
                         if any(e in POISON for e in s) and any(e < CONTENTS for e in s)
                         and (n < 3 or tier == "thorough" or s.count(0) + s.count(3) == 1)]
        seqs += [tuple((i * i + i // 4) % 4 for i in range(n)) for n in ((33, 129) if base and not short else (33,))]
        # every small size, and the loudest element last
        seqs += [tuple((i * i + i // 4 + 2) % 4 for i in range(n - 1)) + (1,) for n in range(3, 10) if base or n < 6]
        # as many elements as anything else: shapes that coincide must not be confused
        dims = {n for t in it.batch_of((0,), dtype, size=size).values() for n in t.shape[1:]}
        dims |= {n for o in alone[0] for n in o.shape} | ({3} if short else set())
        seqs += [tuple((i * i + i // 4 + 1) % 4 for i in range(n)) for n in sorted(dims) if 3 <= n <= (
            300 if base else 16) and all(len(s) != n for s in seqs[-2:])]
        for s in seqs:
            with ctx.case(batch=s if len(s) < 9 else f"cyclic {len(s)}", **lab):
                got = go(s, size, ov)
                for o in got:
                    ctx.require(o.shape[it.bdim] == len(s), f"batch of {len(s)} gave {tuple(o.shape)}")
                for e in range(CONTENTS):
                    idx = [i for i, x in enumerate(s) if x == e]
                    for i in idx:
                        agree(ctx, it, dtype, [o.select(it.bdim, i) for o in got],
                              [o.select(it.bdim, 0) for o in alone[e]], f"element {i} (content {e}) of {s[:8]}")


def part_chan(ctx, it, dtype, tier):
    es = (0, 3, 1)
    cdim = it.bdim + 1
    for size, ov in itertools.product(it.sizes, it.overrides):
        lab = dict(size=size, options=list(ov))

        def go(chans, size=size, ov=ov):
            return out_list(ctx.call(it.run, it.obj(dtype, chans), it.batch_of(es, dtype, chans, size), keep=False, **ov))

        alone = {}
        for c in range(3):
            with ctx.case(channel=c, **lab):
                alone[c] = go((c,))
        if len(alone) < 3:
            return
        for n in (1, 2, 3):
            for chans in itertools.product(range(3), repeat=n):
                with ctx.case(channels=chans, **lab):
                    got = go(chans)
                    for j, o in enumerate(got):
                        ctx.require(o.shape[cdim] == n, f"output {j} of {n} channels has shape {tuple(o.shape)}")
                    for i, c in enumerate(chans):
                        for b in range(len(es)):
                            agree(ctx, it, dtype, [o.select(cdim, i).select(it.bdim, b) for o in got],
                                  [o.select(cdim, 0).select(it.bdim, b) for o in alone[c]],
                                  f"channel {i} (id {c}) of {chans}, element {b}")


def run_cell(cell, ctx):
    it = zoo()[cell["item"]]
    dtype = getattr(torch, cell["dtype"])
    (part_batch if cell["part"] == "batch" else part_chan)(ctx, it, dtype, ctx.tier)
