"""P01: streaming snapshots equal windows of the uninterrupted stream.

Explores every chunking (composition of the stream into updates of 1..3
strides), every interleaving of two streams through one shared module, and
compares each returned snapshot and state with slices of the whole stream.
"""
import itertools

import torch
from mc.data import DT, noise, ramp, relayout
from ml4gw.nn.streaming import Snapshotter

BOUNDS = ("snapshot 2..9, stride 1..snapshot-1, channels 1..3, all update-size sequences of up "
          "to 5 (thorough 7) strides, 2 interleaved streams up to 3+3 updates, states overwritten once spent, one large geometry")


def cells(tier):
    top = 7 if tier == "quick" else 10
    out = [dict(k="chunk", snap=s, stride=d) for s in range(2, top + 1)
           for d in range(1, s)]
    out += [dict(k="inter", snap=s, stride=d) for s, d in ((4, 1), (5, 2), (6, 3), (7, 5))]
    out += [dict(k="big", snap=4097, stride=d, batch=b)
            for d, b in ((64, 129), (1000, 3), (4096, 2), (4096, 1))]
    return out


def compositions(n, most):
    if n == 0:
        yield ()
        return
    for i in range(1, min(n, most) + 1):
        for rest in compositions(n - i, most):
            yield (i,) + rest


def splits(nch):
    yield None
    yield (nch,)
    for a in range(1, nch):
        yield (a, nch - a)
        yield [a, nch - a]
    if nch >= 3:
        yield (1,) * nch


def check_step(ctx, mod, whole, pos, batch, out, split, snap, stride):
    parts, state = out[:-1], out[-1]
    want = torch.stack([whole[:, (pos + i) * stride:(pos + i) * stride + snap]
                        for i in range(batch)])
    wants = [want] if split is None else list(torch.split(want, list(split), dim=1))
    ctx.require(len(parts) == len(wants), f"{len(parts)} snapshot tensors, expected {len(wants)}")
    for p, w in zip(parts, wants):
        ctx.equal(p, w, f"snapshots {pos}..{pos + batch - 1}")
        ctx.require(p.dtype == w.dtype, f"dtype {p.dtype} != {w.dtype}")
    end = (pos + batch) * stride + (snap - stride)
    ctx.equal(state, whole[:, end - (snap - stride):end], "returned state")


def stream(snap, stride, nch, n, dtype, kind, key):
    x = ramp((nch, n * stride), dtype, start=1 + 1000 * key) if kind == "ramp" else \
        noise((nch, n * stride), dtype, (snap, stride, key))
    return x, torch.cat([torch.zeros(nch, snap - stride, dtype=dtype), x], -1)


def run_cell(cell, ctx):
    snap, stride, tier = cell["snap"], cell["stride"], ctx.tier
    if cell["k"] == "chunk":
        n = 5 if tier == "quick" else 7
        for nch in (1, 2, 3):
            for split in splits(nch):
                x, whole = stream(snap, stride, nch, n, torch.float32, "ramp", 0)
                mods = {b: Snapshotter(nch, snap, stride, b, split) for b in range(1, 4)}
                for comp in compositions(n, 3):
                    for first in ("none", "initial"):
                        with ctx.case(nch=nch, split=split, chunks=comp, first=first):
                            state = None if first == "none" else mods[comp[0]].get_initial_state()
                            pos = 0
                            for b in comp:
                                upd = x[:, pos * stride:(pos + b) * stride]
                                out = ctx.call(mods[b], upd, state, label=f"update {pos}")
                                check_step(ctx, mods[b], whole, pos, b, out, split, snap, stride)
                                state, pos = out[-1], pos + b
        # element types, memory layouts and values
        for dt in DT:
            for lay in ("c", "strided", "transposed", "offset"):
                for b in (1, 2, 3):
                    with ctx.case(dt=dt, layout=lay, batch=b):
                        x, whole = stream(snap, stride, 2, 3 * b, DT[dt], "noise", 1)
                        mod = Snapshotter(2, snap, stride, b)
                        state = None
                        for i in range(3):
                            upd = relayout(x[:, i * b * stride:(i + 1) * b * stride], lay)
                            out = ctx.call(mod, upd, state, label=f"update {i}")
                            check_step(ctx, mod, whole, i * b, b, out, None, snap, stride)
                            state = out[-1]
    elif cell["k"] == "inter":
        for b in (1, 2):
            n = 3
            a = stream(snap, stride, 2, n * b, torch.float32, "ramp", 1)
            c = stream(snap, stride, 2, n * b, torch.float32, "ramp", 2)
            mod = Snapshotter(2, snap, stride, b)
            for order in set(itertools.permutations("AAABBB")):
                with ctx.case(batch=b, order="".join(order)):
                    st = {"A": None, "B": None}
                    pos = {"A": 0, "B": 0}
                    for who in order:
                        x, whole = a if who == "A" else c
                        p = pos[who]
                        upd = x[:, p * stride:(p + b) * stride]
                        out = ctx.call(mod, upd, st[who], label=f"stream {who} update {p}")
                        check_step(ctx, mod, whole, p, b, out, None, snap, stride)
                        st[who] = out[-1]
                        pos[who] += b
        # a consumer that owns the states it is given: it overwrites them once they are spent
        for b, starts, order in itertools.product((1, 2), itertools.product(("none", "initial"), repeat=2),
                                                  sorted(set(itertools.permutations("AABB")))):
            with ctx.case(batch=b, starts=starts, order="".join(order), overwritten=True):
                mod = Snapshotter(2, snap, stride, b)
                S = dict(zip("AB", (stream(snap, stride, 2, 2 * b, torch.float32, "ramp", k) for k in (1, 2))))
                for spent in (mod.get_initial_state(), mod.get_initial_state()):
                    ctx.require(not spent.any(), "initial state is not zero")
                    spent.fill_(1e9)
                st, pos = {}, dict(A=0, B=0)
                for who in order:
                    x, whole = S[who]
                    p = pos[who]
                    if p == 0:
                        st[who] = None if starts["AB".index(who)] == "none" else mod.get_initial_state()
                    out = ctx.call(mod, x[:, p * stride:(p + b) * stride], st[who], keep=False, label=f"{who}{p}")
                    check_step(ctx, mod, whole, p, b, out, None, snap, stride)
                    new = out[-1].clone()
                    for t in (*out, *([] if st[who] is None else [st[who]])):
                        t.fill_(-1e9)
                    st[who] = new
                    pos[who] += b
    else:
        b = cell["batch"]
        with ctx.case():
            x, whole = stream(snap, stride, 2, 3 * b, torch.float32, "noise", 7)
            mod, state = Snapshotter(2, snap, stride, b), None
            for i in range(3):
                out = ctx.call(mod, x[:, i * b * stride:(i + 1) * b * stride], state, keep=i == 0)
                check_step(ctx, mod, whole, i * b, b, out, None, snap, stride)
                state = out[-1]
