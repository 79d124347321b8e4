"""P03: unfolding and slicing return exactly the requested windows."""
import itertools

import torch
from mc.data import DT, LAYOUTS, noise, ramp, relayout
from ml4gw.utils.slicing import slice_kernels, unfold_windows

BOUNDS = ("length 1..12, window 1..length, stride 1..length+1, 1-3 dims with sizes 1..3; every "
          "index tuple of up to 3 kernels for length <= 5; large lengths at spot geometries")


def cells(tier):
    n = 12 if tier == "quick" else 18
    out = [dict(k="unfold", T=t) for t in range(1, n + 1)]
    out += [dict(k="slice", T=t, kern=q) for t in range(1, (5 if tier == "quick" else 7) + 1)
            for q in range(1, t + 1)]
    out += [dict(k="big", T=4097), dict(k="big", T=16384)]
    out += [dict(k="huge", T=HUGE)]
    return out


HUGE = 2**24 + 105  # positions that single precision or a signed byte product cannot hold
SHAPES = [(), (1,), (2,), (3,), (1, 1), (2, 1), (1, 3), (2, 3), (3, 2)]


def want_unfold(x, w, s):
    n = (x.shape[-1] - w) // s + 1
    return torch.stack([x[..., i * s:i * s + w] for i in range(n)]), x[..., w + (n - 1) * s:]


def unfold(ctx, x, w, s):
    win, rem = want_unfold(x, w, s)
    got = ctx.call(unfold_windows, x, w, s, label="unfold")
    ctx.equal(got, win, "windows")
    ctx.require(got.dtype == x.dtype, "window dtype")
    got, r = ctx.call(unfold_windows, x, w, s, drop_last=False, label="unfold+rest")
    ctx.equal(got, win, "windows (drop_last=False)")
    ctx.equal(r, rem[None], "remainder")
    ctx.require(r.dtype == x.dtype, "remainder dtype")


def want_slice(x, idx, k):
    if x.ndim == 1:
        return torch.stack([x[i:i + k] for i in idx.tolist()])
    if x.ndim == 2 and idx.ndim == 1:
        return torch.stack([x[:, i:i + k] for i in idx.tolist()])
    if x.ndim == 2:
        return torch.stack([torch.stack([x[c, i:i + k] for c, i in enumerate(row)])
                            for row in idx.tolist()])
    return torch.stack([x[b][:, i:i + k] for b, i in enumerate(idx.tolist())])


def run_cell(cell, ctx):
    T = cell["T"]
    if cell["k"] == "unfold":
        for shape in SHAPES:
            x = ramp(shape + (T,))
            for w in range(1, T + 1):
                for s in range(1, T + 2):
                    with ctx.case(shape=shape, window=w, stride=s):
                        unfold(ctx, x, w, s)
        for shape in SHAPES[1:]:
            for lay in LAYOUTS:
                for dt in DT:
                    for w, s in {(1, 1), (T, 1), (max(1, T // 2), 2), (max(1, T - 1), T)}:
                        with ctx.case(shape=shape, layout=lay, dt=dt, window=w, stride=s):
                            unfold(ctx, relayout(noise(shape + (T,), DT[dt], "u"), lay), w, s)
    elif cell["k"] == "huge":
        x = (torch.arange(T) % 8191).float()
        for w, s in ((7, 2**21 + 9), (5, 2**24 + 3), (2**17 + 1, 2**20 + 5)):
            with ctx.case(length=T, window=w, stride=s):
                for y in (x, x[None], x.view(1, 1, -1)):
                    unfold(ctx, y, w, s)
        for i in (2**24 + 1, 2**24 + 3, T - 9):
            for shape, idx in (((), [i, 5]), ((1,), [i, 5]), ((1,), [[i], [3]]), ((1, 1), [i])):
                with ctx.case(length=T, shape=shape, idx=idx):
                    y, idx = x.view(shape + (T,)), torch.tensor(idx)
                    ctx.equal(ctx.call(slice_kernels, y, idx, 9), want_slice(y, idx, 9), "kernels")
        y = (torch.arange(2 * (2**24 + 9)) % 8191).float().view(2, -1)
        with ctx.case(length=2**24 + 9, idx="channels"):
            for idx in (torch.tensor([[2**24 + 1, 3], [0, 2**24]]), torch.tensor([2**24 + 1, 7])):
                ctx.equal(ctx.call(slice_kernels, y, idx, 8), want_slice(y, idx, 8), "kernels")
            idx = torch.tensor([2**24 + 1, 2**24])
            ctx.equal(ctx.call(slice_kernels, y.view(2, 1, -1), idx, 8), want_slice(y.view(2, 1, -1), idx, 8), "kernels")
    elif cell["k"] == "slice":
        k = cell["kern"]
        starts = range(T - k + 1)
        nmax = 3
        for n in range(1, nmax + 1):
            for tup in itertools.product(starts, repeat=n):
                idx = torch.tensor(tup)
                for shape in ((), (1,), (2,), (3,), (n, 1), (n, 2)):
                    with ctx.case(shape=shape, idx=tup):
                        x = ramp(shape + (T,))
                        got = ctx.call(slice_kernels, x, idx, k)
                        ctx.equal(got, want_slice(x, idx, k), "kernels")
        for n, c in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3)):
            for tup in itertools.product(starts, repeat=n * c):
                with ctx.case(n=n, c=c, idx2=tup):
                    x, idx = ramp((c, T)), torch.tensor(tup).view(n, c)
                    ctx.equal(ctx.call(slice_kernels, x, idx, k), want_slice(x, idx, k), "kernels")
        for lay in LAYOUTS:
            for dt in DT:
                with ctx.case(layout=lay, dt=dt):
                    for shape, idx in (((), torch.tensor([0, T - k, 0, (T - k) // 2])),
                                       ((2,), torch.tensor([0, T - k])),
                                       ((2,), torch.tensor([[0, T - k], [T - k, 0]])),
                                       ((2, 2), torch.tensor([T - k, 0]))):
                        x = relayout(noise(shape + (T,), DT[dt], "s"), lay)
                        for li in LAYOUTS:
                            got = ctx.call(slice_kernels, x, relayout(idx, li), k)
                            ctx.equal(got, want_slice(x, idx, k), f"kernels for indices laid out {li}")
        with ctx.case(invalid=True):
            x2, x3 = ramp((2, T)), ramp((2, 2, T))
            for x, idx in ((ramp((T,)), torch.zeros(1, 1, dtype=torch.long)),
                           (x2, torch.zeros(1, 3, dtype=torch.long)),
                           (x2, torch.zeros(1, 2, 1, dtype=torch.long)),
                           (x3, torch.zeros(3, dtype=torch.long)),
                           (x3, torch.zeros(2, 2, dtype=torch.long)),
                           (ramp((1, 2, 2, T)), torch.zeros(1, dtype=torch.long))):
                ctx.raises(ValueError, slice_kernels, x, idx, k)
    else:
        for shape in ((), (2,), (3, 2)):
            x = noise(shape + (T,), key="big")
            for w, s in ((1, 1), (T, 1), (T // 2, T // 4), (T - 1, 1), (129, 128), (1000, 999),
                         (256, 4000), (4096, 7)):
                with ctx.case(shape=shape, window=w, stride=s):
                    if shape == () and w * ((T - w) // s + 1) > 2e7:
                        continue
                    unfold(ctx, x, w, s)
            k = 1025
            for n in (1, 3, 129):
                if x.ndim == 3 and n != 3:
                    continue
                with ctx.case(shape=shape, kernels=n):
                    idx = (torch.arange(n) * 37) % (T - k + 1)
                    idx[-1] = T - k
                    ctx.equal(ctx.call(slice_kernels, x, idx, k), want_slice(x, idx, k), "k")
                if x.ndim == 2:
                    with ctx.case(shape=shape, kernels=n, per_channel=True):
                        idx = torch.stack([(torch.arange(n) * 37) % (T - k + 1),
                                           (torch.arange(n) * 53 + 5) % (T - k + 1)], 1)
                        for li in LAYOUTS:
                            got = ctx.call(slice_kernels, x, relayout(idx, li), k)
                            ctx.equal(got, want_slice(x, idx, k), f"kernels for indices laid out {li}")
