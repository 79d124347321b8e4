"""Deterministic input data and memory layouts."""
from __future__ import annotations

import hashlib
import itertools

import torch

from .core import SEED


def gen(*key):
    h = hashlib.blake2b(repr((SEED,) + key).encode(), digest_size=7).digest()
    g = torch.Generator()
    g.manual_seed(int.from_bytes(h, "big"))
    return g


def noise(shape, dtype=torch.float32, key=(), scale=1.0):
    """White noise; the same double-precision stream whatever the dtype."""
    shape = tuple(int(n) for n in shape)
    x = torch.randn(shape, generator=gen("noise", shape, key), dtype=torch.float64)
    return (x * scale).to(dtype)


def unif(shape, lo=0.0, hi=1.0, dtype=torch.float32, key=()):
    shape = tuple(int(n) for n in shape)
    x = torch.rand(shape, generator=gen("unif", shape, key), dtype=torch.float64)
    return (lo + (hi - lo) * x).to(dtype)


def ramp(shape, dtype=torch.float32, start=1):
    """Distinct exactly representable values: every sample names its position."""
    n = 1
    for s in shape:
        n *= s
    return (torch.arange(n, dtype=torch.float64) + start).reshape(tuple(shape)).to(dtype)


LAYOUTS = ("c", "strided", "transposed", "offset")


def relayout(x, kind):
    """The same values in a different memory layout."""
    if kind == "c" or x.ndim == 0:
        return x.contiguous().clone()
    if kind == "strided":
        buf = torch.full(x.shape[:-1] + (2 * x.shape[-1] + 3,), 77.0).to(x.dtype)
        view = buf[..., 3 : 3 + 2 * x.shape[-1] : 2] if x.shape[-1] else buf[..., :0]
        view.copy_(x)
        return view
    if kind == "transposed":
        perm = list(range(x.ndim))[::-1]
        return x.permute(perm).contiguous().permute(perm)
    if kind == "offset":
        buf = torch.full((x.shape[0] + 2,) + tuple(x.shape[1:]), -55.0).to(x.dtype)
        view = buf[1 : 1 + x.shape[0]]
        view.copy_(x)
        return view
    raise ValueError(kind)


def lookalikes(x, frozen=()):
    """Tensors that agree with x in a cheap summary (shape, ends, sum, contents as a set), but not in their values.

    Returns (name, tensor); `frozen` names kinds to leave out.
    """
    out = []
    if x.numel() > 1 and not bool((x == x.flatten()[0]).all()):
        out.append(("flip", x.flip(-1).clone() if x.shape[-1] > 1 else x.flip(0).clone()))
    if x.is_floating_point() and x.shape and x.shape[-1] >= 5:
        n = x.shape[-1]
        i, j = n // 2, n // 4 or 1
        mid = x.clone()
        mid[..., i] = x[..., j]  # one interior entry, same ends and length
        swap = x.clone()
        swap[..., i], swap[..., j] = x[..., j], x[..., i]  # same ends, same sum, same set
        inner = x.clone()
        inner[..., 1:-1] = x[..., 1:-1].flip(-1)
        out += [("mid", mid), ("swap", swap), ("inner", inner)]
    if x.ndim > 1 and x.shape[0] > 2:
        rows = x.clone()
        rows[1] = x[-1]  # first and last row as before
        out.append(("row", rows))
    if x.ndim > 1 and x.shape[0] > 1:
        out.append(("roll", x.roll(1, 0).clone()))
    if x.ndim > 2 and x.shape[1] > 1:
        out.append(("chan", x.flip(1).clone()))
    return [(k, t) for k, t in out if k not in frozen and not torch.equal(t, x)]


def product(**kw):
    """All combinations, simplest first in the order given."""
    names = list(kw)
    for vals in itertools.product(*kw.values()):
        yield dict(zip(names, vals))


DT = {"f32": torch.float32, "f64": torch.float64}
