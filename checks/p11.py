"""P11: a saved state loaded into a fresh object of the same configuration reproduces the component.

Every history of state operations up to the depth bound (perturb the
parameters as training would, refit, run in training mode, call, move to
another precision and back, copy, pickle) is applied to a real object; then its
state is saved through a byte stream and loaded into a fresh object that was
built with other random numbers (and was never fitted).  The model is the
source object itself: outputs must be equal bit for bit on every content.
"""
import copy
import io
import itertools
import pickle

import torch
from checks.p09 import agree, zoo
from mc.data import noise
from mc.zoo import out_list, series

BOUNDS = ("every zoo module x precision x histories of length <= 2 (thorough 3) over up to 9 state operations x "
          "4 ways of restoring; precision moves of length <= 3")
ASSUMPTIONS = ["random buffers do not occur; configuration buffers are rebuilt by the constructor"]


def mods():
    return {n: it for n, it in zoo().items() if it.module}


def cells(tier):
    return [dict(item=n, dtype=str(d).removeprefix("torch."), first=op)
            for n, it in mods().items() for d in it.dtypes for op in OPS if op in ops_of(it)]


OPS = ["none", "perturb", "refit", "refit2", "train", "call", "call2", "roundtrip", "deepcopy", "pickle", "reload"]


def ops_of(it):
    out = ["none", "call", "deepcopy", "reload"]
    if it.group == "nn":
        out += ["perturb", "train"]
    if it.name in ("FixedWhiten", "SnrRescaler", "ChannelWiseScaler"):
        out += ["refit", "perturb"]
    if it.name == "FixedWhiten":
        out.append("refit2")
    if it.cast and (it.group == "nn" or "refit" in out):
        out.append("roundtrip")  # the learned values lose bits; configuration constants may be rebuilt with theirs
    if len(it.sizes) > 1 or len(it.overrides) > 1:
        out.append("call2")
    return [*out, "pickle"]


def build(it, dtype, seed):
    """A fresh object of the configuration; other random initial parameters for another seed."""
    torch.manual_seed(seed)
    with torch.random.fork_rng():
        torch.manual_seed(seed)
        o = it.build(it.chans)
    return o.to(dtype) if it.cast else o


def blank(it, dtype, seed=99):
    """As `build`, but never fitted."""
    from ml4gw import transforms as tf
    o = {"FixedWhiten": lambda: tf.FixedWhiten(3, 4, 64), "SnrRescaler": lambda: tf.SnrRescaler(2, 64, 4.0, dtype=torch.float64),
         "ChannelWiseScaler": lambda: tf.ChannelWiseScaler(3)}.get(it.name)
    if o is None:
        return build(it, dtype, seed)
    o = o()
    return o.to(dtype) if it.cast else o


def apply(ctx, it, obj, op, dtype, n):
    if op == "perturb":
        with torch.no_grad():
            for i, p in enumerate(obj.parameters()):
                if p.is_floating_point():
                    p.add_(0.05 * noise(tuple(p.shape), p.dtype, ("perturb", n, i)) * (p.abs().mean() + 0.1))
    elif op in ("refit", "refit2"):
        s = 2.0 + n
        if op == "refit2":  # a filter of another length
            obj.fit(0.5, *[series(3, c, 1024) * s + series(0, c, 1024) for c in it.chans], fftlength=1)
        elif it.name == "FixedWhiten":
            obj.fit(1.0, *[series(3, c, 1024) * s + series(0, c, 1024) for c in it.chans], fftlength=2, overlap=1)
        elif it.name == "SnrRescaler":
            obj.fit(*[series(3, c, 1024) * s + series(0, c, 1024) for c in it.chans], fftlength=2, overlap=1)
        else:
            obj.fit(torch.stack([series(3, c, 512, dtype) * s + c for c in it.chans]))
        if it.cast:
            obj = obj.to(dtype)
    elif op == "train":
        was = obj.training
        obj.train()
        for k in range(2):
            with torch.random.fork_rng():
                torch.manual_seed(5)
                it.run(obj, it.batch_of((k, 3, 2), dtype))
        obj.train(was)
    elif op == "call":
        it.run(obj, it.batch_of((1, 2), dtype))
    elif op == "call2":
        s = it.sizes[-1]
        it.run(obj, it.batch_of((3,), dtype, size=s), **it.overrides[-1])
    elif op == "roundtrip":
        obj = obj.double().float().double() if dtype == torch.float64 else obj.double().float()
    elif op == "deepcopy":
        obj = copy.deepcopy(obj)
    elif op == "pickle":
        obj = pickle.loads(pickle.dumps(obj))
    elif op == "reload":
        obj.load_state_dict(copy.deepcopy(obj.state_dict()))
    return obj


def observe(it, obj, dtype):
    out = []
    for s, o in itertools.product(it.sizes, it.overrides):
        with torch.no_grad():
            out += [t.clone() for t in out_list(it.run(obj, it.batch_of((0, 1, 2, 3), dtype, size=s), **o))]
    return out


def exact(ctx, got, want, what):
    ctx.require(len(got) == len(want), f"{what}: {len(got)} outputs instead of {len(want)}")
    for i, (g, w) in enumerate(zip(got, want, strict=True)):
        ctx.require(g.dtype == w.dtype, f"{what}: output {i} has precision {g.dtype} instead of {w.dtype}")
        nan = torch.isnan(w) if not w.is_complex() else torch.isnan(w.abs())
        ctx.require(torch.equal(torch.isnan(g.abs()), nan), f"{what}: output {i} is nan elsewhere")
        ctx.equal(torch.where(nan, 0, g), torch.where(nan, 0, w), f"{what}, output {i}")


def run_cell(cell, ctx):
    it = mods()[cell["item"]]
    dtype = getattr(torch, cell["dtype"])
    first = cell["first"]
    ops = ops_of(it)
    hists = [(first,)]
    if first != "none":
        rest = [o for o in ops if o != "none"]
        hists += [(first, b) for b in rest]
        if ctx.tier == "thorough":
            hists += [(first, b, c) for b in rest for c in rest]
    for hist in hists:
        with ctx.case(history=hist):
            obj = build(it, dtype, 7)
            for n, op in enumerate(hist):
                obj = apply(ctx, it, obj, op, dtype, n)
                ctx.step()
            want = observe(it, obj, dtype)
            buf = io.BytesIO()
            torch.save(obj.state_dict(), buf)
            # the source goes on living: what was saved must not follow it
            other = copy.deepcopy(obj)

            def stored(buf=buf):
                buf.seek(0)
                return torch.load(buf, weights_only=True)

            for way in ("fresh", "used", "assign-copy", "copy"):
                if way == "fresh":
                    new = blank(it, dtype)
                    new.load_state_dict(stored())
                elif way == "used":
                    new = build(it, dtype, 23)
                    for op in ("perturb", "refit", "refit2"):
                        if op in ops and op != hist[-1]:
                            new = apply(ctx, it, new, op, dtype, 7)
                    it.run(new, it.batch_of((2,), dtype))
                    observe(it, new, dtype)
                    new.load_state_dict(stored())
                elif way == "assign-copy":
                    # loading twice, another state first
                    new = blank(it, dtype, 31)
                    new.load_state_dict(build(it, dtype, 41).state_dict())
                    new.train(obj.training)
                    observe(it, new, dtype)
                    new.load_state_dict(stored())
                else:
                    new = other
                new.train(obj.training)
                ctx.step()
                exact(ctx, observe(it, new, dtype), want, f"restored ({way}) after {hist}")
                ctx.state("restored", cell["item"], way, want)
                ctx.require(list(new.state_dict()) == list(obj.state_dict()), f"state keys differ after {way}")
            exact(ctx, observe(it, obj, dtype), want, "the source after its state was restored elsewhere")
    if it.cast and first == "none":
        both = (torch.float64, torch.float32)
        for moves in itertools.chain.from_iterable(itertools.product(both, repeat=n) for n in (1, 2, 3)):
            with ctx.case(moves=[str(m) for m in moves]):
                obj = build(it, dtype, 7)
                for m in moves:
                    obj = obj.to(m)
                    ctx.step()
                    got = observe(it, obj, m)
                    ref = build(it, torch.float32, 7).to(m)
                    lim = max(it.tol.get(torch.float32, 1e-4), 1e-4)
                    want = observe(it, ref, m)
                    ctx.require(len(got) == len(want), "number of outputs")
                    for i, (g, w) in enumerate(zip(got, want, strict=True)):
                        ctx.close(g, w, f"output {i} after moves to {moves}", rtol=10 * lim)
