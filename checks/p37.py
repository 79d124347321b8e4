"""P37: randomness comes from the process-wide generators, and from nothing else.

Histories of seeding, drawing, building further objects, saving and restoring the generator states are enumerated for
every component that draws.  The model of a draw is a table: its result is a function of what happened since the last
seeding (or since the state restored was saved), whatever happened before and in whichever process.  Draws that differ in that
key must differ.  Components that do not draw must leave the generators alone.
"""
import functools
import itertools
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import torch
from mc.core import Mismatch, same_bits, tensors_in
from mc.data import noise, unif
from mc.variants import rng_state, seed

BOUNDS = ("every component that draws, 1-4 configurations each: all histories of length 4 (thorough: 5) over two seeds, two "
          "draws, building, saving and restoring; data loaders with 0..3 workers: all histories of length 3; the same draws in "
          "4 further processes of differing hash seeds; all triples of numbers drawn (1, 2, 3, 5) around a seeding, 6 seeds; every component that does not draw, on all its sizes and call keywords, from two generator states")
ASSUMPTIONS = ["a seed sets the generators of torch, numpy and random", "draws compared for difference have over 2**40 outcomes"]
OPS = ("s0", "s1", "A", "B", "new", "save", "load")
f64 = torch.float64


def get():
    return (torch.get_rng_state(), np.random.get_state(), random.getstate())


def put(s):
    torch.set_rng_state(s[0])
    np.random.set_state(s[1])
    random.setstate(s[2])


class Source:
    """make() builds an object (consuming randomness or not); draws are functions of it with tensors for a result."""

    def __init__(self, name, make, A, B, det=None, small=None):
        self.name, self.make, self.A, self.B, self.det, self.small = name, make, A, B, det, small


def tree(folder):
    import h5py

    names = []
    for f in range(3):
        p = os.path.join(folder, f"{'zam'[f]}.h5")
        with h5py.File(p, "w") as h:
            for c in ("H1", "L1", "V1"):
                h.create_dataset(c, data=noise((900 + 40 * f,), f64, ("p37", f, c)).numpy(), chunks=(128,))
        names.append(p)
    return names


def sources(folder=None):
    from ml4gw import augmentations as aug
    from ml4gw import distributions as D
    from ml4gw import transforms as tf
    from ml4gw.dataloading import ChunkedTimeSeriesDataset, Hdf5TimeSeriesDataset, InMemoryDataset
    from ml4gw.nn.autoencoder import ConvolutionalAutoencoder
    from ml4gw.nn.resnet import ResNet1D
    from ml4gw.nn.ssm.s4d import S4D, S4Model
    from ml4gw.utils import slicing

    out = []

    def add(name, make, A, B=None, det=None, small=None):
        out.append(Source(name, make, A, B or A, det, small))

    x = noise((2, 700), f64, "p37")
    xb = noise((24, 2, 300), f64, "p37b")
    for co in (True, False):
        for off in (None, 40):
            add(f"sample_kernels(coincident={co}, offset={off})", lambda: None,
                lambda o, co=co, off=off: slicing.sample_kernels(xb, 20, max_center_offset=off, coincident=co),
                lambda o, co=co: slicing.sample_kernels(x, 30, N=16, coincident=co),
                small=lambda o, n, co=co, off=off: slicing.sample_kernels(xb[:n], 20, max_center_offset=off, coincident=co))
    for sh, co in itertools.product((True, False), repeat=2):
        if not sh and not co:
            continue
        for y in (False, True) if co else (False,):
            def make(sh=sh, co=co, y=y):
                return InMemoryDataset(x[:, :300], 8, y=torch.arange(300.0) if y else None, batch_size=16, stride=3, batches_per_epoch=3,
                                       coincident=co, shuffle=sh)

            def epoch(o):
                return [list(b) if isinstance(b, tuple | list) else b for b in o]

            def first(o):
                return next(iter(o))
            if sh:
                add(f"InMemoryDataset(coincident={co}, y={y})", make, epoch, first)
            elif not y:
                add("InMemoryDataset(deterministic)", make, epoch, first)
                out[-1].A, out[-1].B, out[-1].det = (lambda o: torch.rand(3)), (lambda o: torch.rand(4)), lambda o: (epoch(o), first(o))
    chunks = [noise((2, 2, 260), f64, ("p37c", i)) for i in range(2)]
    for co in (True, False):
        add(f"ChunkedTimeSeriesDataset(coincident={co})",
            lambda co=co: ChunkedTimeSeriesDataset(iter_of(chunks), kernel_size=12, batch_size=8, batches_per_chunk=2, coincident=co),
            list, lambda o: next(iter(o)))
    pols = {k: noise((200, 12), f64, ("p37w", k)) for k in ("plus", "cross")}
    pars = noise((200, 3), f64, "p37p")
    add("WaveformSampler", lambda: tf.WaveformSampler(parameters=pars, **pols), lambda o: o(12), lambda o: o(13), lambda o: o(-1), lambda o, n: o(n))
    add("WaveformSampler(no parameters)", lambda: tf.WaveformSampler(**pols), lambda o: o(12), lambda o: o(13), lambda o: o(-1), lambda o, n: o(n))

    def rescaler():
        m = tf.SnrRescaler(2, 64, 1.0, dtype=f64)
        m.fit(x[0], x[1], fftlength=1)
        return m
    w = noise((32, 2, 64), f64, "p37r") * torch.arange(1.0, 33, dtype=f64).reshape(-1, 1, 1)
    add("SnrRescaler", rescaler, lambda o: o(w), lambda o: o(w[:28]), lambda o: o(w, torch.arange(5.0, 37, dtype=f64)),
        lambda o, n: o(w[:n]))
    inv = noise((64, 1, 9), f64, "p37i")
    for nm in ("SignalInverter", "SignalReverser"):
        add(nm, lambda nm=nm: getattr(aug, nm)(), lambda o: o(inv.clone()), lambda o: o(inv[:60].clone()), small=lambda o, n: o(inv[:n].clone()))
        add(f"{nm}(0.3)", lambda nm=nm: getattr(aug, nm)(0.3), lambda o: o(inv.repeat(2, 1, 1)), lambda o: o(inv.clone()), small=lambda o, n: o(inv[:n].clone()))
    for nm, kw in (("Cosine", {}), ("Sine", {}), ("LogUniform", dict(low=1.0, high=90.0)), ("LogNormal", dict(mean=6.0, std=1.0)),
                   ("PowerLaw", dict(minimum=1.0, maximum=90.0, index=-2.0)), ("PowerLaw", dict(minimum=1.0, maximum=90.0, index=-1.0)),
                   ("UniformComovingVolume", dict(minimum=0.0, maximum=2.0)),
                   ("RateEvolution", dict(rate_function=lambda z: 1 / (1 + z), minimum=0.0, maximum=2.0))):
        add(f"{nm}{tuple(v for v in kw.values() if isinstance(v, float))}", lambda nm=nm, kw=kw: getattr(D, nm)(**kw),
            lambda o: o.sample((9,)), lambda o: o.sample((2, 5)),
            (lambda o: o.log_prob(torch.tensor([0.3, 0.5]))) if nm in ("Cosine", "Sine") else None,
            lambda o, n: o.sample((n,)))
    if folder:
        names = [os.path.join(folder, f"{c}.h5") for c in "zam"]
        for co in (True, False, "files"):
            add(f"Hdf5TimeSeriesDataset({co})",
                lambda co=co: Hdf5TimeSeriesDataset(names, ["H1", "V1"], kernel_size=6, batch_size=12, batches_per_epoch=2, coincident=co, num_files_per_batch=2),
                list, lambda o: next(iter(o)))

    def params(m):
        return [p.detach().clone() for p in m.parameters()] + [b.clone() for b in m.buffers()]
    add("S4D()", lambda: None, lambda o: params(S4D(2, 8)), lambda o: params(S4D(3, 4)))
    add("ResNet1D()", lambda: None, lambda o: params(ResNet1D(1, [1], 1)), lambda o: params(ResNet1D(2, [1], 1)))
    add("ConvolutionalAutoencoder()", lambda: None, lambda o: params(ConvolutionalAutoencoder(1, [2], 3)),
        lambda o: params(ConvolutionalAutoencoder(2, [2], 3)))
    xs = noise((3, 2, 40), torch.float32, "p37s")
    for drop in (0.5, 0.2):
        add(f"S4Model(dropout={drop}) in training", lambda drop=drop: fixed(S4Model(2, 2, d_model=8, d_state=4, n_layers=2, dropout=drop).train()), lambda o: o(xs), lambda o: o(xs[:2]),
            evaluated(xs))
    return out


def fixed(m):
    with torch.no_grad():
        for k, p in enumerate(m.parameters()):
            p.copy_(noise(p.shape, torch.float32, ("fix", k)) * 0.3 if not p.is_complex() else p * 0 + 0.1)
    return m


def evaluated(xs):
    def det(o):
        o.eval()
        y = o(xs)
        o.train()
        return y
    return det


def iter_of(chunks):
    class Again:
        def __iter__(self):
            return iter([c.clone() for c in chunks])
    return Again()


def flat(out):
    return [t.detach().clone() for t in tensors_in(out)]


def alike(a, b):
    return len(a) == len(b) and all(same_bits(s, t) for s, t in zip(a, b))


def bits(ts):
    return tuple((str(t.dtype), tuple(t.shape), t.contiguous().numpy().tobytes()) for t in ts)


SEEDS = (7, 8)


@functools.cache
def histories(depth):
    return [("s0", *h) for h in itertools.product(OPS, repeat=depth)
            if any(o in "AB" for o in h) and h[-1] in ("A", "B", "new")]


def play(ctx, src, hist, table):
    """One history; `table` maps (draw, what led up to it) to its bits."""
    obj = src.make()
    key, saved = (), None
    seen = {}
    for n, op in enumerate(hist):
        ctx.step()
        if op in ("s0", "s1"):
            seed(SEEDS[int(op[1])])
            key = (op,)
        elif op == "save":
            saved = (get(), key)
        elif op == "load":
            if saved is None:
                continue
            put(saved[0])
            key = saved[1]
        elif op == "new":
            obj = src.make()
            key = (*key, "new")
        else:
            if src.det is not None:
                before = rng_state()
                src.det(obj)
                if rng_state() != before:
                    raise Mismatch(f"step {n} of {hist}: a call that draws nothing moved the random generators")
            ts = flat(getattr(src, op)(obj))
            got = bits(ts)
            want = table.setdefault((op, key), got)
            if got != want:
                raise Mismatch(f"step {n} of {hist}: draw {op} after {key} differs from the same draw in an earlier history")
            for k2, other in seen.items():
                if k2[0] == op and other == got and apart(key, k2[1]):
                    raise Mismatch(f"step {n} of {hist}: draw {op} after {key} repeats the draw after {k2[1]}")
            seen[op, key] = got
            key = (*key, op)


def apart(a, b):
    """Whether two moments cannot be the same point of one random stream."""
    a, b = ([o for o in k if o != "new"] for k in (a, b))
    n = min(len(a), len(b))
    return a[0] != b[0] or (len(a) != len(b) and a[:n] == b[:n])


def split(n):
    return [dict(k="hist", part=i, parts=n) for i in range(n)]


def cells(tier):
    return (split(16) + [dict(k="loader", co=str(c)) for c in (True, False, "files")] + [dict(k="process", part=i) for i in range(4)]
            + [dict(k="still", part=i) for i in range(6)] + [dict(k="small", part=i) for i in range(4)])


def run_cell(cell, ctx):
    folder = tempfile.mkdtemp(prefix="p37")
    try:
        tree(folder)
        globals()["run_" + cell["k"]](cell, ctx, folder)
    finally:
        shutil.rmtree(folder)


def run_hist(cell, ctx, folder):
    depth = 5 if ctx.tier == "thorough" else 4
    for i, src in enumerate(sources(folder)):
        heavy = "()" in src.name or "S4" in src.name or "Hdf5" in src.name
        first = src.name
        table = {}
        with ctx.case(source=first, what="one object"):
            # the draws themselves: as many as they claim, of more than one outcome
            seed(3)
            o = src.make()
            a = [bits(flat(src.A(o))) for _ in range(6)]
            ctx.require(len(set(a)) == 6, "draws after one another repeat")
            ctx.step(6)
        for n, h in enumerate(histories(depth - 1 if heavy else depth)):
            if (n + i) % cell["parts"] != cell["part"]:
                continue
            with ctx.case(source=src.name, history=h):
                play(ctx, src, h, table)


def run_small(cell, ctx, folder):
    """Draws of few: whatever was drawn before the seeding, in whatever numbers, a draw follows the seed."""
    srcs = [s for s in sources() if s.small is not None]
    ns = (1, 2, 3, 5) if ctx.tier == "quick" else (1, 2, 3, 4, 5, 7, 8)
    for src in srcs[cell["part"]::4]:
        for s in range(6):
            want = {}
            for b, c in itertools.product(ns, ns):
                o = src.make()
                seed(s)
                want[b, c] = [bits(flat(src.small(o, n))) for n in (b, c)]
            for a, b, c in itertools.product(ns, ns, ns):
                with ctx.case(source=src.name, seed=s, drawn_before=a, draws=(b, c)):
                    o = src.make()
                    src.small(o, a)
                    seed(s)
                    ctx.step(3)
                    ctx.require([bits(flat(src.small(o, n))) for n in (b, c)] == want[b, c], "draws depend on what was drawn before the seeding")


def loader(folder, co, workers, persistent):
    from ml4gw.dataloading import Hdf5TimeSeriesDataset

    names = [os.path.join(folder, f"{c}.h5") for c in "zam"]
    d = Hdf5TimeSeriesDataset(names, ["H1", "V1"], kernel_size=6, batch_size=12, batches_per_epoch=6, coincident=co)
    return torch.utils.data.DataLoader(d, batch_size=None, num_workers=workers, persistent_workers=persistent and workers > 0)


def run_loader(cell, ctx, folder):
    """Epochs of a data loader are a function of the seed; its workers do not repeat one another."""
    co = {"True": True, "False": False, "files": "files"}[cell["co"]]
    for workers in (0, 1, 2, 3):
        table = {}
        for h in itertools.product(("s0", "s1", "epoch"), repeat=3):
            if "epoch" not in h:
                continue
            with ctx.case(workers=workers, history=h):
                dl = loader(folder, co, workers, False)
                key, seen = ("s0",), {}
                seed(SEEDS[0])
                for op in h:
                    ctx.step()
                    if op != "epoch":
                        seed(SEEDS[int(op[1])])
                        key = (op,)
                        continue
                    got = [b.clone() for b in dl]
                    ctx.require(len(got) == 6, f"{len(got)} batches")
                    b = [bits([g]) for g in got]
                    ctx.require(len(set(b)) == 6, "batches of one epoch repeat one another")
                    ctx.require(table.setdefault(key, b) == b, f"the epoch after {key} differs from an earlier history's")
                    ctx.require(not any(set(b) & set(o) for k, o in seen.items() if k != key), f"the epoch after {key} repeats batches of an earlier one")
                    seen[key] = b
                    key = (*key, op)


CHILD = """
import sys, json
sys.path[:0] = [{repo!r}, {verif!r}]
import warnings
warnings.filterwarnings("ignore")
from checks import p37
print(json.dumps(p37.digest({folder!r})))
"""


def digest(folder):
    import hashlib

    torch.set_num_threads(1)
    res = {}
    for src in sources(folder):
        seed(SEEDS[0])
        o = src.make()
        d = []
        for op in ("A", "B", "A"):
            d.append(hashlib.sha1(pickle.dumps([(str(t.dtype), t.contiguous().numpy().tobytes()) for t in flat(getattr(src, op)(o))])).hexdigest())
        res[src.name] = d
    return res


def run_process(cell, ctx, folder):
    """Other processes: other hash seeds, other addresses, another time."""
    want = digest(folder)
    from mc.core import REPO, VERIF

    env = dict(os.environ, PYTHONHASHSEED=("1", "7", "random", "4242")[cell["part"]])
    r = subprocess.run([sys.executable, "-c", CHILD.format(repo=REPO, verif=VERIF, folder=folder)], env=env, capture_output=True, text=True, check=False)
    with ctx.case(process=cell["part"]):
        ctx.require(r.returncode == 0, f"the process failed: {r.stderr[-800:]}")
    got = json.loads(r.stdout.strip().splitlines()[-1]) if r.returncode == 0 else {}
    for name, w in want.items():
        with ctx.case(source=name, process=cell["part"]):
            ctx.step(3)
            ctx.require(got.get(name) == w, "another process with the same seed draws something else")


def run_still(cell, ctx, folder):
    """Components that do not draw leave the generators where they were."""
    from checks.p09 import zoo

    for i, (name, it) in enumerate(zoo().items()):
        if i % 6 != cell["part"]:
            continue
        d = it.dtypes[0]
        with ctx.case(item=name):
            o = it.obj(d)
            for size, kw in itertools.product(it.sizes, it.overrides):
                args = it.batch_of([0, 1, 2], d, size=size)
                res = []
                for s in (0, 1):
                    seed(s)
                    before = rng_state()
                    res.append(flat(it.run(o, args, **kw)))
                    ctx.step()
                    ctx.require(rng_state() == before, f"the call moved the random generators (size {size}, {kw})")
                ctx.require(alike(*res), f"the result depends on the random generators (size {size}, {kw})")
