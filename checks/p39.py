"""P39: whatever fails in the middle surfaces, and leaves nothing behind.

Crash points: every call of every component is stopped at its k-th tensor operation (memory runs out, the user
interrupts), for every k; the object, its arguments and the process must then be as if that call had never been made.
Faults of sources: every history of reading, faults of files and producers and their repair; each batch handed out is
right or the fault surfaces, and what is repaired is used again.
"""
import functools
import gc
import itertools
import os
import shutil
import sys
import tempfile
import warnings

import h5py
import numpy as np
import torch
from checks.p09 import agree, zoo
from checks.p10 import menu
from mc.core import same_bits, tensors_in
from mc.rng import patterned
from mc.variants import families, pub, seed, settings
from torch.utils._python_dispatch import TorchDispatchMode

BOUNDS = ("every zoo component: up to 4 kinds of calls, each stopped at every tensor operation (quick: where there are more than 40 "
          "per kind, one in every state of the object, the settings and the package's containers, and 21 evenly spaced ones), before and after an undisturbed call of the first kind; every configuration's construction and fit "
          "stopped alike (quick: two configurations, likewise); components that draw; HDF5 datasets of 3 files: all histories of length 4 over reading, 5 faults of each of two "
          "files and repair, each file operation failing once; chunk producers failing at each chunk in 4 ways; fits, refits and loads of the fittable transforms, and stepwise Q-transforms, stopped at every operation")
ASSUMPTIONS = ["operations that are not torch's (numpy, scipy, h5py) are not stopped in the middle, except h5py's opening and reading"]
MODES = (True, False, "files")
PARTS = 16


class Fault(RuntimeError):
    pass


class Interrupt(KeyboardInterrupt):
    pass


@functools.cache
def shared():
    """Containers, caches and classes of the package that outlive a call."""
    boxes, caches, classes = [], [], []
    for name, m in sorted(sys.modules.items()):
        if not name.startswith("ml4gw"):
            continue
        for o in list(vars(m).values()):
            if isinstance(o, dict | list | set):
                boxes.append(o)
            elif hasattr(o, "cache_info"):
                caches.append(o)
            elif isinstance(o, type) and o.__module__.startswith("ml4gw"):
                classes.append(o)
                boxes += [v for v in vars(o).values() if isinstance(v, dict | list | set)]
                caches += [v for v in vars(o).values() if hasattr(v, "cache_info")]
    return boxes, caches, classes


def held_by(o):
    out = []
    for m in o.modules() if isinstance(o, torch.nn.Module) else (o,):
        for v in getattr(m, "__dict__", {}).values():
            out.append((id(v), v._version if isinstance(v, torch.Tensor) and not v.is_inference() else len(v) if isinstance(v, dict | list | set) else 0))
            if isinstance(v, dict):
                out += [(id(t), t._version) for t in v.values() if isinstance(t, torch.Tensor) and not t.is_inference()]
    return tuple(out)


def mark(obj):
    """A mark of all that a stopped call could leave behind: stops under one mark are alike, but for tensors out of reach."""
    boxes, caches, classes = shared()
    return hash((torch.get_default_dtype(), torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.are_deterministic_algorithms_enabled(),
                 torch.get_num_threads(), tuple(map(len, boxes)), tuple(f.cache_info().currsize for f in caches),
                 tuple(tuple(map(id, vars(c).values())) for c in classes), held_by(obj)))


class At(TorchDispatchMode):
    """Counts tensor operations (with `obj`: and marks the state before each), and raises at the k-th."""

    def __init__(self, k=None, exc=Fault, obj=None):
        super().__init__()
        self.n, self.k, self.exc, self.obj, self.marks = 0, k, exc, obj, []

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        self.n += 1
        if self.n == self.k:
            raise self.exc("out of memory")
        if self.k is None:
            self.marks.append(mark(self.obj))
        return func(*args, **(kwargs or {}))


def points(c, limit, tier):
    """The operations to stop at: all, or one in every state a stop can leave behind, and evenly spaced others."""
    n = c.n
    if tier == "thorough" or n <= limit:
        return range(1, n + 1)
    new = [i + 1 for i in range(n) if i == 0 or c.marks[i] != c.marks[i - 1]]
    if len(new) > 2 * limit:
        new = new[:limit] + new[limit::(len(new) - limit) // limit + 1]
    return sorted({*new, *(1 + i * (n - 1) // (limit // 2) for i in range(limit // 2 + 1))})


def cells(tier):
    out = [dict(k="call", item=n) for n in zoo()]
    out += [dict(k="build", part=i) for i in range(PARTS)]
    out += [dict(k="draws", part=i) for i in range(4)]
    out += [dict(k="h5", mode=str(m), part=i) for m in MODES for i in range(3)] + [dict(k="h5op"), dict(k="chunks")]
    out += [dict(k="fits", which=i) for i in range(3)] + [dict(k="tiles", mode=m) for m in ("bilinear", "bicubic", "spline")]
    return out


def run_cell(cell, ctx):
    globals()["run_" + cell["k"]](cell, ctx)


def stopped(ctx, f, k, exc=Fault):
    """f() stopped at operation k: its result if it got through, else None."""
    ctx.step()
    try:
        with At(k, exc):
            return f()
    except exc:
        return None


def run_call(cell, ctx):
    it = zoo()[cell["item"]]
    m = menu(it)
    d0 = it.dtypes[0]
    kinds = [c for c in m if c[1] == d0][:4]
    before = settings()
    for j, (es, d, s, o) in enumerate(kinds):
        want, first = [], []
        with ctx.case(call=str(kinds[j]), what="undisturbed"):
            obj = it.obj(d)
            want = [t.detach().clone() for t in tensors_in(it.run(obj, it.batch_of(es, d, size=s), **o))]
            e0, _, s0, o0 = kinds[0]
            first = [t.detach().clone() for t in tensors_in(it.run(it.obj(d), it.batch_of(e0, d, size=s0), **o0))]
            counts = []
            for warm in (False, True):
                obj = it.obj(d)
                if warm:
                    it.run(obj, it.batch_of(e0, d, size=s0), **o0)
                with At(obj=obj) as c:
                    it.run(obj, it.batch_of(es, d, size=s), **o)
                counts.append(c)
        for warm, c in zip((False, True), counts):
            n = c.n
            for k in points(c, 40, ctx.tier):
                for exc in (Fault, Interrupt) if ctx.tier == "thorough" else (Fault,):
                    with ctx.case(call=str(kinds[j]), stopped_at=k, of=n, after_another=warm, by=exc.__name__):
                        obj = it.obj(d)
                        if warm:
                            it.run(obj, it.batch_of(e0, d, size=s0), **o0)
                        state = {n2: t.clone() for n2, t in obj.state_dict().items()} if isinstance(obj, torch.nn.Module) else {}
                        batch = it.batch_of(es, d, size=s)
                        keep = {n2: t.clone() for n2, t in batch.items()}
                        got = stopped(ctx, lambda: it.run(obj, batch, **o), k, exc)
                        if got is not None:
                            agree(ctx, it, d, tensors_in(got), want, "result although an operation failed")
                        ctx.require(all(same_bits(batch[n2], keep[n2]) for n2 in keep), "the stopped call modified its arguments")
                        if state:
                            now = obj.state_dict()
                            ctx.require(list(now) == list(state) and all(same_bits(now[n2], state[n2]) for n2 in state),
                                        "the stopped call left another saved state behind")
                        after = settings()
                        ctx.require(after == before, f"process-wide settings after the stopped call: {[(q, v, after[q]) for q, v in before.items() if after[q] != v]}")
                        got = ctx.call(it.run, obj, batch, keep=False, label="the same call again", **o)
                        agree(ctx, it, d, tensors_in(got), want, "the same call again")
                        if j or warm:
                            got = ctx.call(it.run, obj, it.batch_of(e0, d, size=s0), keep=False, label="another call", **o0)
                            agree(ctx, it, d, tensors_in(got), first, "another call")


def close_all(ctx, f, got, want, what):
    ctx.require(len(got) == len(want), f"{what}: number of outputs")
    for g, w in zip(got, want):
        ctx.require(g.shape == w.shape and g.dtype == w.dtype, f"{what}: {tuple(g.shape)} {g.dtype} instead of {tuple(w.shape)} {w.dtype}")
        if g.is_floating_point() or g.is_complex():
            ctx.close(g, w, what, rtol=f.tol)
        else:
            ctx.require(torch.equal(g, w), f"{what}: differs")


def run_build(cell, ctx):
    """A constructor or fit that is stopped leaves the process, its arguments and later objects alone."""
    fs = families()
    before = settings()
    for i, f in enumerate(fs):
        if i % PARTS != cell["part"]:
            continue
        good = [c for c in f.cfgs if "_bad" not in c[1]]
        base = good[0][1]

        def whole(cfg):
            seed(7)
            o = f.make(**dict(cfg))
            seed(0)
            return pub(f.use(o, dict(cfg)))

        for lab, cfg in good if ctx.tier == "thorough" else good[:2]:
            with ctx.case(family=f.name, config=lab, what="undisturbed"):
                want, other = whole(cfg), whole(base)
                args = tensors_in(list(cfg.values()))
                keep = [t.clone() for t in args]
                with At() as c:
                    whole(cfg)
            for k in points(c, 20, ctx.tier):
                with ctx.case(family=f.name, config=lab, stopped_at=k, of=c.n):
                    got = stopped(ctx, lambda: whole(cfg), k)
                    if got is not None:
                        close_all(ctx, f, got, want, "result although an operation failed")
                    ctx.require(all(same_bits(a, b) for a, b in zip(args, keep)), "the stopped construction or call modified its arguments")
                    after = settings()
                    ctx.require(after == before, f"process-wide settings afterwards: {[(q, v, after[q]) for q, v in before.items() if after[q] != v]}")
                    close_all(ctx, f, whole(cfg), want, "a new object of the same configuration")
                    close_all(ctx, f, whole(base), other, "a new object of the first configuration")


def run_draws(cell, ctx):
    from checks.p37 import flat, sources

    for i, src in enumerate(sources()):
        if i % 4 != cell["part"]:
            continue
        with ctx.case(source=src.name, what="undisturbed"):
            obj = src.make()
            want = {}
            for op in "AB":
                seed(5)
                want[op] = flat(getattr(src, op)(obj))
            seed(5)
            with At() as c:
                src.A(obj)
        for k in points(c, 60, ctx.tier):
            with ctx.case(source=src.name, stopped_at=k, of=c.n):
                obj = src.make()
                seed(5)
                stopped(ctx, lambda: src.A(obj), k)
                for op in "ABA":
                    seed(5)
                    got = flat(getattr(src, op)(obj))
                    ctx.require(len(got) == len(want[op]) and all(same_bits(a, b) for a, b in zip(got, want[op])),
                                f"draw {op} from the same seed differs after a draw that was stopped")


def run_fits(cell, ctx):
    """A fit or load that is stopped: the transform is refused, or as fit as before or after; doing it again makes it right."""
    from mc.data import noise
    from ml4gw import transforms as tf

    f64 = torch.float64
    x, y = noise((2, 640), f64, "fitx"), 3 * noise((2, 640), f64, "fity") + 1
    batch = noise((3, 2, 128), f64, "fitb") * torch.arange(1.0, 4, dtype=f64).reshape(-1, 1, 1)
    if cell["which"] == 0:
        def make():
            return tf.ChannelWiseScaler(2).double()

        fits = [lambda o, b: o.fit(b), lambda o, b: o.fit(b, std_reg=0.5)]

        def use(o):
            return o(batch)
    elif cell["which"] == 1:
        def make():
            return tf.FixedWhiten(2, 2.0, 64, f64)

        fits = [lambda o, b: o.fit(0.5, *b, fftlength=1.0), lambda o, b: o.fit(0.5, *b, fftlength=1.0, highpass=8.0, overlap=0.25)]

        def use(o):
            return o(batch)
    else:
        def make():
            return tf.SnrRescaler(2, 64, 2.0, 4.0, dtype=f64)

        fits = [lambda o, b: o.fit(*b, fftlength=1.0), lambda o, b: o.fit(*b, fftlength=2.0)]

        def use(o):
            return o(batch, torch.tensor([4.0, 9.0, 30.0], dtype=f64))
    want = {}
    for j, fit in enumerate(fits):
        for b in "xy":
            with ctx.case(fit=j, on=b, what="undisturbed"):
                o = make()
                fit(o, dict(x=x, y=y)[b])
                want[j, b] = [t.clone() for t in tensors_in(use(o))]
    for j, fit in enumerate(fits):
        with At() as c:
            fit(make(), x)
        for k in range(1, c.n + 1):
            with ctx.case(fit=j, stopped_at=k, of=c.n, what="first fit"):
                o = make()
                through = stopped(ctx, lambda: fit(o, x) or True, k)
                try:
                    got = tensors_in(use(o))
                except ValueError:
                    ctx.require(not through, "a fit that returned is not in effect")
                    got = None
                if got is not None:
                    agree_all(ctx, got, want[j, "x"], "use after a stopped fit that is not refused")
                fit(o, y)
                agree_all(ctx, tensors_in(use(o)), want[j, "y"], "use after the fit was repeated on other data")
            with ctx.case(fit=j, stopped_at=k, of=c.n, what="second fit"):
                o = make()
                fits[0](o, y)
                before = {n: t.clone() for n, t in o.state_dict().items()}
                through = stopped(ctx, lambda: fit(o, x) or True, k)
                if through:
                    agree_all(ctx, tensors_in(use(o)), want[j, "x"], "use after a fit")
                elif all(same_bits(t, before[n]) for n, t in o.state_dict().items()):
                    agree_all(ctx, tensors_in(use(o)), want[0, "y"], "use after a fit that was stopped before it stored anything")
                fit(o, x)
                agree_all(ctx, tensors_in(use(o)), want[j, "x"], "use after the fit was repeated")
        whole = make()
        fit(whole, x)
        saved = whole.state_dict()
        with At() as c:
            make().load_state_dict(saved)
        for k in range(1, c.n + 1):
            for first in (False, True):
                with ctx.case(fit=j, stopped_at=k, of=c.n, fitted_before=first, what="load"):
                    o = make()
                    if first:
                        fits[0](o, y)
                    try:
                        with At(k):
                            o.load_state_dict(saved)
                    except RuntimeError:
                        pass
                    ctx.step()
                    if not first:
                        try:
                            agree_all(ctx, tensors_in(use(o)), want[j, "x"], "use after a stopped load that is not refused")
                        except ValueError:
                            ctx.count("refused")
                    o.load_state_dict(saved)
                    agree_all(ctx, tensors_in(use(o)), want[j, "x"], "use after the load was repeated")


def agree_all(ctx, got, want, what):
    ctx.require(len(got) == len(want), f"{what}: number of outputs")
    for g, w in zip(got, want):
        ctx.require(g.shape == w.shape and g.dtype == w.dtype, f"{what}: {tuple(g.shape)} {g.dtype} instead of {tuple(w.shape)} {w.dtype}")
        ctx.close(g, w, what, rtol=1e-6 if g.dtype == torch.float64 else 1e-4)


def run_tiles(cell, ctx):
    """Computing Q-tiles that is stopped leaves those computed before."""
    from mc.data import noise
    from ml4gw.transforms import SingleQTransform

    def make():
        return SingleQTransform(1.0, 256, [10, 12], 4, mismatch=0.05, interpolation_method=cell["mode"])

    def use(o):
        return [o.get_max_energy(), o.get_max_energy(dimension="neither"), o.interpolate()]

    kinds = [((256,), "median"), ((2, 256), None), ((3, 2, 256), "mean"), ((1, 1, 256), "median")]
    xs = [noise(sh, torch.float32, ("tiles", i)) for i, (sh, _) in enumerate(kinds)]
    want = []
    for i, (sh, norm) in enumerate(kinds):
        with ctx.case(shape=sh, norm=norm, what="undisturbed"):
            o = make()
            o.compute_qtiles(xs[i], norm)
            want.append([t.clone() for t in use(o)])
    for a, b in itertools.product([None, *range(len(kinds))], range(len(kinds))):
        if a == b or len(want) < len(kinds):
            continue
        with At() as c:
            make().compute_qtiles(xs[b], kinds[b][1])
        for k in range(1, c.n + 1) if ctx.tier == "thorough" or c.n <= 60 else sorted({1 + i * (c.n - 1) // 59 for i in range(60)}):
            with ctx.case(first=a, then=b, stopped_at=k, of=c.n):
                o = make()
                if a is not None:
                    o.compute_qtiles(xs[a], kinds[a][1])
                through = stopped(ctx, lambda: o.compute_qtiles(xs[b], kinds[b][1]) or True, k)
                if through or a is not None:
                    agree_all(ctx, use(o), want[b if through else a], "tiles after a computation that was stopped")
                else:
                    for f in (o.get_max_energy, o.interpolate):
                        ctx.raises(RuntimeError, f)
                o.compute_qtiles(xs[b], kinds[b][1])
                agree_all(ctx, use(o), want[b], "tiles after the computation was repeated")


# -- sources of data --------------------------------------------------------------------------
SIZES, K, CH = (14, 9, 22), 4, ("ch0", "ch1")
FAULTS = ("gone", "torn", "empty", "no channel", "short")


def damage(path, kind, f):
    if kind == "gone":
        os.remove(path)
    elif kind == "torn":
        with open(path, "r+b") as fh:
            fh.truncate(os.path.getsize(path) // 3)
    elif kind == "empty":
        with open(path, "w"):
            pass
    else:
        os.remove(path)
        with h5py.File(path, "w") as h:
            for c, name in enumerate(CH):
                if kind == "no channel" and c == 1:
                    continue
                n = SIZES[f] if kind != "short" else 2
                h.create_dataset(name, data=(f * 8 + c) * 10_000 + np.arange(n, dtype="float64"), chunks=(2,))


def world(folder):
    from checks.p07 import write

    return write(folder, SIZES, len(CH))


def read(ctx, ds, mode, rule, batches):
    """One epoch: every batch right, or a fault; returns the number of batches and the fault."""
    from checks.p07 import check_batch

    got = []

    def body(ch):
        for x in ds:
            got.append(x)
        return len(got)

    try:
        patterned(body, rule)
        err = None
    except Exception as e:  # noqa: BLE001
        err = e
    for x in got:
        check_batch(ctx, x, SIZES, range(len(CH)), 6, K, mode, 3)
    ctx.step()
    if err is None:
        ctx.require(len(got) == batches, f"an epoch without a fault has {len(got)} batches, not {batches}")
    return err


def make(paths, mode):
    from ml4gw.dataloading import Hdf5TimeSeriesDataset

    return Hdf5TimeSeriesDataset(paths, list(CH), K, 6, 2, mode)


def run_h5(cell, ctx):
    mode = {"True": True, "False": False, "files": "files"}[cell["mode"]]
    folder = tempfile.mkdtemp(prefix="p39-")
    try:
        ops = ["read", "fix"] + [(f, kind) for f in (0, 2) for kind in FAULTS]
        hists = [h for h in itertools.product(ops, repeat=3 if ctx.tier == "quick" else 4) if "read" in h]
        for i, h in enumerate(hists):
            if i % 3 != cell["part"]:
                continue
            for rule in ("ramp", ("lcg", 1)):
                with ctx.case(mode=mode, history=h, rule=rule):
                    sub = tempfile.mkdtemp(dir=folder)
                    paths = world(sub)
                    ds = make(paths, mode)
                    bad = set()
                    for op in (*h, "read", "fix", "read"):
                        if op == "read":
                            err = read(ctx, ds, mode, rule, 2)
                            ctx.require(bad or err is None, f"a fault without a cause: {err!r}")
                        elif op == "fix":
                            world(sub)
                            bad.clear()
                        else:
                            world(sub) if op[0] in bad else None
                            damage(paths[op[0]], op[1], op[0])
                            bad.add(op[0])
                    shutil.rmtree(sub)
    finally:
        shutil.rmtree(folder)


class Failing:
    """h5py's k-th opening or reading fails."""

    def __init__(self, what, k):
        self.what, self.k, self.n = what, k, 0

    def __enter__(self):
        me = self
        self.saved = (h5py.File.__init__, h5py.Dataset.__getitem__)

        def tick(what):
            if what == me.what:
                me.n += 1
                if me.n == me.k:
                    raise OSError("input/output error")

        def opened(f, *a, **k):
            tick("open")
            return me.saved[0](f, *a, **k)

        def item(d, *a, **k):
            tick("read")
            return me.saved[1](d, *a, **k)

        h5py.File.__init__, h5py.Dataset.__getitem__ = opened, item
        return self

    def __exit__(self, *a):
        h5py.File.__init__, h5py.Dataset.__getitem__ = self.saved


def held():
    return len(os.listdir("/proc/self/fd"))


def run_h5op(cell, ctx):
    folder = tempfile.mkdtemp(prefix="p39-")
    try:
        paths = world(folder)
        for mode, rule in itertools.product(MODES, ("ramp", ("lcg", 1))):
            with ctx.case(mode=mode, rule=rule, what="undisturbed"):
                total = {}
                for what in ("open", "read"):
                    with Failing(what, None) as c:
                        ctx.require(read(ctx, make(paths, mode), mode, rule, 2) is None, "fault without a cause")
                    total[what] = c.n
            for what, n in total.items():
                for k in range(1, n + 1):
                    with ctx.case(mode=mode, rule=rule, fails=what, k=k, of=n):
                        try:
                            with Failing(what, k):
                                ds = make(paths, mode)
                                err = read(ctx, ds, mode, rule, 2)
                        except OSError:
                            ctx.count("construction fails")
                            ds, err = make(paths, mode), None
                        ctx.require(err is None or isinstance(err, OSError), f"the fault surfaces as {err!r}")
                        ctx.require(read(ctx, ds, mode, rule, 2) is None, "a fault after the fault is gone")
            # many faults: nothing is left open
            with ctx.case(mode=mode, rule=rule, what="open files"):
                ds = make(paths, mode)
                n = []
                for _ in range(3):
                    for k in (1, 2, 3):
                        for what in ("open", "read"):
                            with Failing(what, k):
                                read(ctx, ds, mode, rule, 2)
                    n.append(held())
                ctx.require(n[2] <= n[0], f"files stay open after faults: {n}")
        # in the workers of a data loader
        for workers, kind in itertools.product((1, 2), FAULTS[:4]):
            with ctx.case(workers=workers, fault=kind):
                sub = tempfile.mkdtemp(dir=folder)
                p = world(sub)
                ds = make(p, True)
                damage(p[2], kind, 2)
                err, got = None, []
                try:
                    for _ in range(6):
                        got += list(torch.utils.data.DataLoader(ds, batch_size=None, num_workers=workers))
                except Exception as e:  # noqa: BLE001
                    err = repr(e)
                gc.collect()
                ctx.step()
                from checks.p07 import check_batch
                for x in got:
                    check_batch(ctx, x, SIZES, range(len(CH)), 6, K, True, 3)
                world(sub)
                again = list(torch.utils.data.DataLoader(ds, batch_size=None, num_workers=workers))
                ctx.require(len(again) == 2, f"{len(again)} batches after the repair")
                for x in again:
                    check_batch(ctx, x, SIZES, range(len(CH)), 6, K, True, 3)
                ctx.count("faults surfaced", err is not None)
    finally:
        shutil.rmtree(folder)


def run_chunks(cell, ctx):
    from checks.p06 import check_batch, chunk
    from ml4gw.dataloading import ChunkedTimeSeriesDataset

    class Broken(Exception):
        pass

    class Producer:
        def __init__(self, at, kind):
            self.at, self.kind, self.shape = at, kind, (2, 3, 9)

        def __len__(self):
            return 3

        def __iter__(self):
            for i in range(3):
                x = chunk(i, *self.shape)
                if i == self.at:
                    if self.kind == "raises":
                        raise Broken("no more data")
                    if self.kind == "none":
                        x = None
                    elif self.kind == "flat":
                        x = x.reshape(-1)
                    elif self.kind == "short":
                        x = x[..., :2]
                yield x

    warnings.filterwarnings("ignore")
    for coin, per, at, kind, rule in itertools.product((True, False), (1, 2), (0, 1, 2), ("raises", "none", "flat", "short"), ("ramp", ("lcg", 1))):
        with ctx.case(coincident=coin, per=per, fails_at=at, kind=kind, rule=rule):
            src = Producer(at, kind)
            ds = ChunkedTimeSeriesDataset(src, 4, 5, per, coin)
            for faulty in (True, True, False, True, False):
                src.at = at if faulty else None
                got, err = [], None

                def body(ch):
                    for x in ds:
                        got.append(x)

                try:
                    patterned(body, rule)
                except Exception as e:  # noqa: BLE001
                    err = e
                ctx.step()
                ctx.require((err is not None) == faulty, f"fault: {faulty}, surfaced: {err!r}")
                if faulty and kind == "raises":
                    ctx.require(isinstance(err, Broken), f"the producer's error surfaces as {err!r}")
                ctx.require(len(got) == per * (at if faulty else 3), f"{len(got)} batches")
                for j, x in enumerate(got):
                    check_batch(ctx, x, j // per, src.shape, 5, 4, coin)
