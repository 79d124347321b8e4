"""P38: a number is the same number however it is written.

For every configuration of every component (mc.variants) each argument, alone and all together, is written in the other
ways Python offers for the same value: a whole float as an int, an int as a float where a float is documented, numpy
scalars of either kind (what h5py attributes are), a list as a tuple and back.  Every call is also made with its
arguments by position, by keyword in another order, and with the documented defaults (mc/signatures.json) written out.
The model is the canonical spelling.
"""
import importlib
import itertools
import json
import os

import numpy as np
import torch
from mc.core import VERIF
from mc.variants import child, families, pub, seed

BOUNDS = ("every component x up to 15 configurations, every argument in up to 4 further spellings alone, and all arguments "
          "at once in each kind of spelling; every configuration with all arguments positional, by keyword in reverse order and with every "
          "documented default written out; thorough: every pair of arguments in every pair of spellings")
ASSUMPTIONS = ["spellings the documentation rules out (a float where an int is documented) are not included"]

# documented as whole numbers: not written as floats
WHOLE = set("""N nperseg nstride num_channels kernel_size batch_size batches_per_epoch batches_per_chunk max_center_offset stride
 snapshot_size stride_size channels_per_snapshot max_shift integration_length window_size n encode_channels decode_channels
 layers classes in_channels d_model d_state d_input d_output n_layers groups num_groups width_per_group n_fft hop_length
 win_length pad spectrogram_shape grid_size kx ky latent_dim num_updates update_size offset n_avg chans""".split())
_f = None


def fams():
    global _f
    if _f is None:
        _f = {f.name: f for f in families()}
    return _f


def spell(name, v):
    """(kind, other spelling) of one value."""
    out = []
    if isinstance(v, bool) or v is None:
        return out
    if isinstance(v, float):
        if v == int(v):
            out.append(("int", int(v)))
            out.append(("np.int", np.int64(int(v))))
        out.append(("np.float", np.float64(v)))
    elif isinstance(v, int):
        out.append(("np.int", np.int64(v)))
        if name not in WHOLE:
            out += [("float", float(v)), ("np.float", np.float64(v))]
    elif isinstance(v, list | tuple) and v and all(isinstance(e, int | float | bool) for e in v):
        out.append(("other", tuple(v) if isinstance(v, list) else list(v)))
        kinds = {}
        for e in v:
            for k, w in spell(name, e):
                kinds.setdefault(k, []).append(w)
        for k, ws in kinds.items():
            if len(ws) == len(v):
                out.append((k, type(v)(ws)))
        if "float" in kinds and len(v) > 1 and len(kinds["float"]) == len(v):
            out.append(("mixed", type(v)([kinds["float"][0], *v[1:]])))
        if "int" in kinds and len(v) > 1 and isinstance(v[0], float) and v[0] == int(v[0]):
            out.append(("mixed", type(v)([int(v[0]), *v[1:]])))
    elif isinstance(v, dict):
        for k0, e in v.items():
            for k, w in spell(k0, e):
                out.append((f"{k0}:{k}", dict(v, **{k0: w})))
    return out


def cells(tier):
    return [dict(name=f.name) for f in fams().values()] + [dict(mode=m, part=i, parts=4) for m in MODES for i in range(4)]


# -- ways of passing the same arguments ------------------------------------------------------
MODES = ("positional", "reversed", "defaults")
with open(os.path.join(VERIF, "mc", "signatures.json")) as fh:
    TABLE = json.load(fh)


def passed(rows, args, kw, mode):
    """The same arguments passed in another way."""
    names = [r[0] for r in rows if r[1] == "POSITIONAL"]
    named = [r[0] for r in rows if r[1] != "VAR_KW"]
    var = any(r[1] == "VAR" for r in rows)
    default = {r[0]: r[2][1] for r in rows if r[2][0] == "value"}
    extra = ()
    if len(args) > len(names):
        args, extra = args[:len(names)], args[len(names):]
    given = dict(zip(names, args))
    given.update(kw)
    if mode == "reversed":
        first = {} if extra else dict(zip(names, args))
        known = dict(first, **{k: v for k, v in kw.items() if k in named})
        return (*args, *extra) if extra else (), dict(reversed(known.items())) | {k: v for k, v in kw.items() if k not in named}
    if mode == "defaults":
        full = dict(default, **given)
        if var:
            return (*args, *extra), {k: v for k, v in full.items() if k not in names[:len(args)]}
        return (), full
    if var:
        return (*args, *extra), kw
    out = []
    last = max((i for i, n in enumerate(names) if n in given), default=-1)
    for n in names[:last + 1]:
        if n in given:
            out.append(given.pop(n))
        elif n in default:
            out.append(default[n])
        else:
            break
    return tuple(out), given


def rebind(mode):
    """Every documented callable is, from here on in this process, called in the given way."""
    def wrap(f, rows, method):
        def call(*args, **kw):
            me, args = (args[:1], args[1:]) if method else ((), args)
            a, k = passed(rows, args, kw, mode)
            return f(*me, *a, **k)
        return call

    found = []
    for path, rows in TABLE.items():
        mod, name = path.split(":")
        owner, attr = importlib.import_module(mod), name
        if "." in name:
            owner, attr = getattr(owner, name.split(".")[0]), name.split(".")[1]
        o = getattr(owner, attr)
        if isinstance(o, type):
            owner, attr, o = o, "__init__", o.__init__
        found.append((owner, attr, wrap(o, rows, isinstance(owner, type))))
    for owner, attr, w in found:
        setattr(owner, attr, w)


def run_mode(cell, ctx):
    names = [n for i, n in enumerate(fams()) if i % cell["parts"] == cell["part"]]
    want = {}
    for n in names:
        f = fams()[n]
        for i, (lab, cfg) in enumerate(f.cfgs):
            if "_bad" not in cfg:
                with ctx.case(family=n, config=lab, mode="canonical"):
                    want[n, i] = result(f, dict(cfg))
                    ctx.step(2)

    def go():
        rebind(cell["mode"])
        again, res = {f.name: f for f in families()}, {}
        for n, i in want:
            f = again[n]
            try:
                res[n, i] = [[t.numpy() for t in u] for u in result(f, dict(f.cfgs[i][1]))]
            except Exception as e:  # noqa: BLE001
                res[n, i] = f"{type(e).__name__}: {e}"
        return res

    ok, res = child(go)
    for n, i in want:
        f = fams()[n]
        with ctx.case(family=n, config=f.cfgs[i][0], mode=cell["mode"]):
            ctx.require(ok, res)
            ctx.step(2)
            got = res[n, i]
            ctx.require(not isinstance(got, str), got)
            for k, (g, w) in enumerate(zip(got, want[n, i])):
                same(ctx, [torch.as_tensor(t) for t in g], w, f.tol, f"use {k}")


def result(f, cfg, uses=2):
    torch.set_grad_enabled(True)
    seed(7)
    o = f.make(**cfg)
    res = []
    for k in range(uses):
        seed(k)
        res.append(pub(f.use(o, dict(cfg))))
    return res


def run_cell(cell, ctx):
    if "mode" in cell:
        run_mode(cell, ctx)
        return
    f = fams()[cell["name"]]
    for i, (lab, cfg) in enumerate(f.cfgs):
        if "_bad" in cfg:
            continue
        with ctx.case(family=f.name, config=lab):
            want = result(f, dict(cfg))
            ctx.step(2)
        alone = [(n, k, w) for n, v in cfg.items() for k, w in spell(n, v)]
        base = f.cfgs[0][1]
        todo = [[a] for a in alone if i == 0 or a[0] not in base or base[a[0]] is not cfg[a[0]]]
        todo += [[a for a in alone if a[1].split(":")[-1] == kind and not (a[1].count(":") and kind == "other")] for kind in sorted({a[1].split(":")[-1] for a in alone})]
        if ctx.tier == "thorough":
            todo += [list(p) for p in itertools.combinations(alone, 2) if p[0][0] != p[1][0]]
        for ch in todo:
            new = dict(cfg)
            for n, _, w in ch:
                new[n] = w
            if len(ch) == 1 and skip(f.name, *ch[0][:2]):
                continue
            if len(ch) > 1:
                ch = [c for c in ch if not skip(f.name, *c[:2])]
                new = dict(cfg, **{n: w for n, _, w in ch})
            if not ch:
                continue
            with ctx.case(family=f.name, config=lab, spelled=[(n, repr(w)) for n, _, w in ch]):
                got = result(f, new)
                ctx.step(2)
                for k, (g, w) in enumerate(zip(got, want)):
                    same(ctx, g, w, f.tol, f"use {k}")


def skip(name, arg, kind):
    # the arguments of a distribution become tensors, for which numpy scalars are of numpy's precision; networks pass
    # their sizes on to torch, which takes Python's integers
    return (name, arg, kind) in SKIP or (fams()[name].pid in ("P25", "P31", "P32", "P33") and kind.startswith("np."))


SKIP = {("QScan", "frange", "other")}  # documented as a list, and copied as one


def same(ctx, got, want, tol, what):
    ctx.require(len(got) == len(want), f"{what}: {len(got)} outputs, {len(want)} when spelled canonically")
    for j, (g, w) in enumerate(zip(got, want)):
        ctx.require(g.shape == w.shape and g.dtype == w.dtype, f"{what}: {tuple(g.shape)} {g.dtype}, {tuple(w.shape)} {w.dtype} when spelled canonically")
        if not g.is_floating_point() and not g.is_complex():
            ctx.require(torch.equal(g, w), f"{what}: output {j} differs from the canonical spelling")
        else:
            ctx.close(g, w, f"{what}: output {j} against the canonical spelling", rtol=tol)
