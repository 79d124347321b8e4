"""P08: fitted transforms refuse use until fit and track the latest successful fit.

Every history of operations up to the depth bound is replayed on a fresh real
object; a model remembers which parameters are in force (or that they are
undefined after a load that failed half-way).
"""
import copy
import itertools
import pickle

import torch
from mc.core import Mismatch, same_bits
from mc.data import noise, unif
from ml4gw.transforms import ChannelWiseScaler, FixedWhiten, SnrRescaler

BOUNDS = ("5 fitted components x all histories of length <= 3 (thorough 4) over 13 operations, "
          "plus containers of two fitted transforms")
SR = 32


class Comp:
    def __init__(self, name):
        self.name = name

    def make(self):
        n = self.name
        if n == "scaler1d":
            return ChannelWiseScaler()
        if n == "scaler2":
            return ChannelWiseScaler(2)
        if n == "whiten":
            return FixedWhiten(2, 2, SR)
        if n == "whiten32":
            return FixedWhiten(2, 2, SR, dtype=torch.float32)
        return SnrRescaler(2, SR, 2, highpass=3, lowpass=14)

    def data(self, which):
        """Fresh fit arguments (so that overwriting them later is visible)."""
        s = dict(A=1.0, B=7.0, L=0.3)[which]
        n = self.name
        if n == "scaler1d":
            return (noise((64,), key=which) * s + s,), {}
        if n == "scaler2":
            return (noise((2, 64), key=which) * s + s,), (dict(std_reg=0.5) if which == "B" else {})
        if n.startswith("whiten"):
            if which == "A":
                return (1, *(noise((16 * SR,), torch.float64, (which, i)) * s for i in (0, 1))), \
                    dict(fftlength=2)
            if which == "B":
                return (0.5, *(unif((SR + 1,), 1, 3, torch.float64, (which, i)) for i in (0, 1))), \
                    dict(highpass=4)
            return (1, *(unif((9,), 1, 3, torch.float64, (which, i)) for i in (0, 1))), \
                dict(lowpass=12)
        if which == "A":
            return tuple(noise((16 * SR,), torch.float64, (which, i)) * s for i in (0, 1)), \
                dict(fftlength=2, overlap=0.5)
        return tuple(unif((SR + 1,), 1, 3, key=(which, i)) * s for i in (0, 1)), {}

    def bad_fit(self, obj):
        n = self.name
        if n == "scaler1d":
            obj.fit(noise((2, 3, 4)))
        elif n == "scaler2":
            obj.fit(noise((2, 3, 4)))
        elif n.startswith("whiten"):
            a, kw = self.data("A")
            obj.fit(*a[:-1], **kw)  # one background short
        else:
            a, kw = self.data("A")
            obj.fit(*a[:-1], **kw)

    def bad_fit2(self, obj):
        """Fails after some work was done: the last background is unusable."""
        n = self.name
        if n == "scaler1d":
            obj.fit(noise((1, 1, 1, 4)))
        elif n == "scaler2":
            obj.fit(noise((4,)).reshape(1, 1, 1, 4))
        elif n.startswith("whiten"):
            a, _ = self.data("A")
            obj.fit(a[0], a[1] * 3, a[2][:5], fftlength=2)
        else:
            a, _ = self.data("A")
            obj.fit(a[0] * 3, a[1][:5], fftlength=2)

    def inp(self):
        if self.name == "scaler1d":
            return (noise((5, 33), key="in"),)
        if self.name == "scaler2":
            return (noise((3, 2, 33), key="in"),)
        if self.name.startswith("whiten"):
            return (noise((2, 2, 2 * SR), torch.float64, key="in"),)
        return (noise((3, 2, 2 * SR), key="in"), torch.tensor([4.0, 8.0, 1.0]))

    def fitted(self, which):
        o = self.make()
        a, kw = self.data(which)
        o.fit(*a, **kw)
        return o


COMPS = ("scaler1d", "scaler2", "whiten", "whiten32", "snr")
OPS = ("fitA", "fitB", "badfit", "badfit2", "load", "load_missing", "load_missing_lax",
       "load_empty_lax", "load_shape", "call", "copy", "pickle", "overwrite")


def cells(tier):
    d = 3 if tier == "quick" else 4
    out = [dict(comp=c, first=o, depth=d) for c in COMPS for o in OPS]
    out += [dict(comp=c, first="container", depth=0) for c in COMPS]
    out += [dict(comp=c, first="values", depth=0) for c in COMPS]
    return out


def apply(ctx, comp, obj, op, st, ref):
    """Returns (object, model state).  Model: None=unfit, 'A'/'B'/'L', '?'=undefined."""
    ctx.step()
    if op in ("fitA", "fitB"):
        a, kw = comp.data(op[-1])
        before = [x.clone() for x in a if isinstance(x, torch.Tensor)]
        obj.fit(*a, **kw)
        ts = [x for x in a if isinstance(x, torch.Tensor)]
        ctx.require(all(same_bits(x, y) for x, y in zip(ts, before)), "fit modified its data")
        obj._mc_data = ts
        return obj, op[-1]
    if op in ("badfit", "badfit2"):
        try:
            getattr(comp, "bad_fit" if op == "badfit" else "bad_fit2")(obj)
        except Exception:  # noqa: BLE001
            return obj, st
        raise Mismatch("fit accepted unusable data")
    if op == "overwrite":  # the caller reuses the array it fitted on
        for x in getattr(obj, "_mc_data", []):
            x.fill_(1e3)
        return obj, st
    if op == "load":
        sd = {k: v.clone() for k, v in ref["L"].state_dict().items()}
        obj.load_state_dict(sd)
        for v in sd.values():
            v.fill_(-4)
        return obj, "L"
    if op.startswith("load"):
        sd = dict(ref["L"].state_dict())
        key = sorted(sd)[0]
        if op == "load_shape":
            sd[key] = torch.zeros(7, 7)
        elif op == "load_empty_lax":
            sd = {}
        else:
            del sd[key]
        try:
            obj.load_state_dict(sd, strict=op == "load_missing" or op == "load_shape")
        except RuntimeError:
            pass
        else:
            if op in ("load_missing", "load_shape"):
                raise Mismatch("an incomplete state was accepted silently")
        if op == "load_empty_lax":
            return obj, st
        return obj, None if st is None else "?"
    if op == "copy":
        data = getattr(obj, "_mc_data", [])
        o2 = copy.deepcopy(obj)
        o2._mc_data = data
        return o2, st
    if op == "pickle":
        data = getattr(obj, "_mc_data", [])
        o2 = pickle.loads(pickle.dumps(obj))
        o2._mc_data = data
        return o2, st
    observe(ctx, comp, obj, st, ref)
    return obj, st


def observe(ctx, comp, obj, st, ref):
    x = comp.inp()
    if st is None:
        ctx.raises(ValueError, obj, *x)
    elif st != "?":
        got = ctx.call(obj, *x, label="call", keep=False)
        want = ref[st](*x)
        for g, w in zip(got if isinstance(got, tuple) else (got,),
                        want if isinstance(want, tuple) else (want,)):
            ctx.equal(g, w, f"output with parameters {st}")
    ctx.state(comp.name, st)


def run_cell(cell, ctx):
    comp = Comp(cell["comp"])
    ref = {w: comp.fitted(w) for w in "ABL"}
    if cell["first"] == "container":
        return container(comp, ref, ctx)
    if cell["first"] == "values":
        return values(comp, ctx)
    for d in range(cell["depth"]):
        for rest in itertools.product(OPS, repeat=d):
            hist = (cell["first"], *rest)
            with ctx.case(hist=hist):
                obj, st = comp.make(), None
                for op in hist:
                    obj, st = apply(ctx, comp, obj, op, st, ref)
                observe(ctx, comp, obj, st, ref)


def container(comp, ref, ctx):
    ops = ("fit0", "fit1", "load", "lax0", "lax1", "new")
    for d in range(1, 5):
        for hist in itertools.product(ops, repeat=d):
            with ctx.case(hist=hist):
                seq = torch.nn.ModuleList([comp.make(), comp.make()])
                st = [None, None]
                full = torch.nn.ModuleList([ref["A"], ref["B"]]).state_dict()
                for op in hist:
                    ctx.step()
                    if op.startswith("fit"):
                        i = int(op[-1])
                        a, kw = comp.data("A")
                        seq[i].fit(*a, **kw)
                        st[i] = "A"
                    elif op == "load":
                        seq.load_state_dict(full)
                        st = ["A", "B"]
                    elif op == "new":
                        other = comp.make()
                        ctx.raises(ValueError, other, *comp.inp())
                    else:
                        i = int(op[-1])
                        sd = {k: v for k, v in full.items() if k.startswith(f"{i}.")}
                        seq.load_state_dict(sd, strict=False)
                        st[i] = "AB"[i]
                for i in (0, 1):
                    observe(ctx, comp, seq[i], st[i], ref)


def values(comp, ctx):
    """What fitting a scaler means."""
    if not comp.name.startswith("scaler"):
        with ctx.case(note="values decided by the whitening and rescaling properties"):
            pass
        return
    nch = None if comp.name == "scaler1d" else 2
    for n, scale, off, reg, dt in itertools.product(
            (1, 2, 7, 129), (1.0, 1e-6, 1e3), (0.0, 5.0), (0.0, 0.1),
            (torch.float32, torch.float64)):
        if n == 1 and reg == 0:
            continue
        with ctx.case(n=n, scale=scale, off=off, reg=reg, dt=dt):
            x = (noise((n,) if nch is None else (nch, n), torch.float64, "fit") * scale + off).to(dt)
            s = comp.make().to(dt)
            s.fit(x, std_reg=reg)
            m = x.double().mean(-1, keepdim=True)
            sd = (x.double() - m).pow(2).mean(-1, keepdim=True).sqrt() + reg
            for shape in ((11,), (2, 11), (3, 2, 11)):
                if len(shape) == 1 and nch:
                    continue
                if nch and shape[-2] != nch:
                    continue
                z = (noise(shape, torch.float64, "z") * scale + off).to(dt)
                got = ctx.call(s, z)
                # float32 statistics of data far from zero lose relative accuracy
                tol = (1e-5 if dt == torch.float32 else 1e-12) * (1 + float((m.abs() / sd).max()))
                if tol > 0.1:
                    continue
                ctx.close(got, (z.double() - m) / sd, "scaled", rtol=tol, atol=tol)
                back = ctx.call(s, got, reverse=True)
                ctx.close(back, z, "scale then reverse", rtol=tol)
                unit = noise(shape, dt, "unit")
                again = ctx.call(s, ctx.call(s, unit, reverse=True))
                ctx.close(again, unit, "reverse then scale", rtol=tol * 3)
