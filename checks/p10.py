"""P10: a call's result depends on its arguments only; inputs and earlier results stay untouched.

For every zoo component, every history of calls up to the depth bound over a
menu (contents, batch sizes, input sizes, precisions, options) is replayed on
one object; each observation is compared with the same call made on a fresh
object (the model).  In the `keep` mode every call additionally re-reads all
inputs and all results handed out earlier; in the `overwrite` mode the consumer
fills every result (and the arguments) with garbage after each call, and refills
the same argument tensors with the contents of the next one, so a component that
keeps a reference to either, or recognises an argument by its identity, is
caught later.  In the `errors` mode calls with unusual arguments, which a component may refuse, stand before and between.
In the `alike` mode consecutive calls differ in one argument that agrees with its predecessor in its ends, sum, set of values or identity.
"""
import itertools

import torch
from checks.p09 import agree, zoo
from mc.core import same_bits, tensors_in
from mc.data import LAYOUTS, lookalikes, relayout

BOUNDS = ("every zoo component x call histories of length <= 3 (thorough 4) over a menu of contents, batch sizes, input "
          "sizes, precisions and call options (up to 10 entries at length 2, 5 at length 3, 4 at length 4), results "
          "kept or overwritten by the consumer; calls with seven kinds of unusual arguments (refused or not) before, between and after; "
          "every argument replaced by up to six lookalikes (same ends, sum, values as a set, same tensor refilled)")


def menu(it):
    """(elements, dtype, size, options) of each call, the most different ones first."""
    s0, o0, d0 = it.sizes[0], it.overrides[0], it.dtypes[0]
    out = [((0, 1), d0, s0, o0)]
    out += [((2, 3), d0, s, o0) for s in it.sizes[1:]]
    out += [((1, 3), d0, s0, o) for o in it.overrides[1:]]
    if not it.cast:
        out += [((0, 1), d, s0, o0) for d in it.dtypes[1:]]
    out += [((2, 0, 3), d0, s0, o0), ((3,), d0, s0, o0)]
    if it.poison:
        out.append(((4, 1), d0, s0, o0))
    return out[:10]


def cells(tier):
    out = []
    for n, it in zoo().items():
        k = len(menu(it))
        for dt in (it.dtypes if it.cast else it.dtypes[:1]):
            # the first call of the history splits the work
            out += [dict(item=n, dtype=str(dt).removeprefix("torch."), mode=mode, first=i)
                    for mode in ("keep", "overwrite") for i in range(k)]
            out += [dict(item=n, dtype=str(dt).removeprefix("torch."), mode=mode, first=0)
                    for mode in ("layout", "errors", "alike")]
    return out


def layouts(ctx, it, m, fresh, short):
    """Equal arguments give equal results, however they lie in memory and whether or not gradients are recorded."""
    for i, (es, d, s, o) in enumerate(m[:1] if short else m):
        names = list(it.batch_of(es, d, size=s))
        plans = [dict.fromkeys(names, lay) for lay in LAYOUTS]
        plans += [dict(dict.fromkeys(names, "c"), **{n: lay}) for n in names[len(names) == 1:] for lay in LAYOUTS[1:]]
        for plan, grad in [(p, g) for p in plans for g in ("on", "off", "inference")]:
            with ctx.case(call=str(m[i]), layouts=plan, grad=grad):
                obj = it.obj(d)
                batch = {n: relayout(t, plan[n]) for n, t in it.batch_of(es, d, size=s).items()}
                with torch.set_grad_enabled(grad == "on"), torch.inference_mode(grad == "inference"):
                    got = ctx.call(it.run, obj, batch, keep=False, label="call", **o)
                    got = [t.detach().clone() for t in tensors_in(got)]
                agree(ctx, it, d, got, fresh(i), f"arguments laid out {plan}")
        # one row repeated without copying it
        reps = [tuple(names)] + ([(n,) for n in names] if len(names) > 1 else [])
        for plan, n in [(p, n) for p in reps for n in (3, 2)]:
            if not it.batch:
                break
            with ctx.case(call=str(m[i]), expanded=plan, rows=n):
                batch = it.batch_of((1,) * n, d, size=s)
                want = attempt(it, it.obj(d), {k: t.clone() for k, t in batch.items()}, o)[0]
                ctx.require(not isinstance(want, str), f"equal rows are refused: {want}")
                batch = {k: t[:1].expand(t.shape) if k in plan else t for k, t in batch.items()}
                got = ctx.call(it.run, it.obj(d), batch, keep=False, label="call", **o)
                agree(ctx, it, d, tensors_in(got), want, f"arguments {plan} expanded")


# arguments that a component may refuse (or accept): whatever it does, it must do the same later, and otherwise forget it
BAD = dict(short=lambda t: t[..., :3].clone() if t.ndim > 1 else t[:1].clone(),
           deep=lambda t: t[None, None].clone(),
           flat=lambda t: t.reshape(-1).clone(), empty=lambda t: t[:0].clone(),
           long=lambda t: torch.cat([t, t[..., :5]], -1) if t.ndim > 1 else t.clone(),
           whole=lambda t: t.to(torch.int64), half=lambda t: t.to(torch.float16) if t.is_floating_point() else t.clone())


def attempt(it, obj, batch, o):
    """The outcome of a call that may fail, and whether its arguments survived."""
    before = {k: t.clone() for k, t in batch.items()}
    try:
        got = [t.detach().clone() for t in tensors_in(it.run(obj, batch, **o))]
    except Exception as e:  # noqa: BLE001
        got = type(e).__name__
    return got, all(same_bits(batch[k], t) for k, t in before.items())


def errors(ctx, it, m, fresh, short):
    """Calls that are refused leave no trace."""
    good = range(min(len(m), 2 if short else 4))
    names = list(it.batch_of(*m[0][:2], size=m[0][2]))
    for kind, which in [(k, w) for k in BAD for w in [None, *(names if len(names) > 1 else [])]]:
        es, d, s, o = m[0]
        bad = {n: BAD[kind](t) if which in (None, n) else t for n, t in it.batch_of(es, d, size=s).items()}
        model, _ = attempt(it, it.obj(d), {n: t.clone() for n, t in bad.items()}, o)
        hists = [h for i, j in itertools.product(good, repeat=2) for h in ((i, "bad", j), ("bad", i, "bad", j))]
        if ctx.tier != "thorough" and len(names) > 3:
            if which is not None and kind not in ("short", "whole"):
                continue
            hists = [(0, "bad", 0)] + hists[1:2] * (which is None)
        for hist in hists:
            with ctx.case(kind=kind, argument=which, history=[str(h if h == "bad" else m[h]) for h in hist]):
                obj = it.obj(d)
                for n, h in enumerate(hist):
                    if h == "bad":
                        got, kept = attempt(it, obj, {k: t.clone() for k, t in bad.items()}, o)
                        ctx.step()
                        ctx.require(kept, f"call {n} with unusual arguments modified them")
                        if isinstance(model, str):
                            ctx.require(isinstance(got, str), f"call {n} is refused by a fresh object ({model}) but not here")
                        else:
                            ctx.require(not isinstance(got, str), f"call {n} is accepted by a fresh object, here {got}")
                            if kind not in ("half", "whole"):
                                agree(ctx, it, d, got, model, f"call {n} (unusual arguments) against a fresh object")
                    else:
                        e2, d2, s2, o2 = m[h]
                        got = ctx.call(it.run, obj, it.batch_of(e2, d2, size=s2), label=f"call {n}", **o2)
                        agree(ctx, it, d2, tensors_in(got), fresh(h), f"call {n} of {hist} against a fresh object")


def alike(ctx, it, m, fresh, short):
    """Arguments that agree in a summary (ends, length, sum, set of values, identity of the tensor) are told apart."""
    _, d, s, _ = m[0]
    es = (0, 1, 2, 3, 1)
    opts = it.overrides if ctx.tier == "thorough" else [o for i, o in enumerate(it.overrides)
                                                        if i == 0 or any(torch.is_tensor(v) for v in o.values())]
    for o in opts:
        base = it.batch_of(es, d, size=s)
        vary = [(n, k, False, t) for n, x in base.items() for k, t in lookalikes(x)]
        vary += [(n, k, True, t) for n, x in o.items() if torch.is_tensor(x) for k, t in lookalikes(x)]
        want = attempt(it, it.obj(d), {n: t.clone() for n, t in base.items()}, o)[0]
        for name, kind, opt, t in vary:
            other = (dict(base), dict(o, **{name: t})) if opt else (dict(base, **{name: t}), o)
            two = attempt(it, it.obj(d), {n: x.clone() for n, x in other[0].items()}, other[1])[0]
            if isinstance(want, str) or isinstance(two, str):
                ctx.count("alike_refused")
                continue
            for own, hist in itertools.product((False, True), ((0, 1, 0), (1, 0, 1)) if ctx.tier == "thorough" else ((0, 1, 0),)):
                if own and opt:
                    continue
                with ctx.case(argument=name, alike=kind, history=hist, refilled=own, options=str(o)):
                    obj = it.obj(d)
                    mine = {n: x.clone() for n, x in base.items()}
                    for i, h in enumerate(hist):
                        b, oo = other if h else (base, o)
                        if own:
                            mine[name].copy_(b[name])
                        else:
                            mine = {n: x.clone() for n, x in b.items()}
                        got = ctx.call(it.run, obj, mine, keep=False, label=f"call {i}", **oo)
                        agree(ctx, it, d, [x.detach().clone() for x in tensors_in(got)], two if h else want,
                              f"call {i} of {hist} ({name}: {kind}) against a fresh object")


MODES = dict(layout=layouts, errors=errors, alike=alike)


def run_cell(cell, ctx, short=False):
    it = zoo()[cell["item"]]
    dt = getattr(torch, cell["dtype"])
    m = menu(it)
    if it.cast:
        m = [(es, dt, s, o) for es, _, s, o in m]
    first, mode = cell["first"], cell["mode"]
    ref = {}

    def fresh(i):
        if i not in ref:
            es, d, s, o = m[i]
            ref[i] = [t.clone() for t in tensors_in(it.run(it.obj(d), it.batch_of(es, d, size=s), **o))]
        return ref[i]

    if mode in MODES:
        MODES[mode](ctx, it, m, fresh, short)
        return
    k = len(m)
    pairs = [(first, j) for j in range(k)] + [(first, j, first) for j in range(k) if j != first]
    triples = [(first, *r) for r in itertools.product(range(min(k, 5)), repeat=2)] if first < 5 and not short else []
    quads = [(first, *r) for r in itertools.product(range(min(k, 4)), repeat=3)] if (
        ctx.tier == "thorough" and first < 4 and not short) else []
    for hist in dict.fromkeys(pairs + triples + quads):
        with ctx.case(history=[str(m[i]) for i in hist]):
            obj = it.obj(m[first][1])
            own = {}  # the caller's buffers
            for n, i in enumerate(hist):
                es, d, s, o = m[i]
                want = fresh(i)
                batch = it.batch_of(es, d, size=s)
                if mode == "overwrite":
                    for key, t in batch.items():
                        batch[key] = own.setdefault((key, t.shape, t.dtype), t)
                        batch[key].copy_(t)
                got = ctx.call(it.run, obj, batch, keep=mode == "keep", label=f"call {n}", **o)
                agree(ctx, it, d, tensors_in(got), want, f"call {n} of {hist} against a fresh object")
                if mode == "overwrite":
                    for t in tensors_in(got) + tensors_in(batch):
                        if t.numel() and not t.is_leaf:
                            t = t.detach()
                        if any(st == 0 and sz > 1 for st, sz in zip(t.stride(), t.shape, strict=True)):
                            continue  # an expanded view cannot be written
                        with torch.no_grad():
                            t.fill_(float("nan") if t.is_floating_point() or t.is_complex() else 99)
