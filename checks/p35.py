"""P35: gradients are the derivatives of what is computed, whatever else the component does in between."""
import itertools
import random

import torch
from checks.p09 import agree, zoo
from mc.core import tensors_in
from mc.data import noise

BOUNDS = ("every differentiable zoo component x every floating point input x 4 contents, all sizes and options: "
          "central differences along 3 fixed directions; every ordering of up to 2 (thorough 3) forward calls over two "
          "contents/sizes/options, their backward passes and calls without gradients (no_grad, inference mode); "
          "gradients of the inputs and of every parameter")
ASSUMPTIONS = ["central differences with the best of four steps agree with the derivative to 5%, "
               "single precision inside a component permitting", "inputs at which the function is singular (vanishing "
               "perpendicular spins) are only required not to fail"]
# integer counts; bounds evaluated in single precision at astronomical magnitudes; densities of host numbers
SKIP = {"LeakyIntegrator(count)", "chirp_time_bound", "chirp_start_frequency_bound", "final_black_hole_spin_bound",
        "merge_time_bound", "ringdown_time_bound", "frequency_isco", "bilby_spins_to_lalsim"}
# the delay is rounded to whole samples; the sky position reaches the output only through it
FLAT = {("shift_responses", "dec"), ("shift_responses", "phi")}
SINGULAR = {("IMRPhenomPv2", "s1x"), ("IMRPhenomPv2", "s1y"), ("IMRPhenomPv2", "s2x"), ("IMRPhenomPv2", "s2y")}


def names():
    return [n for n in zoo() if n not in SKIP and not n.endswith(".log_prob")]


def cells(tier):
    return [dict(item=n, part=p) for n in names() for p in ("derivative", "histories")]


def loss(outs):
    total = torch.zeros((), dtype=torch.float64)
    for j, o in enumerate(outs):
        if o.is_complex():
            o = torch.view_as_real(o)
        if o.is_floating_point():
            w = noise(o.shape, torch.float64, ("weight", j))
            total = total + (o.double() / o.detach().double().abs().max().clamp(min=1e-300) * w).sum()
    return total


def fixed_loss(scales):
    def f(outs):
        total = torch.zeros((), dtype=torch.float64)
        for j, (o, s) in enumerate(zip(outs, scales, strict=True)):
            if o.is_complex():
                o = torch.view_as_real(o)
            if o.is_floating_point():
                total = total + (o.double() / s * noise(o.shape, torch.float64, ("weight", j))).sum()
        return total
    return f


def scales_of(outs):
    return [max(float(o.detach().abs().max()), 1e-300) if o.numel() else 1.0 for o in outs]


def diff_inputs(batch):
    return [k for k, v in batch.items() if v.is_floating_point() or v.is_complex()]


def derivative(cell, ctx):
    it = zoo()[cell["item"]]
    d = it.dtypes[0] if torch.float64 not in it.dtypes else torch.float64
    # an isolated spike leaves medians so close to zero that quotients by them cannot be differenced
    contents = [(0, 3), (1, 0) if it.group == "image" else (0, 2) if it.name == "IMRPhenomPv2" else (1, 2)]
    for size, ov, es in itertools.product(it.sizes, it.overrides, contents):
        base = it.batch_of(es, d, size=size)
        for k in diff_inputs(base):
            with ctx.case(input=k, size=size, options=list(ov), contents=es):
                obj = it.obj(d)

                def outs(t):
                    return tensors_in(it.run(obj, {**{a: b.clone() for a, b in base.items()}, k: t}, **ov))
                with torch.no_grad():
                    f = fixed_loss(scales_of(outs(base[k].clone())))
                x = base[k].clone().requires_grad_(True)
                val = f(outs(x))
                if (it.name, k) in FLAT:
                    continue
                ctx.require(val.requires_grad, f"no gradient reaches {k}")
                g, = torch.autograd.grad(val, x, allow_unused=True)
                ctx.step()
                ctx.require(g is not None, f"no gradient reaches {k}")
                if (it.name, k) in SINGULAR and not bool(torch.isfinite(g).all()):
                    continue
                ctx.require(bool(torch.isfinite(g).all()),
                            f"{int((~torch.isfinite(g)).sum())} of {g.numel()} derivatives by {k} are not finite")
                size_of = base[k].abs().reshape(len(base[k]), -1).mean(-1)
                size_of = size_of.clamp(min=1e-3 * float(size_of.max()))
                dirs = [(noise(x.shape, torch.float64, ("dir", k, j)) * size_of.double().reshape(
                    (-1,) + (1,) * (x.ndim - 1))).to(d) for j in range(3)]
                gr = g.real if g.is_complex() else g
                an = torch.stack([(gr.double() * v.double()).sum() for v in dirs])
                best = None
                for h in (1e-2, 1e-3, 1e-4, 1e-5):
                    with torch.no_grad():
                        nu = torch.stack([(f(outs(base[k] + h * v)) - f(outs(base[k] - h * v))) / (2 * h) for v in dirs])
                    ctx.step(6)
                    err = float((nu - an).norm() / torch.maximum(nu.norm(), an.norm()).clamp(min=1e-7))
                    if best is None or err < best[0]:
                        best = (err, nu)
                ctx.require(best[0] < 0.05, f"derivative by {k} is {an.tolist()}, central difference {best[1].tolist()}")
                ctx.state(it.name, k, size, es, an)


def words(top):
    """Every order of forward calls (A/B), one backward per forward, and calls without gradients."""
    def rec(word, live, nf):
        if word and not live:
            yield word
        if nf < top:
            for s in "AB":
                yield from rec(word + [("F", s, nf)], live + [nf], nf + 1)
        for i in live:
            yield from rec(word + [("B", None, i)], [j for j in live if j != i], nf)
    base = list(rec([], [], 0))
    out = [w for w in base if w]
    for w in base:
        if sum(o[0] == "F" for o in w) <= 2:
            for pos in range(len(w)):
                for kind in "NI":
                    out += [w[:pos] + [(kind, s, None)] + w[pos:] for s in "AB"]
    return out


def histories(cell, ctx):
    it = zoo()[cell["item"]]
    d = it.dtypes[0] if torch.float64 not in it.dtypes else torch.float64
    slots = dict(A=((0, 1), it.sizes[0], it.overrides[0]), B=((3, 2), it.sizes[-1], it.overrides[-1]))

    def forward(obj, slot):
        es, size, ov = slots[slot]
        leaves = {k: v.clone().requires_grad_(v.is_floating_point() or v.is_complex())
                  for k, v in it.batch_of(es, d, size=size).items()}
        outs = tensors_in(it.run(obj, leaves, **ov))
        return leaves, loss(outs)

    def backward(obj, leaves, val):
        wanted = [v for v in leaves.values() if v.requires_grad]
        if isinstance(obj, torch.nn.Module):
            wanted += list(obj.parameters())
        if not val.requires_grad:
            return []
        return [torch.zeros(()) if g is None else torch.view_as_real(g) if g.is_complex() else g
                for g in torch.autograd.grad(val, wanted, allow_unused=True)]

    alone = {}
    for s in "AB":
        with ctx.case(alone=s):
            obj = it.obj(d)
            alone[s] = backward(obj, *forward(obj, s))
    if len(alone) < 2:
        return
    for w in words(2 if ctx.tier == "quick" else 3):
        with ctx.case(order=" ".join(o[0] + (o[1] or str(o[2])) for o in w)):
            obj, live = it.obj(d), {}
            for op, slot, i in w:
                ctx.step()
                if op == "F":
                    live[i] = (slot, *forward(obj, slot))
                elif op == "B":
                    slot, leaves, val = live.pop(i)
                    agree(ctx, it, d, [torch.nan_to_num(g) for g in backward(obj, leaves, val)],
                          [torch.nan_to_num(g) for g in alone[slot]], f"gradient of forward call {i}")
                else:
                    es, size, ov = slots[slot]
                    with torch.no_grad() if op == "N" else torch.inference_mode():
                        it.run(obj, it.batch_of(es, d, size=size), **ov)
            ctx.state(it.name, str(w))


def run_cell(cell, ctx):
    random.seed(0)
    torch.manual_seed(0)
    (derivative if cell["part"] == "derivative" else histories)(cell, ctx)
