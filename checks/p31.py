"""P31: residual networks and group normalisation compute their definition."""
import itertools

import torch
import torch.nn.functional as F
from mc.core import Mismatch
from mc.data import DT, LAYOUTS, noise, relayout
from ml4gw.nn.norm import GroupNorm1D, GroupNorm1DGetter, GroupNorm2DGetter
from ml4gw.nn.resnet import ResNet1D, ResNet2D
from ml4gw.nn.resnet.resnet_1d import BottleneckResNet1D
from ml4gw.nn.resnet.resnet_2d import BottleneckResNet2D

BOUNDS = ("group norm: every channel/group split of 1..12 channels x lengths 1..65 x layouts x offsets up to 1e4; "
          "networks: 1-4 layers, every stride/dilation pattern, kernel sizes 1..9, groups and widths, zero-init, "
          "instance/group/batch norm, lengths 1..257 (2-d: final map larger than one pixel)")
ASSUMPTIONS = ("Parameters are read by their state-dict names. Group norm is compared with its definition while "
               "the offset is at most ten standard deviations in single precision (the variance is computed as "
               "E[x^2]-E[x]^2); beyond that the output must be finite. Vanilla blocks do not support dilation.")

NETS = {("basic", 1): ResNet1D, ("neck", 1): BottleneckResNet1D, ("basic", 2): ResNet2D,
        ("neck", 2): BottleneckResNet2D}
LAYERS = ([1], [2], [1, 1], [2, 1], [1, 2], [1, 1, 1], [1, 2, 1, 1])


def cells(tier):
    out = [dict(k="gn", C=c) for c in range(1, 13)] + [dict(k="gnfar"), dict(k="getter")]
    for (kind, dim) in NETS:
        for layers in (LAYERS if tier == "quick" else (*LAYERS, [3, 4, 6, 3])):
            out.append(dict(k="net", kind=kind, dim=dim, layers=layers))
        out.append(dict(k="train", kind=kind, dim=dim))
        out += [dict(k="opts", kind=kind, dim=dim, ks=ks) for ks in (1, 3, 9 if dim == 1 else 5)]
    return out


def randomise(mod, key):
    with torch.no_grad():
        for i, (n, p) in enumerate(sorted(mod.named_parameters())):
            p.copy_(noise(p.shape, p.dtype, (key, i)) * (0.5 if p.ndim <= 2 and "fc" not in n else
                                                         (2.0 / max(1, p[0].numel())) ** 0.5)
                    + (1.0 if p.ndim <= 2 and n.endswith("weight") and "fc" not in n else 0.0))
        for i, (n, b) in enumerate(sorted(mod.named_buffers())):
            if b.is_floating_point():
                b.copy_(noise(b.shape, b.dtype, (key, "b", i)).abs() + 0.5)
    return mod


def norm_ref(x, sd, pre, kind):
    w, b = sd[pre + "weight"].reshape(-1), sd[pre + "bias"].reshape(-1)
    C = x.shape[1]
    if kind == "batch":
        return F.batch_norm(x, sd[pre + "running_mean"], sd[pre + "running_var"], w, b, False)
    G = C if kind is None else min(C, kind)
    y = x.reshape(x.shape[0], G, -1)
    mu = y.mean(-1, keepdim=True)
    var = ((y - mu) ** 2).mean(-1, keepdim=True)
    y = ((y - mu) / torch.sqrt(var + 1e-5)).reshape(x.shape)
    sh = (1, C) + (1,) * (x.ndim - 2)
    return y * w.reshape(sh) + b.reshape(sh)


def net_ref(x, sd, kind, dim, layers, ks, groups, stride_type, norm):
    conv = F.conv1d if dim == 1 else F.conv2d
    pool = F.max_pool1d if dim == 1 else F.max_pool2d
    x = conv(x, sd["conv1.weight"], stride=2, padding=3)
    x = pool(torch.relu(norm_ref(x, sd, "bn1.", norm)), 3, 2, 1)
    dil = 1
    for i, n in enumerate(layers):
        for j in range(n):
            p = f"residual_layers.{i}.{j}."
            stride, d = 1, dil
            if j == 0 and i:
                if stride_type[i - 1] == "dilation":
                    nxt = dil * 2
                else:
                    stride, nxt = 2, dil
            elif j == 0:
                nxt = dil
            idt = x
            if kind == "basic":
                o = conv(x, sd[p + "conv1.weight"], stride=stride, padding=ks // 2)
                o = torch.relu(norm_ref(o, sd, p + "bn1.", norm))
                o = norm_ref(conv(o, sd[p + "conv2.weight"], padding=ks // 2), sd, p + "bn2.", norm)
            else:
                o = conv(x, sd[p + "conv1.weight"], padding=ks // 2)
                o = torch.relu(norm_ref(o, sd, p + "bn1.", norm))
                o = conv(o, sd[p + "conv2.weight"], stride=stride, padding=d * (ks // 2), dilation=d, groups=groups)
                o = torch.relu(norm_ref(o, sd, p + "bn2.", norm))
                o = norm_ref(conv(o, sd[p + "conv3.weight"]), sd, p + "bn3.", norm)
            # identity shortcut wherever the shape is unchanged
            if (p + "downsample.0.weight" in sd) != (stride != 1 or o.shape[1] != x.shape[1]):
                raise Mismatch(f"shortcut of {p} is not the identity exactly where the shape is kept")
            if p + "downsample.0.weight" in sd:
                idt = norm_ref(conv(x, sd[p + "downsample.0.weight"], stride=stride), sd, p + "downsample.1.", norm)
            x = torch.relu(o + idt)
            dil = nxt
    x = x.flatten(2).mean(-1)
    return x @ sd["fc.weight"].T + sd["fc.bias"]


def down(layers, st):
    s = 4
    for t in st:
        s *= 2 if t == "stride" else 1
    return s


def run_cell(cell, ctx):
    k = cell["k"]
    if k == "gn":
        C = cell["C"]
        for G in [None] + [g for g in range(1, C + 1)]:
            if G and C % G:
                with ctx.case(C=C, G=G, invalid=True):
                    ctx.raises(ValueError, GroupNorm1D, C, G)
                continue
            for L, B in itertools.product((1, 2, 3, 8, 65), (1, 3)):
                for lay, dt, off in itertools.product(LAYOUTS, DT, (0.0, 10.0)):
                    if dt == "f32" and L < 8:
                        off /= 20
                    with ctx.case(C=C, G=G, L=L, B=B, layout=lay, dt=dt, off=off):
                        m = GroupNorm1D(C, G).to(DT[dt])
                        randomise(m, "gn")
                        x = relayout(noise((B, C, L), DT[dt], "x") + off, lay)
                        got = ctx.call(m, x)
                        want = norm_ref(x.double(), {n: v.double() for n, v in m.state_dict().items()}, "", G)
                        ctx.close(got, want, "normalised", rtol=3e-3 if dt == "f32" else 1e-9, atol=1e-6)
        with ctx.case(C=C, eps=True):
            for eps in (1e-3, 0.5):
                m = GroupNorm1D(C, 1, eps=eps).double()
                x = noise((2, C, 9), torch.float64, "x", 0.3)
                y = x.reshape(2, -1)
                want = ((y - y.mean(1, keepdim=True)) / (y.var(1, unbiased=False, keepdim=True) + eps) ** 0.5)
                ctx.close(ctx.call(m, x), want.reshape(x.shape), "eps", rtol=1e-9)
        with ctx.case(C=C, dims=True):
            m = GroupNorm1D(C)
            for s in ((C, 8), (1, 2, C, 8), (8,)):
                ctx.raises(ValueError, m, noise(s))
    elif k == "gnfar":
        for off, G, sc, dt in itertools.product((1.1, 10.7, 123.4, 1e4), (None, 1, 2, 4), (0.0, 1e-3, 1.0), DT):
            with ctx.case(off=off, G=G, scale=sc, dt=dt):
                m = GroupNorm1D(8, G).to(DT[dt])
                x = (noise((16, 8, 100), torch.float64, "far", sc)
                     + off * (1 + torch.arange(16 * 8).reshape(16, 8, 1) / 77)).to(DT[dt])
                y = ctx.call(m, x)
                ctx.require(bool(torch.isfinite(y).all()), "non-finite output")
    elif k == "getter":
        for C, g, L in itertools.product((2, 4, 8, 64), (None, 1, 2, 8, 100), (5, 16)):
            if g and C % min(C, g):
                continue
            for G, sh in ((GroupNorm1DGetter, (3, C, L)), (GroupNorm2DGetter, (3, C, L, 4))):
                with ctx.case(C=C, g=g, L=L, getter=G.__name__):
                    m = randomise(G(g)(C).double(), "getter")
                    x = noise(sh, torch.float64, "x")
                    ctx.close(ctx.call(m, x), norm_ref(x, m.state_dict(), "", g), "norm", rtol=1e-9)
    elif k == "net":
        kind, dim, layers = cell["kind"], cell["dim"], cell["layers"]
        deep = sum(layers) > 6
        sts = [list(s) for s in itertools.product(("stride", "dilation"), repeat=len(layers) - 1)]
        if kind == "basic":
            sts = [s for s in sts if "dilation" not in s]
        big = len(layers) > 3
        for st, (ks, cin, ncls) in itertools.product(sts, ((3, 2, 1), (5, 1, 3), (3, 1, 2), (7, 2, 2))[:1 if (
                deep or big) else 2 if dim == 2 else 4]):
            with ctx.case(st=st, ks=ks, cin=cin, classes=ncls):
                arg = None if all(s == "stride" for s in st) and ks == 3 else st
                m = randomise(NETS[kind, dim](cin, layers, ncls, kernel_size=ks, stride_type=arg).double(),
                              "net").eval()
                sd = m.state_dict()
                base = down(layers, st)
                sizes = ((1, 2, 7, 64, 257) if dim == 1 else (base + 1,) if big else (base + 1, 2 * base + 3))
                for s in sizes:
                    sh = (2, cin, s) if dim == 1 else (2, cin, s, max(3, s // 4))
                    x = noise(sh, torch.float64, ("x", s))
                    with torch.no_grad():
                        got = ctx.call(m, x)
                        want = net_ref(x, sd, kind, dim, layers, ks, 1, st, None)
                        ctx.require(tuple(got.shape) == (2, ncls), f"shape {tuple(got.shape)}")
                        ctx.close(got, want, f"size {s}", rtol=1e-5, atol=1e-7)
                        # a different companion, alone, and in single precision
                        y = x.clone()
                        y[1] = 3 * noise(y[1].shape, torch.float64, "other")
                        ctx.close(ctx.call(m, y)[0], want[0], "other batch element", rtol=1e-5, atol=1e-7)
                        ctx.close(ctx.call(m, x[1:])[0], want[1], "alone", rtol=1e-5, atol=1e-7)
        if kind == "basic" and len(layers) > 2:
            with ctx.case(dilated_basic=True):
                st = ["dilation"] * (len(layers) - 1)
                ctx.raises(NotImplementedError, NETS[kind, dim], 1, layers, 1, stride_type=st)
    elif k == "opts":
        kind, dim = cell["kind"], cell["dim"]
        cls = NETS[kind, dim]
        bn = torch.nn.BatchNorm1d if dim == 1 else torch.nn.BatchNorm2d
        getter = GroupNorm1DGetter if dim == 1 else GroupNorm2DGetter
        widths = ((1, 64),) if kind == "basic" else ((1, 64), (2, 32), (1, 128), (32, 4))
        for (g, w), nk, ks, zi in itertools.product(widths, (None, 1, 8, "batch"), (cell["ks"],), (False, True)):
            with ctx.case(groups=g, width=w, norm=nk, ks=ks, zero=zi):
                nl = bn if nk == "batch" else (getter(nk) if nk else None)
                m = cls(2, [1, 1], 2, kernel_size=ks, groups=g, width_per_group=w, norm_layer=nl,
                        zero_init_residual=zi).double()
                x = noise((3, 2, 96) if dim == 1 else (2, 2, 9, 5), torch.float64, "x")
                for stage in (0, 1):
                    m.eval()
                    sd = m.state_dict()
                    with torch.no_grad():
                        want = net_ref(x, sd, kind, dim, [1, 1], ks, g, ["stride"], nk)
                        ctx.close(ctx.call(m, x), want, f"stage {stage}", rtol=1e-5, atol=1e-7)
                        if zi and not stage:
                            last = "bn2" if kind == "basic" else "bn3"
                            ctx.require(all(not sd[f"residual_layers.{i}.0.{last}.weight"].any()
                                            for i in (0, 1)), "residual branches not zero initialised")
                        ctx.close(ctx.call(m, x[:1]), want[:1], "alone", rtol=1e-5, atol=1e-7)
                    randomise(m, "opts")
        with ctx.case(invalid=True):
            ctx.raises(ValueError, cls, 1, [1, 1], 1, kernel_size=4)
            for st in (["stride"], ["stride"] * 3, ["nope", "stride"]):
                ctx.raises(ValueError, cls, 1, [1, 1, 1], 1, stride_type=st)
            if kind == "basic":
                ctx.raises(ValueError, cls, 1, [1, 1], 1, groups=2)
                ctx.raises(ValueError, cls, 1, [1, 1], 1, width_per_group=32)
    else:
        kind, dim = cell["kind"], cell["dim"]
        for layers, zi in itertools.product(([1], [1, 2], [2, 1, 1]), (False, True)):
            with ctx.case(layers=layers, zero=zi):
                m = NETS[kind, dim](2, layers, 2, zero_init_residual=zi).double().train()
                x = noise((3, 2, 256) if dim == 1 else (2, 2, 64, 40), torch.float64, "x")
                y = noise((x.shape[0], 2), torch.float64, "y")
                opt = torch.optim.SGD(m.parameters(), lr=1e-2)
                first = {n: p.detach().clone() for n, p in m.named_parameters()}
                for _ in range(2):
                    opt.zero_grad()
                    ((m(x) - y) ** 2).mean().backward()
                    ctx.step()
                    none = [n for n, p in m.named_parameters() if p.grad is None]
                    ctx.require(not none, f"no gradient for {none}")
                    opt.step()
                same = [n for n, p in m.named_parameters() if torch.equal(p, first[n])]
                ctx.require(not same, f"parameters not trained: {same}")
