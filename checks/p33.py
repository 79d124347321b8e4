"""P33: autoencoders return the input shape and pair matching levels."""
import itertools

import torch
import torch.nn.functional as F
from mc.data import DT, LAYOUTS, noise, relayout
from ml4gw.nn.autoencoder import (
    AddSkipConnect,
    Autoencoder,
    ConcatSkipConnect,
    ConvolutionalAutoencoder,
)
from ml4gw.nn.norm import GroupNorm1DGetter

BOUNDS = ("1-4 levels, kernel 1..8, stride 1..4, groups 1..3, every skip connection, activations and norms, decode "
          "channels, lengths 8..65 (every residue of the strides), layouts; generic autoencoders of 1-5 tagged blocks")
ASSUMPTIONS = ("Parameters are read by their state-dict names. Lengths are those for which every level keeps at "
               "least one sample.")

CHANS = ([3], [4, 2], [2, 3, 4], [2, 2, 2, 2])


def cells(tier):
    ch = CHANS if tier == "quick" else (*CHANS, [5, 4, 3, 2, 1], [1, 8])
    return ([dict(k="conv", ch=c, skip=s) for c in ch for s in (None, "add", "cat")]
            + [dict(k="lengths", skip=s) for s in (None, "add", "cat")]
            + [dict(k="opts"), dict(k="blocks"), dict(k="errors"), dict(k="train")])


def skipper(kind, groups):
    return {None: lambda: None, "add": AddSkipConnect, "cat": lambda: ConcatSkipConnect(groups)}[kind]()


def randomise(m, key):
    with torch.no_grad():
        for i, (n, p) in enumerate(sorted(m.named_parameters())):
            p.copy_(noise(p.shape, p.dtype, (key, i)) * 0.7 + (1.0 if "norm.weight" in n else 0.0))
        for i, (n, b) in enumerate(sorted(m.named_buffers())):
            if b.is_floating_point():
                b.copy_(noise(b.shape, b.dtype, (key, "b", i)).abs() + 0.5)
    return m


def fit(x, n):
    d = n - x.shape[-1]
    if d >= 0:
        return F.pad(x, (d // 2, d - d // 2))
    left = (1 - d) // 2
    return x[..., left:left + n]


def bn(x, sd, p, norm):
    if norm == "id":
        return x
    w, b = sd[p + ".weight"].reshape(-1, 1), sd[p + ".bias"].reshape(-1, 1)
    if norm == "gn":
        mu, var = x.mean(-1, keepdim=True), x.var(-1, unbiased=False, keepdim=True)
        return (x - mu) / torch.sqrt(var + 1e-5) * w + b
    mu, var = sd[p + ".running_mean"].reshape(-1, 1), sd[p + ".running_var"].reshape(-1, 1)
    return (x - mu) / torch.sqrt(var + 1e-5) * w + b


def join(x, st, kind, groups):
    x = fit(x, st.shape[-1])
    if kind == "add":
        return x + st
    c = x.shape[1] // groups
    return torch.cat([t[:, g * c:(g + 1) * c] for g in range(groups) for t in (x, st)], 1)


def ref(x, sd, n, ks, stride, groups, act, out_act, norm, kind):
    L, pad = x.shape[-1], (ks - 1) // 2
    states = []
    for i in range(n):
        x = act(bn(F.conv1d(x, sd[f"blocks.{i}.encode_layer.weight"], stride=stride, padding=pad, groups=groups),
                   sd, f"blocks.{i}.encode_norm", norm))
        states.append(x)
    code = x
    for i in reversed(range(n)):
        x = F.conv_transpose1d(x, sd[f"blocks.{i}.decode_layer.weight"], stride=stride, padding=pad, groups=groups)
        x = (act if i else out_act)(bn(x, sd, f"blocks.{i}.decode_norm", norm))
        if i and kind:
            x = join(x, states[i - 1], kind, groups)
    return code, states[:-1], fit(x, L)


ACT = {"relu": (torch.nn.ReLU, torch.relu), "tanh": (torch.nn.Tanh, torch.tanh),
       "id": (torch.nn.Identity, lambda z: z), "sig": (torch.nn.Sigmoid, torch.sigmoid)}
NORM = {"bn": torch.nn.BatchNorm1d, "id": torch.nn.Identity, "gn": GroupNorm1DGetter()}


def smallest(L, n, ks, stride):
    for _ in range(n):
        L = (L + 2 * ((ks - 1) // 2) - ks) // stride + 1
    return L


def one(ctx, *, cin, ch, ks, stride, groups, L, kind, act="tanh", out=None, norm="bn", dec=None, B=2, dt="f64",
        layout="c", inst=False):
    n = len(ch)
    if smallest(L, n, ks, stride) < (2 if norm == "gn" else 1):
        return
    with ctx.case(cin=cin, ch=ch, ks=ks, stride=stride, groups=groups, L=L, skip=kind, act=act, out=out, norm=norm,
                  dec=dec, dt=dt, layout=layout, inst=inst):
        oa = None if out is None else (ACT[out][0]() if inst else ACT[out][0])
        m = ConvolutionalAutoencoder(cin, ch, ks, stride, groups, activation=ACT[act][0], output_activation=oa,
                                     norm=NORM[norm], decode_channels=dec, skip_connection=skipper(kind, groups))
        m = randomise(m.to(DT[dt]), "ae").eval()
        x = relayout(noise((B, cin, L), DT[dt], "x"), layout)
        sd = {k: v.double() for k, v in m.state_dict().items()}
        code, states, want = ref(x.double(), sd, n, ks, stride, groups, ACT[act][1], ACT[out or act][1], norm, kind)
        tol = 2e-3 if dt == "f32" else 1e-8
        with torch.no_grad():
            y = ctx.call(m, x)
            ctx.require(tuple(y.shape) == (B, dec or cin, L), f"output shape {tuple(y.shape)}")
            ctx.close(y, want, "forward", rtol=tol, atol=1e-9)
            c, st = ctx.call(m.encode, x, return_states=True)
            ctx.close(c, code, "encode", rtol=tol, atol=1e-9)
            ctx.require(len(st) == n - 1, f"{len(st)} states")
            for i, (a, b) in enumerate(zip(st, states)):
                ctx.close(a, b, f"state {i}", rtol=tol, atol=1e-9)
            ctx.close(ctx.call(m.encode, x), code, "encode alone", rtol=tol, atol=1e-9)
            z = ctx.call(m.decode, c, states=st if kind else None, input_size=L)
            ctx.close(z, want, "decode of encode", rtol=tol, atol=1e-9)
            ctx.require(len(st) == n - 1, "decode changed the list of states")
            z = ctx.call(m.decode, c, states=st if kind else None)
            ctx.close(fit(z, L), want, "unsized decode", rtol=tol, atol=1e-9)
            for i in range(B):
                ctx.close(ctx.call(m, x[i:i + 1]), want[i:i + 1], "alone", rtol=tol * 10, atol=1e-9)


class Tag(torch.nn.Module):
    """A block that records its name in the data."""

    def __init__(self, i, many=False):
        super().__init__()
        self.i, self.many = i, many

    def encode(self, x, *rest):
        y = x * 10 + self.i
        return (y, *[r + 1 for r in rest]) if rest or self.many else y

    def decode(self, x, *rest):
        y = x * 10 + self.i + 5
        return (y, *[r * 2 for r in rest]) if rest or self.many else y


class Note(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.log = []

    def forward(self, x, state):
        self.log.append((x.item(), state.item()))
        return x + 0.5 * state


def run_cell(cell, ctx):
    k = cell["k"]
    if k == "conv":
        for ks, stride, groups, L in itertools.product((1, 2, 3, 4, 5, 8), (1, 2, 3), (1, 2, 3), (24, 33)):
            cin = groups * (1 if groups == 3 else 2)
            one(ctx, cin=cin, ch=cell["ch"], ks=ks, stride=stride, groups=groups, L=L, kind=cell["skip"])
    elif k == "lengths":
        for ks, stride, L in itertools.product((3, 7), (1, 2, 3, 4), range(8, 66)):
            one(ctx, cin=2, ch=[3, 4, 2], ks=ks, stride=stride, groups=1, L=L, kind=cell["skip"], act="relu")
            if L < 40:
                one(ctx, cin=4, ch=[2, 4], ks=ks, stride=stride, groups=2, L=L, kind=cell["skip"])
    elif k == "opts":
        for kind, act, out, norm, dec, ch in itertools.product((None, "add", "cat"), ACT, (None, "sig", "id"), NORM,
                                                               (None, 1, 5), ([3], [4, 3])):
            one(ctx, cin=2, ch=ch, ks=3, stride=2, groups=1, L=21, kind=kind, act=act, out=out, norm=norm, dec=dec)
        for kind, out in itertools.product((None, "add", "cat"), ("sig", "id", "tanh")):
            one(ctx, cin=2, ch=[4, 3], ks=3, stride=2, groups=1, L=21, kind=kind, act="relu", out=out, inst=True)
        for kind, dt, lay, B in itertools.product((None, "add", "cat"), DT, LAYOUTS, (1, 3)):
            one(ctx, cin=2, ch=[4, 3, 2], ks=5, stride=2, groups=1, L=50, kind=kind, dt=dt, layout=lay, B=B)
        for g, dec in itertools.product((2, 3), (None, 6)):
            one(ctx, cin=6, ch=[4, 3], ks=3, stride=2, groups=g, L=30, kind="cat", dec=dec)
    elif k == "blocks":
        for n, many in itertools.product(range(1, 6), (False, True)):
            with ctx.case(n=n, many=many):
                a = Autoencoder()
                for i in range(n):
                    a.blocks.append(Tag(i, many))
                x = torch.tensor([1.0], dtype=torch.float64)
                e = x
                for i in range(n):
                    e = e * 10 + i
                d = e
                for i in reversed(range(n)):
                    d = d * 10 + i + 5
                args = (x, torch.zeros(1)) if many else (x,)
                enc, out = ctx.call(a.encode, *args), ctx.call(a, *args)
                if many:
                    ctx.equal(enc[1], torch.tensor([float(n)]), "second tensor encoded")
                    ctx.equal(out[1], torch.tensor([n * 2.0**n]), "second tensor decoded")
                    enc, out = enc[0], out[0]
                ctx.equal(enc, e, "encode order")
                ctx.equal(out, d, "decode order")
            if many:
                continue
            with ctx.case(n=n, skip=True):
                s = Note()
                a = Autoencoder(s)
                for i in range(n):
                    a.blocks.append(Tag(i))
                st, e = [], x
                for i in range(n):
                    e = e * 10 + i
                    st.append(e)
                log, d = [], e
                for i in reversed(range(n)):
                    d = d * 10 + i + 5
                    if i:
                        log.append((d.item(), st[i - 1].item()))
                        d = d + 0.5 * st[i - 1]
                out = ctx.call(a, x)
                ctx.equal(out, d, "skip-connected output")
                ctx.require(s.log == log, f"levels paired as {s.log}, expected {log}")
    elif k == "errors":
        for n, kind in itertools.product((1, 2, 3), ("add", "cat", None)):
            with ctx.case(n=n, skip=kind):
                m = ConvolutionalAutoencoder(2, [3] * n, 3, skip_connection=skipper(kind, 1)).eval()
                x = noise((2, 2, 16))
                c, st = m.encode(x, return_states=True)
                if kind:
                    ctx.raises(ValueError, m.decode, c)
                    ctx.raises(ValueError, m.decode, c, states=[*st, c])
                    if n > 1:
                        ctx.raises(ValueError, m.decode, c, states=st[:-1])
        for g, c in ((2, 3), (3, 4), (4, 6)):
            with ctx.case(groups=g, channels=c):
                ctx.raises(ValueError, ConcatSkipConnect(g), noise((2, c, 8)), noise((2, c, 8)))
        for g, c, a, b in itertools.product((1, 2, 3), (6, 12), (7, 8, 11), (7, 8, 10)):
            with ctx.case(groups=g, channels=c, a=a, b=b):
                x, st = noise((2, c, a), key="x"), noise((2, c, b), key="s")
                ctx.equal(ctx.call(ConcatSkipConnect(g), x, st), join(x, st, "cat", g), "interleaved concatenation")
                ctx.equal(ctx.call(AddSkipConnect(), x, st), join(x, st, "add", g), "sum")
    else:
        for kind, ch in itertools.product((None, "add", "cat"), ([3], [4, 3], [4, 3, 2])):
            with ctx.case(skip=kind, ch=ch):
                torch.manual_seed(1)
                m = ConvolutionalAutoencoder(2, ch, 5, 2, activation=torch.nn.Tanh,
                                             skip_connection=skipper(kind, 1)).double().train()
                x = noise((4, 2, 40), torch.float64, "x")
                ((m(x) - x) ** 2).mean().backward()
                ctx.step()
                dead = [n for n, p in m.named_parameters() if p.grad is None or not p.grad.any()]
                ctx.require(not dead, f"no gradient for {dead}")
