"""P32: state-space layers are causal and agree with their recurrence."""
import itertools

import torch
import torch.nn.functional as F
from mc.data import DT, LAYOUTS, noise, relayout
from ml4gw.nn.ssm.s4d import S4D, S4DKernel, S4Model

BOUNDS = ("lengths 1..17, 33, 64, 257, 1000; d_model 1..5; state size 2..64; time-step ranges 1e-4..0.5; both "
          "layouts; single and double precision; every prefix and every single-sample perturbation for lengths "
          "up to 17")
ASSUMPTIONS = "Parameters are read by their state-dict names."

LS = (1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 257, 1000)


def cells(tier):
    ls = LS if tier == "quick" else (*range(1, 34), 64, 65, 257, 1000, 4097)
    return ([dict(k="layer", L=n) for n in ls] + [dict(k="causal", L=n) for n in ls if n <= 17]
            + [dict(k="model"), dict(k="kernel"), dict(k="opts")])


def randomise(m, key):
    with torch.no_grad():
        for i, (n, p) in enumerate(sorted(m.named_parameters())):
            if n.endswith(("log_dt", "log_A_real", "A_imag")):
                p.mul_(1 + 0.1 * noise(p.shape, p.dtype, (key, i)))
            else:
                p.copy_(noise(p.shape, p.dtype, (key, i)))
    return m


def kernel_params(sd, pre=""):
    dt = torch.exp(sd[pre + "log_dt"].double())
    A = torch.complex(-torch.exp(sd[pre + "log_A_real"].double()), sd[pre + "A_imag"].double())
    Cm = torch.view_as_complex(sd[pre + "C"].double().contiguous())
    return dt, A, Cm


def recurrence(u, sd, pre=""):
    """Zero-order-hold discretised diagonal system run one sample at a time (f64)."""
    dt, A, Cm = kernel_params(sd, pre + "kernel.")
    g = torch.exp(A * dt[:, None])
    b = (g - 1) / A
    x = torch.zeros(u.shape[0], *A.shape, dtype=torch.complex128)
    out = []
    for t in range(u.shape[-1]):
        x = g * x + b * u[..., t, None].to(torch.complex128)
        out.append(2 * (Cm * x).sum(-1).real)
    return torch.stack(out, -1) + u * sd[pre + "D"].double()[:, None]


def layer_ref(u, sd, pre=""):
    """u: (B, H, L) double."""
    y = F.gelu(recurrence(u, sd, pre))
    w, b = sd[pre + "output_linear.0.weight"].double(), sd[pre + "output_linear.0.bias"].double()
    y = torch.einsum("oc,bcl->bol", w[..., 0], y) + b[:, None]
    H = y.shape[1] // 2
    return y[:, :H] * torch.sigmoid(y[:, H:])


def run_cell(cell, ctx):
    k, L = cell["k"], cell.get("L")
    if k == "layer":
        big = L > 33
        for H, N, (lo, hi), tr, dt in itertools.product(
                (1, 2, 5), (2, 8, 64), ((1e-3, 0.1), (1e-4, 1e-2), (0.1, 0.5)), (True, False), DT):
            if big and (dt == "f32" or N == 8):
                continue
            with ctx.case(L=L, H=H, N=N, dts=(lo, hi), transposed=tr, dt=dt):
                torch.manual_seed(3)
                m = randomise(S4D(H, N, transposed=tr, dt_min=lo, dt_max=hi).to(DT[dt]), (H, N)).eval()
                u = noise((3, H, L), DT[dt], "u")
                arg = u if tr else u.transpose(1, 2)
                with torch.no_grad():
                    y = ctx.call(m, arg)
                    want = layer_ref(u.double(), m.state_dict())
                    ctx.close(y if tr else y.transpose(1, 2), want, "layer output",
                              rtol=5e-3 if dt == "f32" else 1e-8)
                    ctx.close(ctx.call(m, arg[1:2]), y[1:2], "alone", rtol=1e-4 if dt == "f32" else 1e-9)
                    for lay in LAYOUTS[1:]:
                        ctx.close(ctx.call(m, relayout(arg, lay)), y, "layout",
                                  rtol=1e-4 if dt == "f32" else 1e-9)
    elif k == "causal":
        for H, N, tr in itertools.product((1, 3), (2, 16), (True, False)):
            with ctx.case(L=L, H=H, N=N, transposed=tr):
                torch.manual_seed(4)
                m = randomise(S4D(H, N, transposed=tr).double(), (H, N)).eval()
                u = noise((2, H, L), torch.float64, "u")
                f = (lambda z: z) if tr else (lambda z: z.transpose(1, 2))
                with torch.no_grad():
                    y = f(ctx.call(m, f(u)))
                    for n in range(1, L + 1):
                        ctx.close(f(ctx.call(m, f(u[..., :n]), label=f"prefix {n}")), y[..., :n], "prefix",
                                  rtol=1e-9)
                    for t in range(L):
                        v = u.clone()
                        v[:, :, t] += 10
                        z = f(ctx.call(m, f(v), label=f"perturb {t}"))
                        ctx.close(z[..., :t], y[..., :t], f"samples before {t}", rtol=1e-8)
                        ctx.require(not torch.allclose(z[..., t], y[..., t], rtol=1e-6),
                                    f"output {t} ignores input {t}")
    elif k == "kernel":
        for H, N, L, dt in itertools.product((1, 4), (2, 6, 64), (1, 2, 7, 65, 300), DT):
            with ctx.case(H=H, N=N, L=L, dt=dt):
                torch.manual_seed(5)
                m = S4DKernel(H, N).to(DT[dt])
                with torch.no_grad():
                    got = ctx.call(m, L)
                    d, A, Cm = kernel_params(m.state_dict())
                    g = torch.exp(A * d[:, None])
                    ls = torch.arange(L, dtype=torch.float64)
                    want = 2 * torch.einsum("hn,hnl->hl", Cm * (g - 1) / A,
                                            torch.exp((A * d[:, None])[..., None] * ls)).real
                    ctx.close(got, want, "kernel", rtol=5e-3 if dt == "f32" else 1e-10)
                    ctx.close(ctx.call(m, max(1, L // 2)), got[:, :max(1, L // 2)], "shorter kernel",
                              rtol=1e-6 if dt == "f32" else 1e-12)
        # time steps lie in the requested range
        for lo, hi in ((1e-3, 0.1), (0.2, 0.2), (1e-5, 1e-4)):
            with ctx.case(dt_min=lo, dt_max=hi):
                d = kernel_params(S4DKernel(500, 2, dt_min=lo, dt_max=hi).state_dict())[0]
                ctx.require(bool((d >= lo * (1 - 1e-5)).all() and (d <= hi * (1 + 1e-5)).all()), "time step range")
                if hi > lo:
                    mid = ((d.log() - torch.log(torch.tensor(lo))) / torch.log(torch.tensor(hi / lo))).mean()
                    ctx.require(bool((mid - 0.5).abs() < 0.1), "log-uniform time steps")
    elif k == "model":
        for din, dout, H, nl, L, drop in itertools.product((1, 3), (1, 2), (2, 5), (1, 2, 3), (1, 7, 40), (0.0, 0.3)):
            with ctx.case(din=din, dout=dout, H=H, layers=nl, L=L, dropout=drop):
                torch.manual_seed(6)
                m = randomise(S4Model(din, dout, H, 8, nl, drop).double(), (din, H, nl)).eval()
                sd = m.state_dict()
                u = noise((3, din, L), torch.float64, "m")
                x = torch.einsum("hi,bil->bhl", sd["encoder.weight"], u) + sd["encoder.bias"][:, None]
                for i in range(nl):
                    z = (layer_ref(x, sd, f"s4_layers.{i}.") + x).transpose(1, 2)
                    x = F.layer_norm(z, (H,), sd[f"norms.{i}.weight"], sd[f"norms.{i}.bias"]).transpose(1, 2)
                want = x.mean(-1) @ sd["decoder.weight"].T + sd["decoder.bias"]
                with torch.no_grad():
                    y = ctx.call(m, u)
                    ctx.close(y, want, "model output", rtol=1e-6)
                    ctx.close(ctx.call(m, u[2:]), y[2:], "alone", rtol=1e-6)
                    ctx.close(ctx.call(m, u.flip(0)), y.flip(0), "order", rtol=1e-6)
                m.train()
                m(u).square().sum().backward()
                if L > 1 and drop == 0:
                    dead = [n for n, p in m.named_parameters() if p.grad is None]
                    ctx.require(not dead, f"no gradient for {dead}")
    else:
        for bad in (-0.1, 1.1, None, "x"):
            with ctx.case(dropout=bad):
                ctx.raises(ValueError, S4D, 2, 4, dropout=bad)
        for p in (0, 0.0, 0.5, 1, 1.0):
            with ctx.case(dropout=p):
                m = S4D(3, 4, dropout=p).double().eval()
                u = noise((2, 3, 9), torch.float64, "u")
                with torch.no_grad():
                    ctx.close(ctx.call(m, u), layer_ref(u, m.state_dict()), "eval ignores dropout", rtol=1e-8)
