"""P02: streaming averaging equals the offline average of overlapping predictions."""
import itertools

import torch
from mc.data import DT, noise, relayout
from ml4gw.nn.streaming import OnlineAverager

BOUNDS = ("update size 1..4, updates averaged 1..5, offset None/0..3, channels 1..2, batch 1..3, "
          "every chunking of a 5-update stream, two interleaved streams, states overwritten once spent, one large geometry")


def cells(tier):
    us, nu = (4, 5) if tier == "quick" else (6, 8)
    out = [dict(k="chunk", u=u, n=n) for u in range(1, us + 1) for n in range(1, nu + 1)]
    out += [dict(k="inter", u=u, n=n) for u, n in ((1, 3), (2, 2), (3, 1), (2, 4))]
    out += [dict(k="big", u=64, n=33, b=129), dict(k="big", u=1000, n=4, b=2)]
    return out


def reference(updates, u, n, offset, nch):
    """updates: (K, C, L): block j of the output is the mean over the n most recent
    predictions of that block (absent ones count as zero)."""
    K, L = len(updates), updates.shape[-1]
    stop = L - (offset or 0)
    w = updates[:, :, stop - n * u:stop].double()
    out = torch.zeros(nch, (K + n - 1) * u, dtype=torch.float64)
    for k in range(K):
        out[:, k * u:(k + n) * u] += w[k] / n
    return out


def compositions(n, most):
    if n == 0:
        yield ()
        return
    for i in range(1, min(n, most) + 1):
        for rest in compositions(n - i, most):
            yield (i,) + rest


def drive(ctx, mods, upd, comp, u, n, offset, first):
    nch = upd.shape[1]
    ref = reference(upd, u, n, offset, nch)
    state = None if first == "none" else mods[comp[0]].get_initial_state().to(upd.dtype)
    pos = 0
    tol = 3e-6 if upd.dtype == torch.float32 else 1e-12
    for b in comp:
        if state is not None:
            state = state.to(upd.dtype)
        out, state = ctx.call(mods[b], upd[pos:pos + b], state, label=f"update {pos}")
        ctx.close(out, ref[:, pos * u:(pos + b) * u], f"averaged blocks {pos}..{pos + b - 1}",
                  rtol=tol, atol=tol)
        part = reference(upd[:pos + b], u, n, offset, nch)[:, (pos + b) * u:]
        ctx.close(state, part, f"state after {pos + b} updates", rtol=tol, atol=tol)
        pos += b


def run_cell(cell, ctx):
    u, n = cell["u"], cell["n"]
    if cell["k"] == "chunk":
        for nch in (1, 2):
            mods = {}
            for offset in (None, 0, 1, 3):
                for extra in (0, 1, 4):
                    L = n * u + (offset or 0) + extra
                    upd = noise((5, nch, L), torch.float32, (u, n, offset, extra))
                    mods = {b: OnlineAverager(u, b, n, nch, offset) for b in (1, 2, 3)}
                    for comp in compositions(5, 3):
                        for first in ("none", "initial"):
                            with ctx.case(nch=nch, offset=offset, extra=extra, chunks=comp,
                                          first=first):
                                drive(ctx, mods, upd, comp, u, n, offset, first)
        for dt in DT:
            for lay in ("c", "strided", "transposed", "offset"):
                with ctx.case(dt=dt, layout=lay):
                    upd = relayout(noise((6, 2, n * u + 3), DT[dt], (u, n, 9)), lay)
                    mods = {b: OnlineAverager(u, b, n, 2, 2).to(DT[dt]) for b in (2,)}
                    drive(ctx, mods, upd, (2, 2, 2), u, n, 2,
                          "none" if dt == "f32" else "initial")
    elif cell["k"] == "inter":
        for b in (1, 2):
            mod = OnlineAverager(u, b, n, 2, 1)
            S = {s: noise((3 * b, 2, n * u + 2), torch.float32, (s, u, n)) for s in "AB"}
            R = {s: reference(S[s], u, n, 1, 2) for s in "AB"}
            for order in sorted(set(itertools.permutations("AAABBB"))):
                with ctx.case(batch=b, order="".join(order)):
                    st, pos = {"A": None, "B": None}, {"A": 0, "B": 0}
                    for w in order:
                        p = pos[w]
                        out, st[w] = ctx.call(mod, S[w][p:p + b], st[w], label=f"{w}{p}")
                        ctx.close(out, R[w][:, p * u:(p + b) * u], f"stream {w} block {p}",
                                  rtol=3e-6, atol=3e-6)
                        pos[w] += b
        # a consumer that owns the states it is given: it overwrites them once they are spent
        for b, starts, order in itertools.product((1, 2), itertools.product(("none", "initial"), repeat=2),
                                                  sorted(set(itertools.permutations("AABB")))):
            with ctx.case(batch=b, starts=starts, order="".join(order), overwritten=True):
                mod = OnlineAverager(u, b, n, 2, 1)
                S = {s: noise((2 * b, 2, n * u + 2), torch.float32, (s, u, n)) for s in "AB"}
                R = {s: reference(S[s], u, n, 1, 2) for s in "AB"}
                for spent in (mod.get_initial_state(), mod.get_initial_state()):
                    ctx.require(not spent.any(), "initial state is not zero")
                    spent.fill_(1e9)
                st, pos = {}, dict(A=0, B=0)
                for w in order:
                    p = pos[w]
                    if p == 0:
                        st[w] = None if starts["AB".index(w)] == "none" else mod.get_initial_state()
                    out, new = ctx.call(mod, S[w][p:p + b], st[w], keep=False, label=f"{w}{p}")
                    ctx.close(out, R[w][:, p * u:(p + b) * u], f"stream {w} block {p}", rtol=3e-6, atol=3e-6)
                    kept = new.clone()
                    for t in (out, new, *([] if st[w] is None else [st[w]])):
                        t.fill_(-1e9)
                    st[w] = kept
                    pos[w] += b
    else:
        b = cell["b"]
        with ctx.case():
            upd = noise((3 * b, 2, n * u + 5), torch.float32, "big")
            drive(ctx, {b: OnlineAverager(u, b, n, 2, 5)}, upd, (b, b, b), u, n, 5, "none")
