"""P06: ChunkedTimeSeriesDataset draws every batch from the current chunk only."""
import itertools
from collections import Counter

import torch
from mc.data import relayout
from mc.rng import PATTERNS, explore, patterned
from ml4gw.dataloading import ChunkedTimeSeriesDataset

BOUNDS = ("chunks of 1..3 rows, 1..3 channels, length kernel..kernel+3; sequences of up to 3 chunk "
          "shapes; every random answer up to 1300 sequences per configuration (patterns beyond); all "
          "interleavings of two iterators; consumers that overwrite batches")


def chunk(i, n, c, t, dtype=torch.float32, lay="c"):
    """Every sample encodes (chunk, row, channel, time) exactly."""
    v = (torch.arange(n).view(n, 1, 1) * 20 + torch.arange(c).view(1, c, 1)) * 5000 + torch.arange(t)
    return relayout((v.double() + 300_000 * i).to(dtype), lay)


def cells(tier):
    out = [dict(k="all", n=n, c=c, coin=co, kern=q) for n in (1, 2, 3) for c in (1, 2, 3)
           for co in (True, False) for q in (1, 2, 3)]
    out += [dict(k="seq", coin=co, kern=q) for co in (True, False) for q in (1, 2, 4)]
    out += [dict(k="inter", coin=co) for co in (True, False)]
    out += [dict(k="huge", coin=co) for co in (True, False)]
    out += [dict(k="big", coin=co, dt=dt) for co in (True, False) for dt in ("f32", "f64")]
    return out


def check_batch(ctx, x, i, shape, B, K, coin):
    n, c, t = shape
    ctx.require(tuple(x.shape) == (B, c, K), f"batch shape {tuple(x.shape)} for chunk {shape}")
    v = x[:, :, 0].double() - 300_000 * i
    row, ch, st = (v // 100_000).long(), (v % 100_000 // 5000).long(), (v % 5000).long()
    ctx.require(bool(((v >= 0) & (row < n) & (st <= t - K)).all()),
                "window starts outside the current chunk")
    ctx.require(bool((ch == torch.arange(c)).all()), "window from the wrong channel")
    want = x[:, :, :1].double() + torch.arange(K)
    ctx.require(torch.equal(x.double(), want), "window is not a contiguous slice of one row")
    if coin:
        ctx.require(bool((st == st[:, :1]).all() and (row == row[:, :1]).all()),
                    "channels are not coincident")
    return tuple(map(tuple, row.tolist())), tuple(map(tuple, st.tolist()))


class Chunks:
    def __init__(self, shapes, dtype=torch.float32, lay="c"):
        self.data = [chunk(i, *s, dtype, lay) for i, s in enumerate(shapes)]
        self.ref = [d.clone() for d in self.data]

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        return iter(self.data)

    def unchanged(self):
        return all(torch.equal(a, b) for a, b in zip(self.data, self.ref))


def run_cell(cell, ctx):
    coin = cell["coin"]
    if cell["k"] == "all":
        n, c, K = cell["n"], cell["c"], cell["kern"]
        for extra, B, per in itertools.product((0, 1, 2, 3), (1, 2), (1, 2)):
            shape = (n, c, K + extra)
            m = B * per * (1 if coin else c)
            space = (n * (extra + 1)) ** m
            with ctx.case(T=K + extra, B=B, per=per):
                def body(ch):
                    src = Chunks([shape])
                    ds = ChunkedTimeSeriesDataset(src, K, B, per, coin)
                    out = []
                    for x in ds:
                        ctx.step()
                        out.append(x.clone())
                        x.fill_(-5)
                    return out, len(ds), src
                seen = Counter()
                full = space <= (1300 if ctx.tier == "quick" else 20000)
                runs = (res for _, res in explore(body)) if full else (
                    ("ok", patterned(body, r)[1]) for r in PATTERNS)
                for st, res in runs:
                    if st == "err":
                        raise res
                    out, ln, src = res
                    ctx.require(ln == per and len(out) == per, f"{len(out)} batches, length {ln}, "
                                f"expected {per}")
                    got = [check_batch(ctx, x, 0, shape, B, K, coin) for x in out]
                    ctx.require(src.unchanged(), "chunk was modified")
                    seen[tuple(got)] += 1
                    ctx.count("executions")
                if full:
                    ctx.require(len(seen) == space and len(set(seen.values())) == 1,
                                f"{len(seen)} of {space} draws reached equally")
                    ctx.require(max(max(max(s) for s in b[1]) for o in seen for b in o) == extra,
                                "last window never drawn")
    elif cell["k"] == "seq":
        K = cell["kern"]
        shapes = [(2, 2, K + 3), (1, 2, K), (3, 1, K + 1), (2, 3, K + 5)]
        for L in (1, 2, 3):
            for seq in itertools.product(shapes, repeat=L):
                for per, B in ((1, 1), (2, 3)):
                    reach = {}
                    for rule in PATTERNS:
                        with ctx.case(seq=seq, per=per, B=B, rule=rule):
                            def body(ch):
                                src = Chunks(seq)
                                ds = ChunkedTimeSeriesDataset(src, K, B, per, coin)
                                return [list(ds), list(ds)], len(ds)  # two epochs
                            _, (eps, ln) = patterned(body, rule)
                            ctx.require(ln == per * L, f"length {ln}")
                            for ep in eps:
                                ctx.step(len(ep))
                                ctx.require(len(ep) == per * L, f"{len(ep)} batches")
                                for j, x in enumerate(ep):
                                    shape = seq[j // per]
                                    row, st = check_batch(ctx, x, j // per, shape, B, K, coin)
                                    reach.setdefault(j // per, set()).update(
                                        zip(itertools.chain(*row), itertools.chain(*st)))
                    # the extreme answers name the first and the last window of every chunk
                    with ctx.case(seq=seq, per=per, B=B, reach=True):
                        for j, (n, _, t) in enumerate(seq):
                            ctx.require(reach[j] >= {(0, 0), (n - 1, t - K)},
                                        f"first or last window of chunk {j} is never drawn")
        for pos in range(3):
            with ctx.case(short_chunk=pos):
                seq = [(2, 2, K + 2)] * 3
                seq[pos] = (2, 2, K - 1)
                got = []
                def body(ch):
                    for x in ChunkedTimeSeriesDataset(Chunks(seq), K, 2, 2, coin):
                        got.append(x)
                ctx.raises(ValueError, lambda: patterned(body, "mid"))
                ctx.require(len(got) == 2 * pos, "batches before the short chunk")
    elif cell["k"] == "inter":
        seqs = [[(2, 2, 6), (1, 3, 9)], [(2, 2, 4), (2, 2, 4)]]
        for seq in seqs:
            for per in (1, 2):
                nb = 2 * per
                for order in sorted(set(itertools.permutations("A" * nb + "C" * nb))):
                    for rule in ("ramp", "high", ("lcg", 1)):
                        with ctx.case(seq=seq, per=per, order="".join(order), rule=rule):
                            def body(ch):
                                ds = ChunkedTimeSeriesDataset(Chunks(seq), 3, 2, per, coin)
                                its, n = {}, Counter()
                                for w in order:
                                    it = its.setdefault(w, iter(ds))
                                    x = ctx.call(next, it, label=w)
                                    j = n[w] // per
                                    check_batch(ctx, x, j, seq[j], 2, 3, coin)
                                    n[w] += 1
                                for it in its.values():
                                    ctx.require(next(it, None) is None, "too many batches")
                            patterned(body, rule)
        # a producer that refills one buffer for every chunk
        for n, c, t in ((2, 2, 6), (1, 1, 4), (3, 1, 9)):
            for per, rule in itertools.product((1, 2), ("ramp", "high", ("lcg", 1))):
                with ctx.case(refilled=(n, c, t), per=per, rule=rule):
                    class Refill:
                        def __len__(self):
                            return 3

                        def __iter__(self):
                            buf = torch.zeros(n, c, t)
                            for i in range(3):
                                yield buf.copy_(chunk(i, n, c, t))
                    out = patterned(lambda ch: list(ChunkedTimeSeriesDataset(
                        Refill(), 3, 2, per, coin)), rule)[1]
                    ctx.step(len(out))
                    ctx.require(len(out) == 3 * per, "batches")
                    for j, x in enumerate(out):
                        check_batch(ctx, x, j // per, (n, c, t), 2, 3, coin)
    elif cell["k"] == "huge":
        n, c, T, K = 3, 2, 2**23 + 5, 9
        x = torch.arange(n * c * T, dtype=torch.float64).view(n, c, T)
        last = False
        for rule in PATTERNS:
            with ctx.case(shape=(n, c, T), rule=rule):
                out = patterned(lambda ch: list(ChunkedTimeSeriesDataset([x], K, 4, 2, coin)), rule)[1]
                ctx.require(len(out) == 2, "batches")
                for b in out:
                    ctx.step()
                    v = b[:, :, 0].long()
                    ctx.require(tuple(b.shape) == (4, c, K), "shape")
                    ctx.require(bool((v // T % c == torch.arange(c)).all() and (v % T <= T - K).all()),
                                "window from the wrong channel or past its end")
                    ctx.equal(b, v.double()[..., None] + torch.arange(K), "window samples")
                    if coin:
                        ctx.require(bool((v[:, 0] == v[:, 1] - T).all()), "channels are not coincident")
                    last |= bool((v % T == T - K).all())
        with ctx.case(shape=(n, c, T), reach=True):
            ctx.require(last, "last window not reached")
    else:
        dt = torch.float64  # exact labels
        for shape, B, K in (((33, 3, 4097), 129, 1024), ((2, 1, 1500), 64, 1500), ((5, 17, 64), 1, 63)):
            for lay in ("c", "strided", "transposed", "offset"):
                for rule in PATTERNS:
                    with ctx.case(shape=shape, B=B, K=K, layout=lay, rule=rule):
                        src = Chunks([shape, shape], torch.float64 if cell["dt"] == "f64"
                                     else torch.float32, lay)
                        out = patterned(lambda ch: list(ChunkedTimeSeriesDataset(
                            src, K, B, 2, coin)), rule)[1]
                        ctx.step(len(out))
                        ctx.require(len(out) == 4, "batches")
                        for j, x in enumerate(out):
                            ctx.require(x.dtype == src.data[0].dtype, "dtype")
                            check_batch(ctx, x, j // 2, shape, B, K, coin)
                        ctx.require(src.unchanged(), "chunk was modified")
