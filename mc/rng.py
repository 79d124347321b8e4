"""Randomness as an environment whose answers are enumerated.

`Answers` intercepts every torch random operator at the dispatcher (so it does
not matter which Python spelling the code uses) and numpy's global generator.
Each random element is one choice point with a finite menu; `explore` runs a
body once for every complete sequence of answers (depth-first replay).
"""
from __future__ import annotations

import itertools
import math

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode

U_GRID = (0.0, 0.5, 1.0 - 2.0**-24)


class Unhandled(Exception):
    pass


class ReplayDivergence(Exception):
    pass


class Chooser:
    """Replays `prefix`, then answers 0; records the menu size of each point."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.sizes: list[int] = []
        self.taken: list[int] = []
        self.draws: list[tuple] = []
        self.prob = 1.0  # probability of this answer sequence (None: not known)

    def weigh(self, w):
        self.prob = None if w is None or self.prob is None else self.prob * w

    def pick(self, n, what="", weights=None):
        i = len(self.sizes)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if not 0 <= c < n:
            raise ReplayDivergence(f"choice {c} of {n} at point {i} ({what})")
        self.sizes.append(n)
        self.taken.append(c)
        self.weigh(None if what == "u" else 1 / n if weights is None else weights[c])
        return c


class PatternChooser(Chooser):
    """Answers by a fixed rule: low / high / alternating / ramp."""

    def __init__(self, rule):
        super().__init__()
        self.rule = rule

    def pick(self, n, what="", weights=None):
        i = len(self.sizes)
        if self.rule == "low":
            c = 0
        elif self.rule == "high":
            c = n - 1
        elif self.rule == "alt":
            c = 0 if i % 2 else n - 1
        elif self.rule == "ramp":
            c = i % n
        elif self.rule == "mid":
            c = n // 2
        elif isinstance(self.rule, tuple) and self.rule[0] == "lcg":
            c = ((i + 1) * 2654435761 + self.rule[1] * 40503) % (1 << 32) * n >> 32
        else:
            raise ValueError(self.rule)
        self.sizes.append(n)
        self.taken.append(c)
        return c


PATTERNS = ("low", "high", "alt", "ramp", "mid", ("lcg", 1), ("lcg", 2))


class Answers(TorchDispatchMode):
    def __init__(self, chooser, u_grid=U_GRID):
        super().__init__()
        self.ch = chooser
        self.u = u_grid

    # -- element generators --------------------------------------------
    def ints(self, lo, hi, n):
        if hi <= lo:
            raise RuntimeError(f"random_ expects 'from' to be less than 'to', but got from={lo} >= to={hi}")
        self.ch.draws.append(("int", lo, hi, n))
        return [lo + self.ch.pick(hi - lo, "int") for _ in range(n)]

    def floats(self, n):
        self.ch.draws.append(("u", n))
        return [self.u[self.ch.pick(len(self.u), "u")] for _ in range(n)]

    def perm(self, n, k=None):
        self.ch.draws.append(("perm", n))
        rest, out = list(range(n)), []
        for _ in range(n if k is None else k):
            out.append(rest.pop(self.ch.pick(len(rest), "perm")) if len(rest) > 1 else rest.pop())
        return out

    # -- torch -----------------------------------------------------------
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = func._schema.name.removeprefix("aten::")
        base = name.rstrip("_")
        if name in ("rand", "rand_like", "randint", "randint_like", "randperm", "randn",
                    "randn_like", "random_", "uniform_", "bernoulli", "bernoulli_",
                    "multinomial", "normal_", "normal", "exponential_", "poisson",
                    "random", "uniform"):
            return self._random(name, func, args, dict(kwargs))
        return func(*args, **kwargs)

    @staticmethod
    def _numel(shape):
        return int(math.prod(shape))

    def _random(self, name, func, args, kw):
        dtype = kw.get("dtype")
        dev = kw.get("device") or "cpu"
        ov = func._overloadname
        with torch.utils._python_dispatch._disable_current_modes():
            if name == "rand":
                size = list(args[0])
                v = self.floats(self._numel(size))
                return torch.tensor(v, dtype=dtype or torch.get_default_dtype(), device=dev).reshape(size)
            if name == "rand_like":
                x = args[0]
                return torch.tensor(self.floats(x.numel()), dtype=dtype or x.dtype).reshape(x.shape)
            if name == "randint":
                a = list(args)
                lo = a.pop(0) if "low" in ov else 0
                hi, size = a[0], list(a[1])
                v = self.ints(int(lo), int(hi), self._numel(size))
                return torch.tensor(v, dtype=dtype or torch.int64, device=dev).reshape(size)
            if name == "randint_like":
                a = list(args)
                x = a.pop(0)
                lo = a.pop(0) if "low" in ov else 0
                return torch.tensor(self.ints(int(lo), int(a[0]), x.numel()),
                                    dtype=dtype or x.dtype).reshape(x.shape)
            if name == "randperm":
                return torch.tensor(self.perm(int(args[0])), dtype=dtype or torch.int64)
            if name in ("random_", "random"):
                x = args[0]
                r = [a for a in args[1:] if a is not None]
                lo, hi = (0, int(r[0])) if len(r) == 1 else (int(r[0]), int(r[1]))
                return x.copy_(torch.tensor(self.ints(lo, hi, x.numel())).reshape(x.shape))
            if name in ("uniform_", "uniform"):
                x = args[0]
                lo = args[1] if len(args) > 1 else kw.get("from", 0.0)
                hi = args[2] if len(args) > 2 else kw.get("to", 1.0)
                v = torch.tensor(self.floats(x.numel()), dtype=torch.float64) * (hi - lo) + lo
                return x.copy_(v.reshape(x.shape))
            if name == "bernoulli":
                p = args[0]
                if ov == "p":
                    pr = torch.full_like(p, float(args[1]))
                else:
                    pr = p
                u = torch.tensor(self.floats(p.numel()), dtype=torch.float64).reshape(p.shape)
                return (u < pr.double()).to(p.dtype)
            if name == "bernoulli_":
                x = args[0]
                p = args[1] if len(args) > 1 else 0.5
                u = torch.tensor(self.floats(x.numel()), dtype=torch.float64).reshape(x.shape)
                p = p.double() if isinstance(p, torch.Tensor) else p
                return x.copy_((u < p))
            if name == "multinomial":
                w, n = args[0], int(args[1])
                repl = args[2] if len(args) > 2 else kw.get("replacement", False)
                rows = w.reshape(-1, w.shape[-1])
                out = []
                for row in rows:
                    live = [i for i, p in enumerate(row.tolist()) if p > 0]
                    got = []
                    pr = row.tolist()
                    for _ in range(n):
                        w = [pr[j] / sum(pr[q] for q in live) for j in live]
                        i = self.ch.pick(len(live), "multinomial", w)
                        got.append(live[i])
                        if not repl:
                            live.pop(i)
                    out.append(got)
                self.ch.draws.append(("multinomial", n))
                return torch.tensor(out).reshape(w.shape[:-1] + (n,))
            if name in ("randn", "randn_like", "normal", "normal_"):
                shape, mean, std, like = self._normal_args(name, args, kw)
                u = torch.tensor(self.floats(self._numel(shape)), dtype=torch.float64).reshape(shape)
                z = torch.special.ndtri(u) * std + mean
                if name == "normal_":
                    return like.copy_(z)
                return z.to(dtype or (like.dtype if like is not None else torch.get_default_dtype()))
        raise Unhandled(f"random operator {func} is not modelled")

    @staticmethod
    def _normal_args(name, args, kw):
        """(shape, mean, std, tensor that fixes the dtype)"""
        if name == "randn":
            return list(args[0]), 0.0, 1.0, None
        if name == "randn_like":
            return args[0].shape, 0.0, 1.0, args[0]
        if name == "normal_":
            a = list(args[1:]) + [0.0, 1.0][len(args) - 1:]
            return args[0].shape, kw.get("mean", a[0]), kw.get("std", a[1]), args[0]
        a = list(args) + ([1.0] if len(args) < 2 else [])
        mean, std = kw.get("mean", a[0]), kw.get("std", a[1])
        if len(a) > 2:
            return list(a[2]), mean, std, None
        t = [v for v in (mean, std) if isinstance(v, torch.Tensor)]
        return torch.broadcast_shapes(*[v.shape for v in t]), mean, std, t[0]

    # -- numpy -----------------------------------------------------------
    def _np_randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if np.ndim(low) or np.ndim(high):
            lo, hi = np.broadcast_arrays(low, high)
            shape = lo.shape if size is None else (size if np.ndim(size) else (size,))
            lo, hi = np.broadcast_to(lo, shape), np.broadcast_to(hi, shape)
            v = [self.ints(int(a), int(b), 1)[0] for a, b in zip(lo.ravel(), hi.ravel())]
            return np.array(v, dtype=dtype).reshape(shape)
        low, high = int(low), int(high)
        if high <= low:
            raise ValueError("low >= high")
        if size is None:
            return self.ints(low, high, 1)[0]
        shape = tuple(np.atleast_1d(size).tolist())
        return np.array(self.ints(low, high, self._numel(shape)), dtype=dtype).reshape(shape)

    def _np_choice(self, a, size=None, replace=True, p=None, **kw):
        pop = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        if p is not None:
            p = np.asarray(p, dtype=float)
            if len(p) != len(pop):
                raise ValueError("'a' and 'p' must have same size")
            if abs(p.sum() - 1) > 1e-8:
                raise ValueError("probabilities do not sum to 1")
            if (p < 0).any():
                raise ValueError("probabilities are not non-negative")
            live = [i for i in range(len(pop)) if p[i] > 0]
        else:
            live = list(range(len(pop)))
        shape = () if size is None else tuple(np.atleast_1d(size).tolist())
        n = self._numel(shape)
        if not replace and n > len(live):
            raise ValueError("Cannot take a larger sample than population")
        self.ch.draws.append(("choice", n, replace, None if p is None else p.tolist()))
        out = []
        for _ in range(n):
            w = None
            if p is not None:
                w = [p[j] / sum(p[q] for q in live) for j in live]
            i = self.ch.pick(len(live), "choice", w) if len(live) > 1 else 0
            out.append(live[i])
            if not replace:
                live = live[:i] + live[i + 1:]
        if size is None:
            return pop[out[0]]
        return pop[np.array(out, dtype=int)].reshape(shape + pop.shape[1:])

    def _np_rand(self, *shape):
        if not shape:
            return self.floats(1)[0]
        return np.array(self.floats(self._numel(shape))).reshape(shape)

    def _np_random(self, size=None, **kw):
        return self._np_rand(*(() if size is None else tuple(np.atleast_1d(size).tolist())))

    def _np_uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._np_random(size)

    def _np_permutation(self, x):
        if np.ndim(x) == 0:
            return np.array(self.perm(int(x)))
        return np.asarray(x)[np.array(self.perm(len(x)))]

    def _np_shuffle(self, x):
        x[:] = np.asarray(x)[np.array(self.perm(len(x)))]

    def _default_rng(self, *a, **k):
        m = self

        class G:
            integers = staticmethod(lambda low, high=None, size=None, dtype=int, endpoint=False:
                                    m._np_randint(low if high is not None else 0,
                                                  (high if high is not None else low) + int(endpoint),
                                                  size, dtype))
            choice = staticmethod(m._np_choice)
            random = staticmethod(m._np_random)
            uniform = staticmethod(m._np_uniform)
            permutation = staticmethod(m._np_permutation)
            shuffle = staticmethod(m._np_shuffle)
        return G()

    def __enter__(self):
        self._saved = {}
        for n, f in dict(randint=self._np_randint, choice=self._np_choice, rand=self._np_rand,
                         random=self._np_random, random_sample=self._np_random,
                         uniform=self._np_uniform, permutation=self._np_permutation,
                         shuffle=self._np_shuffle, default_rng=self._default_rng).items():
            self._saved[n] = getattr(np.random, n)
            setattr(np.random, n, f)
        return super().__enter__()

    def __exit__(self, *a):
        for n, f in self._saved.items():
            setattr(np.random, n, f)
        return super().__exit__(*a)


class CapHit(Exception):
    pass


def explore(body, u_grid=U_GRID, cap=200000):
    """Run body(chooser) under every complete sequence of random answers.

    Yields (chooser, result-or-exception) per execution.  The space must be
    finite and below `cap`; a cap hit is an error, not a silent truncation.
    """
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        with Answers(ch, u_grid):
            try:
                res = ("ok", body(ch))
            except (Unhandled, ReplayDivergence):
                raise
            except Exception as e:  # noqa: BLE001
                res = ("err", e)
        n += 1
        if n > cap:
            raise CapHit(f"more than {cap} answer sequences")
        for i in range(len(ch.sizes) - 1, len(prefix) - 1, -1):
            for alt in range(ch.sizes[i] - 1, 0, -1):
                stack.append(ch.taken[:i] + [alt])
        yield ch, res


def patterned(body, rule, u_grid=U_GRID):
    ch = PatternChooser(rule)
    with Answers(ch, u_grid):
        return ch, body(ch)
