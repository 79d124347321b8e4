"""Bounded exhaustive exploration of the real ml4gw code against reference models.

A *check* (module in /verif/checks) declares `cells(tier)`: a finite list of
JSON-able cell descriptors that together partition the bounded space, and
`run_cell(cell, ctx)`, which enumerates every case of the cell, drives the
real code from /repo and compares every observation with the reference model.

Nothing here samples: cells and cases are enumerated completely.  If a time
budget runs out the run is reported as an error, never as "held".
"""
from __future__ import annotations

import contextlib
import hashlib
import json
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ML4GW_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class Mismatch(Exception):
    """An observation of the real code disagrees with the reference model."""


class CellTimeout(Exception):
    pass


def _digest(obj) -> bytes:
    import numpy as np
    import torch

    h = hashlib.blake2b(digest_size=8)

    def feed(o):
        if isinstance(o, torch.Tensor):
            o = o.detach()
            if o.is_complex():
                o = torch.view_as_real(o)
            o = o.cpu().contiguous().numpy()
            h.update(str(o.dtype).encode() + str(o.shape).encode())
            h.update(o.tobytes())
        elif isinstance(o, np.ndarray):
            h.update(str(o.dtype).encode() + str(o.shape).encode())
            h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, dict):
            for k in o:
                h.update(str(k).encode())
                feed(o[k])
        elif isinstance(o, list | tuple):
            h.update(b"(")
            for k in o:
                feed(k)
        else:
            h.update(repr(o).encode())

    feed(obj)
    return h.digest()


def tensors_in(obj):
    import torch

    out = []
    if isinstance(obj, torch.Tensor):
        out.append(obj)
    elif isinstance(obj, dict):
        for v in obj.values():
            out += tensors_in(v)
    elif isinstance(obj, list | tuple):
        for v in obj:
            out += tensors_in(v)
    return out


def same_bits(a, b):
    """Equality that treats NaNs in the same place as equal."""
    import torch

    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.is_floating_point() or a.is_complex():
        return bool(torch.allclose(a, b, rtol=0, atol=0, equal_nan=True))
    return bool(torch.equal(a, b))


class Ctx:
    def __init__(self, pid, tier, cell, known=()):
        self.pid, self.tier, self.cell = pid, tier, cell
        self.known = set(known)
        self.states: set[bytes] = set()
        self.transitions = 0
        self.traces = 0
        self.samples: list = []
        self.violations: list[dict] = []
        self.known_hits: dict[str, str] = {}
        self._case = None
        self._kept: list = []  # (label, tensor, clone) of earlier outputs
        self.counters: dict[str, int] = {}

    # -- counting -------------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def state(self, *key):
        self.states.add(_digest(key))

    def step(self, n=1):
        self.transitions += n

    # -- one case -------------------------------------------------------
    @contextlib.contextmanager
    def case(self, key=None, expect=None, **desc):
        """One complete history/configuration.

        Any exception from the body is a violation of this case.  `key` names
        the case for the known-findings file; `expect` is a text the failure must
        contain to count as that finding.
        """
        self._case = desc
        self._kept = []
        self.state("case", sorted((k, str(v)) for k, v in desc.items()), str(self.cell))
        try:
            yield self
            self.recheck()
        except CellTimeout:
            raise
        except Exception as e:  # noqa: BLE001
            msg = str(e) if isinstance(e, Mismatch) else (
                f"unexpected {type(e).__name__}: {e}")
            if key is not None and key in self.known and (expect is None or expect in msg):
                self.known_hits.setdefault(key, msg.splitlines()[0][:300])
                self.traces += 1
                return
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.relpath(f.filename, REPO)}:{f.lineno}" for f in tb
                     if f.filename.startswith(REPO + "/")]
            self.count("violations")
            if len(self.violations) < 20:
                self.violations.append(dict(
                    cell=self.cell, case={k: str(v) for k, v in desc.items()},
                    key=key, message=msg[:2000], where=where[-3:],
                    kind=type(e).__name__))
        else:
            self.traces += 1
            if len(self.samples) < 2:
                self.samples.append({k: str(v)[:200] for k, v in desc.items()})
        finally:
            self._case = None
            self._kept = []

    # -- driving the real code ------------------------------------------
    def call(self, fn, *args, mutates=False, keep=True, label="call", **kw):
        """Call real code; inputs must come back untouched, and outputs handed
        out earlier in this case must not change under later calls."""
        ins = tensors_in(args) + tensors_in(kw)
        before = [] if mutates else [(t, t.detach().clone()) for t in ins]
        out = fn(*args, **kw)
        self.transitions += 1
        for t, c in before:
            if not same_bits(t.detach(), c):
                raise Mismatch(f"{label}: call modified its input tensor "
                               f"of shape {tuple(t.shape)}")
        self.recheck(label)
        if keep:
            for t in tensors_in(out):
                self._kept.append((label, t, t.detach().clone()))
        self.states.add(_digest((str(self.cell), str(self._case), label, out)))
        return out

    def recheck(self, label="later call"):
        for lab, t, c in self._kept:
            if not same_bits(t.detach(), c):
                raise Mismatch(f"result returned earlier by {lab} "
                               f"changed after {label}")

    # -- oracles ----------------------------------------------------------
    def require(self, cond, msg):
        if not bool(cond):
            raise Mismatch(msg)

    def equal(self, got, want, what):
        import torch

        got, want = torch.as_tensor(got), torch.as_tensor(want)
        if tuple(got.shape) != tuple(want.shape):
            raise Mismatch(f"{what}: shape {tuple(got.shape)} != expected "
                           f"{tuple(want.shape)}")
        if got.dtype != want.dtype:
            got, want = got.to(torch.complex128) if got.is_complex() else got.double(), (
                want.to(torch.complex128) if want.is_complex() else want.double())
        if not torch.equal(got, want):
            bad = (got != want).nonzero()
            i = tuple(bad[0].tolist()) if len(bad) else ()
            raise Mismatch(f"{what}: {len(bad)} entries differ, first at {i}: "
                           f"got {got[i].item()!r} expected {want[i].item()!r}")

    def close(self, got, want, what, rtol=1e-5, atol=0.0, norm=True):
        """|got-want| <= rtol*scale + atol, scale = max|want| (norm=True) or
        elementwise |want|."""
        import torch

        got, want = torch.as_tensor(got), torch.as_tensor(want)
        if tuple(got.shape) != tuple(want.shape):
            raise Mismatch(f"{what}: shape {tuple(got.shape)} != expected "
                           f"{tuple(want.shape)}")
        dt = torch.complex128 if (got.is_complex() or want.is_complex()) else torch.float64
        g, w = got.detach().to(dt), want.detach().to(dt)
        if g.numel() == 0:
            return
        fin_g = torch.isfinite(g.abs()) if True else None
        fin_w = torch.isfinite(w.abs())
        if not torch.equal(fin_g, fin_w):
            i = tuple((fin_g != fin_w).nonzero()[0].tolist())
            raise Mismatch(f"{what}: finiteness differs at {i}: got "
                           f"{g[i].item()!r} expected {w[i].item()!r}")
        if not fin_w.all():
            gg, ww = g[~fin_w], w[~fin_w]
            if not torch.is_complex(gg):
                ok = (gg == ww) | (gg.isnan() & ww.isnan())
                if not ok.all():
                    raise Mismatch(f"{what}: non-finite values differ")
            g, w = torch.where(fin_w, g, 0), torch.where(fin_w, w, 0)
        err = (g - w).abs()
        scale = w.abs().max() if norm else w.abs()
        bad = err > rtol * scale + atol
        if bad.any():
            rel = torch.where(bad, err, torch.zeros_like(err))
            i = int(rel.reshape(-1).argmax())
            idx = []
            for s in reversed(g.shape):
                idx.append(i % s)
                i //= s
            idx = tuple(reversed(idx))
            raise Mismatch(
                f"{what}: {int(bad.sum())}/{g.numel()} entries off, worst at {idx}: "
                f"got {g[idx].item()!r} expected {w[idx].item()!r} "
                f"(tol {float(rtol)}*{float(scale if norm else scale[idx])}+{atol})")

    def raises(self, exc, fn, *args, **kw):
        self.transitions += 1
        try:
            out = fn(*args, **kw)
        except exc:
            return
        except Exception as e:  # noqa: BLE001
            raise Mismatch(f"expected {exc} but got {type(e).__name__}: {e}") from e
        raise Mismatch(f"expected {exc}, but the call returned "
                       f"{type(out).__name__}")


@contextlib.contextmanager
def alarm(seconds):
    def onalarm(sig, frame):
        raise CellTimeout(f"no result within {seconds} s")

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(seconds))
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
