"""P34: every component follows its inputs to another device and computes the same there.

The real code runs against two devices: the CPU and a virtual one (mc/device.py)
that does real arithmetic but refuses operators mixing full tensors of both, as
an accelerator does.  The model of every observation is the same call made on
the CPU by a fresh object.
"""
import itertools
import random

import numpy as np
import torch
from checks.p09 import agree, zoo
from mc.core import tensors_in
from mc.data import noise
from mc.device import CPU, DEV, DeviceMixed, Unsupported, host, on_device, two_devices
from mc.zoo import spectrum

BOUNDS = ("every zoo component (not the density functions of host-side distributions) x every placement history over "
          "{CPU, device} of length <= 3 (thorough 4) with contents, sizes and options changing from call to call; "
          "fitting, streaming, sampling, augmentation, loading and training-mode flows with their tensors on either side")
ASSUMPTIONS = ["operators the emulator cannot host end a case as inconclusive (counted), never as a violation",
               "zero-dimensional host tensors, host indices into device tensors and copies are accepted across devices, "
               "as CUDA does", "kernels of a real accelerator may round differently; the virtual one does not"]
MIXED = ("same device", "two devices", "expected device", "to numpy", "different device")
HOST_SIDE = ("LogUniform.log_prob", "PowerLaw.log_prob", "UniformComovingVolume.log_prob", "RateEvolution.log_prob")


def cells(tier):
    out = [dict(item=n, first=p) for n in zoo() if n not in HOST_SIDE for p in "CD"]
    return out + [dict(flow=n) for n in FLOWS]


def attempt(ctx, fn):
    """Run on two devices; None when the emulator itself gave up."""
    try:
        with two_devices():
            return fn()
    except DeviceMixed:
        raise
    except Exception as e:  # noqa: BLE001
        if isinstance(e, Unsupported) or (isinstance(e, NotImplementedError | RuntimeError | TypeError)
                                          and not any(m in str(e) for m in MIXED)):
            ctx.count("inconclusive")
            return None
        raise


def menu(it):
    out = [((0, 1), it.sizes[0], it.overrides[0]), ((2, 0, 3), it.sizes[-1], it.overrides[0]),
           ((1, 3), it.sizes[0], it.overrides[-1]), ((3, 2), it.sizes[-1], it.overrides[-1])]
    return out if it.batch else [((0, 1), s, o) for _, s, o in out]


def run_item(cell, ctx):
    it = zoo()[cell["item"]]
    d = it.dtypes[0]
    m = menu(it)
    ref = {}

    def fresh(i):
        if i not in ref:
            es, s, o = m[i]
            ref[i] = [t.detach().clone() for t in tensors_in(it.run(it.obj(d), it.batch_of(es, d, size=s), **o))]
        return ref[i]

    depth = 3 if ctx.tier == "quick" else 4
    for n in range(1, depth + 1):
        for rest in itertools.product("CD", repeat=n - 1):
            hist = cell["first"] + "".join(rest)
            if "D" not in hist:
                continue
            with ctx.case(placements=hist):
                def go():
                    obj, seen = it.obj(d), []
                    for i, where in enumerate(hist):
                        dev = DEV if where == "D" else CPU
                        if isinstance(obj, torch.nn.Module):
                            obj = obj.to(dev)
                        es, s, o = m[i]
                        batch = {k: v.to(dev) for k, v in it.batch_of(es, d, size=s).items()}
                        outs = tensors_in(it.run(obj, batch, **o))
                        seen.append(([on_device(t) for t in outs], [host(t) for t in outs]))
                        ctx.step()
                    return seen
                for i, (where, (places, vals)) in enumerate(zip(hist, attempt(ctx, go) or (), strict=False)):
                    ctx.require(all(p == (where == "D") for p in places),
                                f"call {i} of {hist}: results lie on {['device' if p else 'CPU' for p in places]}")
                    agree(ctx, it, d, vals, fresh(i), f"call {i} of placements {hist} against the CPU")
                    ctx.state(cell["item"], hist, i, vals)


# -- flows: functions of (module mover, tensor mover) that return observations --------------------
def fixed_whiten(mod, x):
    from ml4gw.transforms import FixedWhiten
    for fit in (dict(fftlength=2, overlap=1), dict(fftlength=2, highpass=5.0, lowpass=25.0), None):
        m = mod(FixedWhiten(2, 4, 64))
        if fit is None:
            m.fit(1.0, *[x(spectrum(0, c, 65)) for c in range(2)], highpass=5.0)
        else:
            m.fit(1.0, *[x(noise((1024,), torch.float64, c)) for c in range(2)], **fit)
        yield m(x(noise((2, 2, 256), torch.float64, "w")))


def snr_rescaler(mod, x):
    from ml4gw.transforms import SnrRescaler
    for kw in ({}, dict(highpass=5.0), dict(highpass=5.0, lowpass=25.0)):
        m = mod(SnrRescaler(2, 64, 4.0, dtype=torch.float64, **kw))
        m.fit(*[x(noise((1024,), torch.float64, c)) for c in range(2)], fftlength=2, overlap=1)
        r = x(noise((3, 2, 256), torch.float64, "r"))
        yield m(r, x(torch.tensor([4.0, 9.0, 30.0], dtype=torch.float64)))
        yield m(r)


def scaler(mod, x):
    from ml4gw.transforms import ChannelWiseScaler
    for n in (None, 3):
        m = mod(ChannelWiseScaler(n))
        m.fit(x(noise((64,) if n is None else (3, 64), torch.float32, n or 0)))
        d = x(noise((2, 3, 16), torch.float32, "s"))
        yield m(d)
        yield m(d, reverse=True)


def snapshots(mod, x):
    from ml4gw.nn.streaming import Snapshotter
    for batch, split in ((1, None), (3, None), (2, (1, 2))):
        for first in (None, "initial"):
            m = mod(Snapshotter(3, 8, 2, batch, split))
            st = None if first is None else x(m.get_initial_state())
            for i in range(3):
                *out, st = m(x(noise((3, 2 * batch), torch.float32, i)), st)
                yield out
                yield st


def averages(mod, x):
    from ml4gw.nn.streaming import OnlineAverager
    for offset in (None, 2):
        for first in (None, "initial"):
            m = mod(OnlineAverager(2, 2, 3, 2, offset))
            st = None if first is None else m.get_initial_state()
            for i in range(3):
                out, st = m(x(noise((2, 2, 10), torch.float32, i)), st)
                yield out
                yield st


def augment(mod, x):
    from ml4gw.augmentations import SignalInverter, SignalReverser
    for cls in (SignalInverter, SignalReverser):
        for p in (0.0, 0.5, 1.0):
            for shape in ((4, 2, 8), (3, 8), (8,)):
                yield mod(cls(p))(x(noise(shape, torch.float32, p)))


def sampling(mod, x):
    from ml4gw.utils.slicing import sample_kernels, slice_kernels, unfold_windows
    d1, d2, d3 = (x(noise(s, torch.float32, 1)) for s in ((40,), (2, 40), (3, 2, 40)))
    yield sample_kernels(d1, 8, N=5)
    for co in (True, False):
        for off in (None, 2, -1):
            yield sample_kernels(d2, 4, N=5, max_center_offset=off, coincident=co)
    for off in (None, 2, -1):
        yield sample_kernels(d3, 4, max_center_offset=off)
    for d, i in ((d1, torch.tensor([3, 0])), (d2, torch.tensor([[1, 2], [3, 4]])), (d2, torch.tensor([5, 9])),
                 (d3, torch.tensor([1, 2, 3]))):
        yield slice_kernels(d, x(i), 6)
    for d in (d1, d2, d3):
        yield unfold_windows(d, 6, 5)
        yield unfold_windows(d, 6, 5, drop_last=False)


def loading(mod, x):
    from ml4gw.dataloading import ChunkedTimeSeriesDataset, InMemoryDataset
    dev = x(torch.zeros(1)).device
    X = noise((2, 40), torch.float32, 5)
    y = torch.arange(40.0)
    for kw in (dict(), dict(y=y), dict(shuffle=False), dict(y=y, shuffle=False), dict(batches_per_epoch=2),
               dict(coincident=False, batches_per_epoch=2), dict(batches_per_epoch=2, shuffle=False)):
        yield from InMemoryDataset(X, 6, batch_size=4, stride=3, device=dev, **kw)
    for kw in (dict(), dict(coincident=False)):
        yield from ChunkedTimeSeriesDataset([noise((3, 2, 20), torch.float32, i) for i in range(2)], 5, 4, 2, device=dev, **kw)


def waveforms(mod, x):
    from ml4gw.transforms import WaveformProjector, WaveformSampler
    # a sampler over device waveforms hands out device waveforms
    for par in (None, x(torch.arange(20.0).reshape(5, 4))):
        m = mod(WaveformSampler(parameters=par, plus=x(noise((5, 64), torch.float32, 1)), cross=x(noise((5, 64), torch.float32, 2))))
        for n in (3, 5, -1):
            out = m(n)
            yield out
    # a single detector, and polarizations of general relativity and beyond
    for ifos in (["H1"], ["H1", "K1"]):
        p = mod(WaveformProjector(ifos, 512))
        ang = [x(torch.tensor(v)) for v in ([0.1, -1.0], [0.2, 1.0], [0.3, 4.0])]
        yield p(*ang, plus=x(noise((2, 64), torch.float32, 1)), cross=x(noise((2, 64), torch.float32, 2)))
        yield p(*ang, breathing=x(noise((2, 64), torch.float32, 1)))


def distributions(mod, x):
    from ml4gw import distributions as D
    one = lambda v: x(torch.tensor(v))  # noqa: E731
    for mk in (lambda: D.Cosine(one(-0.3), one(1.2)), lambda: D.Sine(one(0.3), one(1.2)),
               lambda: D.LogUniform(one(1.0), one(10.0)), lambda: D.LogNormal(one(3.0), one(1.0), one(0.5), validate_args=False),
               lambda: D.PowerLaw(one(1.0), one(10.0), one(-2.0)), lambda: D.DeltaFunction(one(3.0)),
               lambda: D.UniformComovingVolume(one(0.1), one(1.0), grid_size=100),
               lambda: D.UniformComovingVolume(one(100.0), one(1000.0), "luminosity_distance", grid_size=100),
               lambda: D.RateEvolution(lambda z: 1 / (1 + z), one(0.1), one(1.0), grid_size=100)):
        dd = mk()
        s = dd.sample((6,))
        yield s
        if not isinstance(dd, D.DeltaFunction):
            yield dd.log_prob(s)


def training(mod, x):
    from ml4gw.nn.autoencoder import ConcatSkipConnect, ConvolutionalAutoencoder
    from ml4gw.nn.norm import GroupNorm1D
    from ml4gw.nn.resnet import ResNet1D, ResNet2D
    from ml4gw.nn.ssm.s4d import S4Model
    torch.manual_seed(3)
    for mk, shape in ((lambda: ResNet1D(2, [1, 1], 3, norm_layer=torch.nn.BatchNorm1d), (3, 2, 32)),
                      (lambda: ResNet1D(2, [1, 1], 3), (3, 2, 32)),
                      (lambda: ResNet2D(2, [1, 1], 3, norm_layer=torch.nn.BatchNorm2d), (3, 2, 16, 16)),
                      (lambda: ConvolutionalAutoencoder(2, [4, 8], 3, stride=2, skip_connection=ConcatSkipConnect()), (3, 2, 31)),
                      (lambda: GroupNorm1D(4, 2), (3, 4, 9)), (lambda: S4Model(3, 2, 4, 8, 2, dropout=0.0), (3, 3, 32))):
        m = mod(mk()).train()
        for i in range(2):
            yield m(x(noise(shape, torch.float32, i)))


def tensors_given(mod, x):
    """Arguments the caller supplies as tensors, and functions called with device tensors."""
    from ml4gw import spectral
    from ml4gw.transforms import Decimator, Heterodyne, SplineInterpolate1D, SplineInterpolate2D
    from ml4gw.transforms.qtransform import QScan, SingleQTransform
    s = x(noise((2, 3, 256), torch.float64, 1))
    w = x(torch.hann_window(64, dtype=torch.float64))
    for f in (spectral.spectral_density, spectral.fast_spectral_density):
        yield f(s, 64, 32, w, 2.0)
        yield f(s[0], 64, 20, w, 2.0, average="mean")
    yield spectral.fast_spectral_density(s, 64, 32, w, 2.0, y=s + 1)
    yield spectral.truncate_inverse_power_spectrum(x(torch.stack([spectrum(0, c, 129) for c in range(3)]))[None], 0.5, 64, 4, 20)
    yield mod(Decimator(64, torch.tensor([[0, 2, 16], [2, 4, 64]]), split=True))(s)
    for how in ("chirp", "time", "both"):
        try:
            m = mod(Heterodyne(64, 4.0, torch.tensor([1.2, 20.0]), how))
        except Exception:  # noqa: BLE001
            continue
        yield m(s)
    g = torch.arange(12.0)
    m1 = mod(SplineInterpolate1D(g))
    yield m1(x(noise((2, 12), torch.float32, 2)), x_out=x(torch.linspace(0, 11, 7)))
    yield m1(x(noise((2, 12), torch.float32, 3)), x_out=x(torch.linspace(1, 9, 5)))
    m2 = mod(SplineInterpolate2D(g, torch.arange(9.0), x_out=torch.linspace(0, 11, 7)))
    yield m2(x(noise((2, 1, 9, 12), torch.float32, 2)), y_out=x(torch.linspace(0, 8, 4)))
    yield m2(x(noise((2, 1, 9, 12), torch.float32, 2)), x_out=x(torch.linspace(1, 8, 4)), y_out=x(torch.linspace(1, 8, 4)))
    q = mod(SingleQTransform(2.0, 128, [16, 32], 12.0, [8.0, 48.0]))
    d = x(noise((2, 1, 256), torch.float32, 4))
    q.compute_qtiles(d)
    yield q.get_max_energy(dimension="batch")
    yield q.get_max_energy(fsearch_range=[10.0, 30.0], dimension="channel")
    yield q.interpolate()
    yield mod(QScan(2.0, 128, [16, 32], [4.0, 16.0], frange=[8.0, 48.0]))(d, fsearch_range=[10.0, 30.0])


FLOWS = dict(fixed_whiten=fixed_whiten, snr_rescaler=snr_rescaler, scaler=scaler, snapshots=snapshots, averages=averages,
             augment=augment, sampling=sampling, loading=loading, waveforms=waveforms, distributions=distributions,
             training=training, tensors_given=tensors_given)


def seeded(fn, mod, x, limit=10**9):
    torch.manual_seed(11)
    np.random.seed(11)
    random.seed(11)
    seen = []
    for obs in itertools.islice(fn(mod, x), limit):
        t = tensors_in(obs)
        seen.append(([on_device(v) for v in t], [host(v) for v in t]))
    return seen


def run_flow(name, ctx):
    fn = FLOWS[name]
    want = seeded(fn, lambda m: m, lambda t: t)
    # modules and data on the device; modules moved there and back before use
    moves = dict(device=lambda m: m.to(DEV), again=lambda m: m.to(DEV).to(CPU).to(DEV))
    for label, mod in moves.items():
        for i in range(len(want)):
            with ctx.case(flow=name, modules=label, observation=i):
                got = attempt(ctx, lambda: seeded(fn, mod, lambda t: t.to(DEV), i + 1))  # noqa: B023
                if got is None:
                    break
                ctx.step(i + 1)
                places, vals = got[i]
                ctx.require(all(places), f"observation {i} of {name} was left on the CPU")
                for g, w in zip(vals, want[i][1], strict=True):
                    ctx.close(g, w, f"observation {i} of {name} against the CPU", rtol=1e-5, atol=1e-7)
                    ctx.require(g.dtype == w.dtype, f"observation {i} of {name}: {g.dtype} on the device, {w.dtype} on the CPU")
                ctx.state(name, label, i, vals)
            if ctx.violations:
                break


def run_cell(cell, ctx):
    if "item" in cell:
        run_item(cell, ctx)
    else:
        run_flow(cell["flow"], ctx)
