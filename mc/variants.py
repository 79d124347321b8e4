"""Pairs of differently configured objects living in one process, for the cross-object checks.

A family is a component together with several configurations that differ in one argument (or call option) each.  What
a configuration computes when it is the only one its process ever saw is the model (a child process per
configuration); every ordered pair, and the whole family in sequence, is then run in further child processes.
"""
from __future__ import annotations

import os
import pickle
import random
import traceback
import warnings
from dataclasses import dataclass
from typing import Callable

import numpy as np
import torch

from .core import Mismatch, tensors_in
from .data import noise, unif

f32, f64 = torch.float32, torch.float64


@dataclass
class Family:
    name: str
    pid: str
    make: Callable          # **cfg -> object
    use: Callable           # object, cfg -> tensors
    cfgs: list              # (label, cfg)
    tol: float = 1e-5
    draws: bool = False     # uses random numbers


def pub(out):
    """Everything a result consists of."""
    if isinstance(out, torch.Tensor | dict | list | tuple):
        ts = tensors_in(out)
    else:
        ts = [torch.as_tensor(out)]
    return [t.detach().clone() for t in ts]


def families():
    import sympy  # noqa: F401  (torch loads it lazily, which every child would repeat)

    from ml4gw import augmentations as aug
    from ml4gw import distributions as D
    from ml4gw import gw, spectral
    from ml4gw import transforms as tf
    from ml4gw import waveforms as wf
    from ml4gw.dataloading import ChunkedTimeSeriesDataset, InMemoryDataset
    from ml4gw.nn.autoencoder import AddSkipConnect, ConcatSkipConnect, ConvolutionalAutoencoder
    from ml4gw.nn.norm import GroupNorm1D
    from ml4gw.nn.resnet import ResNet1D, ResNet2D
    from ml4gw.nn.resnet.resnet_1d import BottleneckResNet1D
    from ml4gw.nn.resnet.resnet_2d import BottleneckResNet2D
    from ml4gw.nn.ssm.s4d import S4D, S4Model
    from ml4gw.nn.streaming import OnlineAverager, Snapshotter
    from ml4gw.transforms.qtransform import QTile
    from ml4gw.utils import slicing
    from ml4gw.waveforms import conversion
    from ml4gw.waveforms.cbc import utils
    from ml4gw.waveforms.generator import TimeDomainCBCWaveformGenerator

    out = []

    def fam(name, pid, make, use, base, *changes, **kw):
        cfgs = [("base", base)]
        for c in changes:
            cfgs.append((", ".join(f"{k}={str(v)[:40]}" for k, v in c.items()), dict(base, **c)))
        out.append(Family(name, pid, make, use, cfgs, **kw))

    def fn(name, pid, f, base, *changes, **kw):
        """A function: the object is the function itself."""
        fam(name, pid, lambda **c: f, lambda o, c: o(**c), base, *changes, **kw)

    X = {n: noise((2, 2, n), f64, ("var", n)) for n in (64, 90, 128, 200, 256, 320)}
    x = X[256]
    t256 = torch.arange(256, dtype=f64)

    # -- filters and spectra ---------------------------------------------------------------
    fam("IIRFilter", "P22", tf.IIRFilter, lambda o, c: o(X[200]),
        dict(N=4, Wn=30.0, btype="low", ftype="cheby1", rp=1.0, fs=200), dict(rp=6.0), dict(rp=1.4), dict(N=5),
        dict(Wn=30.4), dict(fs=201), dict(fs=200.4), dict(btype="high"), dict(ftype="butter"), dict(rs=40.0),
        dict(rs=40.0, ftype="ellip"), dict(rs=60.0, ftype="ellip"), dict(rs=40.0, ftype="ellip", rp=3.0), dict(_bad=True, ftype="nope"), tol=1e-4)
    fam("IIRFilter(stopband)", "P22", tf.IIRFilter, lambda o, c: o(X[200]),
        dict(N=3, Wn=[20.0, 60.0], btype="band", ftype="cheby2", rs=40.0, fs=200), dict(rs=20.0), dict(rs=40.3),
        dict(Wn=[20.0, 65.0]), dict(Wn=[25.0, 60.0]), dict(btype="bandstop"), dict(ftype="bessel"),
        dict(Wn=torch.tensor([20.0, 61.0])), dict(fs=240), tol=1e-4)
    win = {k: getattr(torch, k + "_window")(64) for k in ("hamming", "blackman")}
    fam("SpectralDensity", "P13", tf.SpectralDensity, lambda o, c: o(x),
        dict(sample_rate=64, fftlength=1.0), dict(fftlength=2.0), dict(fftlength=1.5), dict(overlap=0.25),
        dict(overlap=0.0), dict(average="median"), dict(fast=True), dict(fast=True, average="median"),
        dict(sample_rate=32, fftlength=2.0), dict(sample_rate=128, fftlength=0.5), dict(window=win["hamming"]),
        dict(window=win["blackman"]), dict(overlap=0.26), dict(_bad=True, overlap=1.0), dict(_bad=True, average="mode"))

    def density(kind, nperseg, nstride, window, scale, average, dtype=f64):
        return getattr(spectral, kind)(x.to(dtype), nperseg, nstride, window.to(dtype), scale, average)

    w64 = torch.hann_window(64)
    fn("spectral_density", "P13", density,
       dict(kind="spectral_density", nperseg=64, nstride=32, window=w64, scale=1.0, average="mean"), dict(nstride=16),
       dict(window=win["hamming"]), dict(scale=2.0), dict(average="median"), dict(kind="fast_spectral_density"),
       dict(kind="fast_spectral_density", average="median"), dict(nperseg=32, window=torch.hann_window(32)), dict(dtype=f32),
       dict(kind="fast_spectral_density", window=win["hamming"]), dict(kind="fast_spectral_density", scale=2.0))
    psd = {n: torch.stack([unif((n,), 0.5, 2.0, f64, ("psd", n, c)) for c in range(2)]) for n in (33, 129, 65)}
    fam("Whiten", "P12", tf.Whiten, lambda o, c: o(x, psd[129]), dict(fduration=0.5, sample_rate=64), dict(fduration=1.0),
        dict(fduration=0.53), dict(sample_rate=128), dict(sample_rate=64.5), dict(highpass=4.0), dict(highpass=4.3), dict(lowpass=20.0),
        dict(highpass=4.0, lowpass=20.0), dict(lowpass=20.3), dict(_bad=True, fduration=100.0))
    fn("whiten", "P12", lambda **c: spectral.whiten(x[..., :c.pop("n", 256)].to(c.pop("dtype", f64)), **c),
       dict(psd=psd[129], fduration=0.5, sample_rate=64.0), dict(psd=psd[33]), dict(psd=psd[129] * 2), dict(highpass=4.0),
       dict(highpass=8.0), dict(lowpass=20.0), dict(lowpass=24.0), dict(fduration=0.25), dict(n=200), dict(dtype=f32, psd=psd[129].to(f32)),
       dict(crop=False), dict(fduration=torch.hann_window(32, dtype=f64)), dict(fduration=torch.hamming_window(32, dtype=f64)))
    fn("truncate_inverse_power_spectrum", "P12", spectral.truncate_inverse_power_spectrum,
       dict(psd=psd[129][None], fduration=0.5, sample_rate=64.0), dict(highpass=4.0), dict(highpass=8.0), dict(lowpass=20.0),
       dict(lowpass=24.0), dict(fduration=0.25), dict(psd=psd[65][None]), dict(psd=psd[129].to(f32)[None]), dict(sample_rate=128.0))
    long = [noise((2048,), f64, ("bg", c)) * (1 + c) for c in range(3)]

    def fixed(fit, **c):
        m = tf.FixedWhiten(**c)
        fit = dict(fit)
        bg = fit.pop("background", long)
        m.fit(fit.pop("fduration", 0.5), *bg[:c["num_channels"]], **fit)
        return m

    def kernels(o, c):
        n = int(c["kernel_length"] * c["sample_rate"])
        return o(noise((2, c["num_channels"], n), c.get("dtype", f64), "fw"))

    fam("FixedWhiten", "P12", fixed, kernels, dict(num_channels=2, kernel_length=4, sample_rate=64, fit=dict(fftlength=2)),
        dict(fit=dict(fftlength=1)), dict(fit=dict(fftlength=2, overlap=0.5)), dict(fit=dict(fftlength=2, overlap=0)),
        dict(fit=dict(fftlength=2, highpass=4.0)), dict(fit=dict(fftlength=2, lowpass=20.0)), dict(fit=dict(fftlength=2, fduration=1.0)),
        dict(fit=dict(fftlength=2, background=long[1:])), dict(kernel_length=2), dict(sample_rate=128), dict(num_channels=1),
        dict(dtype=f32), dict(_bad=True, fit=dict(fftlength=2, background=long[:1])), dict(_bad=True, fit=dict(fftlength=2, overlap=3)))

    def rescaler(fit, **c):
        m = tf.SnrRescaler(**c)
        fit = dict(fit)
        m.fit(*fit.pop("background", long)[:c["num_channels"]], **fit)
        return m

    def rescale(o, c):
        n = int(c["waveform_duration"] * c["sample_rate"])
        return o(noise((3, c["num_channels"], n), f64, "sr"), torch.tensor([8.0, 20.0, 4.0], dtype=f64))

    fam("SnrRescaler", "P14", rescaler, rescale,
        dict(num_channels=2, sample_rate=64, waveform_duration=4.0, dtype=f64, fit=dict(fftlength=2)), dict(highpass=8.0), dict(highpass=10.0),
        dict(lowpass=20.0), dict(lowpass=24.0), dict(fit=dict(fftlength=1)), dict(fit=dict(fftlength=2, overlap=0.5)),
        dict(fit=dict(fftlength=2, background=long[1:])), dict(waveform_duration=2.0), dict(sample_rate=128), dict(num_channels=1),
        dict(dtype=f32), dict(_bad=True, fit=dict(fftlength=2, background=long[:1])), dict(_bad=True, fit=dict(fftlength=2, overlap=3)))
    mask = torch.fft.rfftfreq(256, 1 / 64) > 7
    for nm in ("compute_ifo_snr", "compute_network_snr", "reweight_snrs"):
        extra = dict(target_snrs=torch.tensor([8.0, 20.0], dtype=f64)) if nm == "reweight_snrs" else {}
        fn(nm, "P14", lambda nm=nm, n=256, **c: getattr(gw, nm)(responses=x[..., :n], **c),
           dict(psd=psd[129], sample_rate=64.0, **extra), dict(highpass=8.0), dict(highpass=12.0), dict(lowpass=20.0), dict(lowpass=24.0),
           dict(highpass=8.0, lowpass=20.0), dict(highpass=mask), dict(highpass=~mask), dict(sample_rate=128.0),
           dict(sample_rate=128.0, highpass=8.0), dict(psd=psd[129] * 2), dict(psd=psd[33], n=64), dict(psd=psd[33], n=64, highpass=8.0))

    def scaler(data, num_channels):
        m = tf.ChannelWiseScaler(num_channels)
        m.fit(data)
        return m

    bg = noise((2, 300), f64, "cws") * 3 + 1
    fam("ChannelWiseScaler", "P08", scaler, lambda o, c: [o(x[:, :c["num_channels"] or 1]),
                                                        o(x[:, :c["num_channels"] or 1], reverse=True)],
        dict(num_channels=2, data=bg), dict(data=bg * 2), dict(data=bg + 5), dict(data=bg[:, :100]), dict(num_channels=1, data=bg[:1]),
        dict(num_channels=None, data=bg[0]))

    # -- images ----------------------------------------------------------------------------
    xs = X[256].to(f32)
    fam("QTile", "P23", QTile, lambda o, c: [o(torch.fft.rfft(xs), n) for n in ("median", None)],
        dict(q=12.0, frequency=20.0, duration=2.0, sample_rate=128, mismatch=0.2), dict(q=10.0), dict(frequency=24.0), dict(frequency=20.5),
        dict(mismatch=0.1), dict(sample_rate=127), dict(q=12.2), dict(mismatch=0.35), tol=1e-3)
    sq = dict(duration=2.0, sample_rate=128, spectrogram_shape=[16, 32], q=12.0, frange=[8.0, 48.0])
    fam("SingleQTransform", "P23", tf.SingleQTransform, lambda o, c: o(xs), sq, dict(spectrogram_shape=[32, 16]),
        dict(spectrogram_shape=[17, 31]), dict(q=9.0), dict(q=12.4), dict(frange=[10.0, 48.0]), dict(frange=[8.0, 40.0]), dict(frange=None), dict(mismatch=0.1),
        dict(interpolation_method="bilinear"), dict(interpolation_method="spline", mismatch=0.1),
        dict(interpolation_method="spline", mismatch=0.1, spectrogram_shape=[12, 32]),
        dict(_bad=True, q=1e4), dict(_bad=True, interpolation_method="nearest"), tol=1e-3)
    fam("SingleQTransform(norm)", "P23", lambda norm, **c: tf.SingleQTransform(**c), lambda o, c: o(xs, norm=c["norm"]),
        dict(sq, norm="median"), dict(norm="mean"), dict(norm=None), dict(_bad=True, norm="max"), tol=1e-3)
    fam("QScan", "P23", tf.QScan, lambda o, c: o(xs[0]),
        dict(duration=2.0, sample_rate=128, spectrogram_shape=[16, 32], qrange=[4.0, 16.0], frange=[8.0, 48.0]),
        dict(qrange=[4.0, 10.0]), dict(qrange=[6.0, 16.0]), dict(frange=[12.0, 48.0]), dict(mismatch=0.35), dict(spectrogram_shape=[16, 20]),
        dict(interpolation_method="bilinear"), tol=1e-3)
    fam("MultiResolutionSpectrogram", "P24", tf.MultiResolutionSpectrogram, lambda o, c: o(xs),
        dict(kernel_length=2.0, sample_rate=128, n_fft=[32, 64]), dict(n_fft=[32, 48]), dict(n_fft=[64, 32]), dict(n_fft=[32]),
        dict(hop_length=[16, 16]), dict(hop_length=[8, 16]), dict(win_length=[16, 32]), dict(power=[1.0, 1.0]), dict(power=[2.0, 1.0]),
        dict(window_fn=[torch.hamming_window] * 2), dict(center=[False, False]), dict(pad=[4, 4]))
    fam("SplineInterpolate1D", "P20", lambda run=None, **c: tf.SplineInterpolate1D(**c),
        lambda o, c: o(xs[0, 0, None, None, :len(c["x_in"])], **({} if c.get("run") is None else dict(x_out=c["run"]))),
        dict(x_in=torch.arange(12.0), x_out=torch.linspace(0, 11, 20)), dict(x_out=torch.linspace(1, 10, 20)), dict(kx=2), dict(kx=1), dict(sx=0.5),
        dict(sx=0.1), dict(x_in=torch.arange(12.0) ** 1.2), dict(x_in=torch.arange(13.0)), dict(x_out=torch.linspace(0, 11, 21)),
        dict(run=torch.linspace(0, 9, 20)), dict(run=torch.linspace(0, 8, 20)), dict(_bad=True, x_out=None), dict(_bad=True, x_in=torch.arange(3.0)), tol=1e-4)
    z = noise((2, 2, 9, 8), f32, "z")
    fam("SplineInterpolate2D", "P20", lambda run={}, **c: tf.SplineInterpolate2D(**c), lambda o, c: o(z, **c.get("run", {})),
        dict(x_in=torch.arange(8.0), y_in=torch.arange(9.0), x_out=torch.linspace(0, 7, 10), y_out=torch.linspace(0, 8, 11)),
        dict(x_out=torch.linspace(1, 7, 10)), dict(y_out=torch.linspace(1, 8, 11)), dict(kx=2), dict(ky=2), dict(sx=0.5), dict(sy=0.5),
        dict(x_in=torch.arange(8.0) ** 1.1), dict(y_in=torch.arange(9.0) ** 1.1), dict(run=dict(x_out=torch.linspace(0, 6, 10))),
        dict(run=dict(y_out=torch.linspace(0, 6, 11))), tol=1e-4)

    # -- series ----------------------------------------------------------------------------
    fam("ShiftedPearsonCorrelation", "P19", tf.ShiftedPearsonCorrelation, lambda o, c: o(x, X[256].flip(-1)), dict(max_shift=3),
        dict(max_shift=4), dict(max_shift=1), dict(max_shift=30))
    sch = lambda *r: torch.tensor(r)  # noqa: E731
    fam("Decimator", "P17", tf.Decimator, lambda o, c: o(x),
        dict(sample_rate=64, schedule=sch([0, 2, 16], [2, 4, 64])), dict(schedule=sch([0, 2, 64], [2, 4, 16])),
        dict(schedule=sch([0, 2, 32], [2, 4, 64])), dict(schedule=sch([0, 1, 16], [1, 4, 64])), dict(split=True),
        dict(schedule=sch([0, 4, 32])), dict(schedule=sch([0, 2, 16], [2, 4, 32])), dict(sample_rate=32, schedule=sch([0, 2, 16], [2, 8, 32])), dict(_bad=True, schedule=sch([0, 2, 48], [2, 4, 64])), dict(_bad=True, schedule=sch([0, 2, 16], [2, 9, 64])))
    fam("Heterodyne", "P21", tf.Heterodyne, lambda o, c: o(x),
        dict(sample_rate=64, kernel_length=4.0, chirp_mass=torch.tensor([1.2, 20.0]), return_type="both"), dict(chirp_mass=torch.tensor([1.2, 25.0])),
        dict(chirp_mass=torch.tensor([1.24, 20.0])), dict(chirp_mass=torch.tensor([1.2])), dict(chirp_mass=torch.tensor([1.2, 20.0, 30.0])), dict(return_type="time"), dict(return_type="freq"),
        dict(sample_rate=128, kernel_length=2.0), tol=1e-3)
    row = x[0]
    fam("TophatIntegrator", "P18", tf.TophatIntegrator, lambda o, c: o(row.to(f32)), dict(sample_rate=8, integration_length=2),
        dict(integration_length=3), dict(sample_rate=4), dict(sample_rate=4, integration_length=4))
    fam("LeakyIntegrator", "P18", tf.LeakyIntegrator, lambda o, c: o(row),
        dict(threshold=0.4, decay=0.5, lower_bound=-1.0, integrate_value="count"), dict(threshold=0.1), dict(decay=0.25), dict(lower_bound=0.0),
        dict(lower_bound=-1.4), dict(integrate_value="score"), dict(integrate_value="score", decay=0.25), dict(integrate_value="score", threshold=0.1), dict(_bad=True, integrate_value="sum"))
    fn("unfold_windows", "P03", lambda **c: slicing.unfold_windows(x.to(c.pop("dtype", f64)), **c), dict(window_size=8, stride=3), dict(stride=4), dict(window_size=9),
       dict(drop_last=False), dict(drop_last=False, stride=5), dict(dtype=f32))
    idx = torch.tensor([3, 7])
    fn("slice_kernels", "P03", lambda **c: slicing.slice_kernels(x, **c), dict(idx=idx, kernel_size=8), dict(kernel_size=9), dict(idx=idx + 1),
       dict(idx=idx.flip(0)))
    fn("slice_kernels(rows)", "P03", lambda **c: slicing.slice_kernels(x[0], **c), dict(idx=idx, kernel_size=8), dict(kernel_size=9), dict(idx=idx + 1),
       dict(idx=torch.stack([idx, idx + 2], 1)), dict(idx=torch.stack([idx + 2, idx], 1)))
    fn("sample_kernels", "P04", lambda **c: slicing.sample_kernels(**dict(dict(X=x), **c)), dict(kernel_size=8), dict(kernel_size=9), dict(N=2), dict(coincident=False),
       dict(max_center_offset=4), dict(X=x[0], N=3), dict(X=x[0], N=3, coincident=False), dict(max_center_offset=10), dict(_bad=True, kernel_size=400), draws=True)

    def play(o, c):
        n = c["stride_size"] * c["batch_size"]
        s = torch.zeros(c["num_channels"], c["snapshot_size"] - c["stride_size"])
        res = []
        for k in range(3):
            *y, s = o(noise((c["num_channels"], n), f32, ("snap", k)), s)
            res += [*y, s]
        return res

    fam("Snapshotter", "P01", Snapshotter, play, dict(num_channels=3, snapshot_size=16, stride_size=4, batch_size=2), dict(stride_size=3),
        dict(batch_size=3), dict(snapshot_size=12), dict(channels_per_snapshot=[1, 2]), dict(channels_per_snapshot=[2, 1]), dict(num_channels=2), dict(_bad=True, channels_per_snapshot=[2, 2]), dict(_bad=True, stride_size=16))

    def average(o, c):
        s, res = None, []
        for k in range(3):
            y, s = o(noise((c["batch_size"], c["num_channels"], 32), f32, ("avg", k)), s)
            res += [y, s]
        return res

    fam("OnlineAverager", "P02", OnlineAverager, average,
        dict(update_size=4, batch_size=2, num_updates=3, num_channels=2), dict(update_size=3), dict(batch_size=3), dict(num_updates=2),
        dict(num_updates=5), dict(offset=4), dict(offset=9), dict(num_channels=1))
    series = torch.arange(2 * 60, dtype=f32).reshape(2, 60)
    fam("InMemoryDataset", "P05", InMemoryDataset, lambda o, c: list(o), dict(X=series, kernel_size=8, batch_size=4), dict(kernel_size=9), dict(stride=3),
        dict(coincident=False, batches_per_epoch=5), dict(shuffle=False), dict(batches_per_epoch=3), dict(batch_size=5), dict(y=torch.arange(60.0)), dict(X=-series), dict(X=series[:, :50]), dict(_bad=True, kernel_size=70), dict(_bad=True, y=torch.arange(59.0)),
        draws=True)

    def chunked(n, scale=1, **c):
        return ChunkedTimeSeriesDataset([scale * noise((3, 2, n), f32, ("chunk", k)) for k in range(3)], **c)

    fam("ChunkedTimeSeriesDataset", "P06", chunked, lambda o, c: list(o),
        dict(n=60, kernel_size=8, batch_size=4, batches_per_chunk=2), dict(kernel_size=9), dict(coincident=False), dict(n=50), dict(scale=2), dict(batch_size=5),
        dict(batches_per_chunk=3), dict(_bad=True, kernel_size=70), draws=True)
    for nm, cls in (("SignalInverter", aug.SignalInverter), ("SignalReverser", aug.SignalReverser)):
        fam(nm, "P26", lambda prob, n=2, cls=cls: cls(prob), lambda o, c: o(noise((5, c.get("n", 2), 8), f32, "aug")), dict(prob=0.5), dict(prob=1.0), dict(prob=0.0),
            dict(prob=0.3), dict(n=3), draws=True)
    pols = {p: noise((9, 32), f64, ("ws", p)) for p in ("plus", "cross")}
    pars = noise((9, 3), f64, "wsp")
    fam("WaveformSampler", "P16", tf.WaveformSampler, lambda o, c: [o(4), o(-1)], dict(parameters=pars, **pols), dict(parameters=-pars), dict(parameters=None),
        dict(plus=-pols["plus"]), dict(parameters=pars[:7], plus=pols["plus"][:7], cross=pols["cross"][:7]), dict(_bad=True, parameters=pars[:7]), draws=True)

    # -- sky -------------------------------------------------------------------------------
    sky = [torch.tensor(v, dtype=f64) for v in ((0.4, -1.2), (0.2, 1.0), (0.5, -2.0))]
    fam("WaveformProjector", "P15", lambda like=f64, **c: tf.WaveformProjector(**c).to(like), lambda o, c: o(
        *[s.to(c.get("like", f64)) for s in sky], plus=x[0].to(c.get("like", f64)), cross=x[1].to(c.get("like", f64))),
        dict(ifos=["H1", "L1"], sample_rate=512), dict(ifos=["L1", "H1"]), dict(ifos=["H1", "V1"]), dict(ifos=["H1"]), dict(ifos=["H1", "L1", "V1", "K1"]),
        dict(sample_rate=2048), dict(like=f32), dict(_bad=True, ifos=["H1", "X1"]), tol=1e-4)
    fn("get_ifo_geometry", "P15", lambda ifos: gw.get_ifo_geometry(*ifos), dict(ifos=["H1", "L1"]), dict(ifos=["L1", "H1"]), dict(ifos=["H1"]), dict(ifos=["V1", "K1"]),
       dict(ifos=["H1", "H1"]), dict(_bad=True, ifos=["H1", "Z1"]))
    geo = {k: gw.get_ifo_geometry(*k.split()) for k in ("H1 L1", "L1 V1", "K1 H1", "H1")}
    fn("compute_antenna_responses", "P15", lambda ifos, modes, flip=False: gw.compute_antenna_responses(
        *[(-s if flip else s) for s in sky], geo[ifos][0].to(f64), modes), dict(ifos="H1 L1", modes=["plus", "cross"]), dict(modes=["cross", "plus"]), dict(ifos="L1 V1"), dict(ifos="K1 H1"),
        dict(modes=["breathing"]), dict(flip=True), dict(modes=["plus"]), dict(ifos="H1"), dict(_bad=True, modes=["minus"]))
    fn("shift_responses", "P15", lambda ifos, sample_rate, flip=False, n=256: gw.shift_responses(
        x[..., :n][:, :len(ifos.split())], *[(-s if flip else s) for s in sky[::2]], geo[ifos][1].to(f64), sample_rate), dict(ifos="H1 L1", sample_rate=512), dict(sample_rate=2048), dict(ifos="L1 V1"), dict(ifos="K1 H1"),
        dict(flip=True), dict(n=200), dict(ifos="H1"))
    fn("compute_observed_strain", "P15", lambda ifos, sample_rate, pols, flip=False: gw.compute_observed_strain(
        *[(-s if flip else s) for s in sky], *[g.to(f64) for g in geo[ifos]], sample_rate, **{p: x[i] for i, p in enumerate(pols)}),
        dict(ifos="H1 L1", sample_rate=512, pols=("plus", "cross")), dict(pols=("cross", "plus")), dict(pols=("plus",)), dict(pols=("breathing", "cross")), dict(ifos="L1 V1"), dict(ifos="K1 H1"), dict(sample_rate=1024), dict(flip=True), dict(_bad=True, pols=("plus", "minus")))

    # -- waveforms -------------------------------------------------------------------------
    def t(*v, dtype=f64):
        return torch.tensor(v, dtype=dtype)

    sg = dict(quality=t(5.0, 20.0), frequency=t(60.0, 80.0), hrss=t(1e-21, 3e-20), phase=t(0.0, 1.0), eccentricity=t(0.0, 0.5))
    fam("SineGaussian", "P30", wf.SineGaussian, lambda o, c: o.to(f64)(**sg), dict(sample_rate=256, duration=1.0), dict(duration=0.5), dict(duration=2.0, sample_rate=128), dict(sample_rate=512),
        dict(sample_rate=250), dict(duration=1.004))
    rd = dict(frequency=t(60.0, 80.0), quality=t(5.0, 20.0), epsilon=t(1e-3, 1e-2), phase=t(0.0, 1.0), inclination=t(0.6, 2.5), distance=t(100.0, 800.0))
    fam("Ringdown", "P30", wf.Ringdown, lambda o, c: o.to(f64)(**rd), dict(sample_rate=256, duration=1.0), dict(duration=0.5), dict(duration=2.0, sample_rate=128), dict(sample_rate=512),
        dict(sample_rate=250), dict(duration=1.004))
    al = dict(chirp_mass=t(25.0, 9.0), mass_ratio=t(0.5, 0.95), chi1=t(0.3, 0.0), chi2=t(-0.2, 0.6), distance=t(100.0, 800.0), phic=t(0.3, 1.0), inclination=t(0.6, 2.5))
    pr = dict(chirp_mass=t(25.0, 9.0), mass_ratio=t(0.5, 0.95), s1x=t(0.3, 0.0), s1y=t(0.1, 0.0), s1z=t(0.3, 0.1), s2x=t(0.0, 0.1), s2y=t(0.2, 0.0),
              s2z=t(-0.2, 0.3), distance=t(100.0, 800.0), phic=t(0.3, 1.0), inclination=t(0.6, 2.5))
    fr = torch.arange(20.0, 200.0, 4.0, dtype=f64)
    for nm, par in (("TaylorF2", al), ("IMRPhenomD", al), ("IMRPhenomPv2", pr)):
        spin = "chi1" if "chi1" in par else "s1z"
        # the call's arguments are what differs; one shared object and one object each
        fam(nm, "P28", lambda nm=nm, **c: getattr(wf, nm)(), lambda o, c: o(c["f"], **{k: v for k, v in c.items() if k != "f"}), dict(f=fr, f_ref=20.0, **par), dict(f_ref=30.0), dict(f_ref=20.4), dict(f=fr * 1.25), dict(f=fr[:30]), dict(f=fr + 0.5),
            dict(chirp_mass=t(26.0, 9.0)), dict(mass_ratio=t(0.5, 0.9)), {spin: t(0.3, 0.4)}, dict(distance=t(100.0, 900.0)), dict(phic=t(0.3, 2.0)), dict(inclination=t(0.6, 1.5)),
            {k: v.flip(0) for k, v in par.items()}, {k: v.to(f32).to(f64) for k, v in dict(par, f=fr).items()}, tol=1e-6)
    gp = dict(al, mass_1=t(40.0, 11.0), mass_2=t(20.0, 10.0), s1z=t(0.3, 0.0), s2z=t(-0.2, 0.6))
    fam("TimeDomainCBCWaveformGenerator", "P27", lambda approx="IMRPhenomD", par=None, **c: TimeDomainCBCWaveformGenerator(getattr(wf, approx)(), **c),
        lambda o, c: o(**(c.get("par") or gp)), dict(sample_rate=256, duration=2.0, f_min=30.0, f_ref=30.0, right_pad=0.3), dict(sample_rate=512), dict(duration=3.0), dict(f_min=35.0), dict(f_min=30.4), dict(f_ref=40.0),
        dict(right_pad=0.5), dict(approx="TaylorF2"), dict(par={k: v.flip(0) for k, v in gp.items()}), dict(par={k: v[:1] for k, v in gp.items()}), dict(_bad=True, par=dict(chirp_mass=t(20.0))), dict(_bad=True, right_pad=5.0))
    fn("chirp_mass_and_mass_ratio_to_components", "P29", conversion.chirp_mass_and_mass_ratio_to_components, dict(chirp_mass=t(25.0, 9.0), mass_ratio=t(0.5, 0.95)), dict(chirp_mass=t(26.0, 9.0)),
       dict(mass_ratio=t(0.5, 0.9)), dict(chirp_mass=t(25.0, 9.0, dtype=f32), mass_ratio=t(0.5, 0.95, dtype=f32)))
    spins = dict(theta_jn=t(0.4, 1.2), phi_jl=t(0.3, 5.0), tilt_1=t(0.5, 0.1), tilt_2=t(1.5, 0.2), phi_12=t(0.1, 3.0), a_1=t(0.5, 0.2), a_2=t(0.2, 0.7), mass_1=t(40.0, 11.0), mass_2=t(20.0, 10.0), f_ref=20.0, phi_ref=t(0.1, 0.2))
    fn("bilby_spins_to_lalsim", "P29", conversion.bilby_spins_to_lalsim, spins, dict(f_ref=50.0), dict(f_ref=20.3), dict(phi_ref=t(0.1, 1.2)), dict(mass_1=t(41.0, 11.0)), dict(theta_jn=t(0.4, 2.2)))
    sun = 1.98841e30
    for nm, par in (("chirp_time_bound", dict(fstart=t(20.0, 30.0), mass_1=t(40.0, 11.0) * sun, mass_2=t(20.0, 10.0) * sun, s1=t(0.1, 0.3), s2=t(0.2, 0.4))),
                    ("final_black_hole_spin_bound", dict(s1z=t(0.1, 0.3), s2z=t(0.2, 0.4))), ("merge_time_bound", dict(mass_1=t(40.0, 11.0), mass_2=t(20.0, 10.0))),
                    ("ringdown_time_bound", dict(total_mass=t(40.0, 11.0), s=t(0.2, 0.1))), ("frequency_isco", dict(mass_1=t(40.0, 11.0), mass_2=t(20.0, 10.0)))):
        fn(nm, "P27", getattr(utils, nm), par, *[{k: v * 1.02} for k, v in par.items()])
    fn("chirp_start_frequency_bound", "P27", utils.chirp_start_frequency_bound, dict(tchirp=t(1.0, 8.0), mass_1=t(40.0, 11.0), mass_2=t(20.0, 10.0)), dict(tchirp=t(2.0, 8.0)), dict(mass_1=t(41.0, 11.0)))

    # -- distributions ---------------------------------------------------------------------
    def dist(name, vals, base, *changes, v=f32, log=True):
        def use(o, c):
            r = [o.sample(torch.Size([7]))]
            if log:
                r.append(o.log_prob(torch.tensor(vals, dtype=v)))
            return r
        fam(name, "P25", lambda **c: getattr(D, name)(**c), use, base, *changes, draws=True, tol=1e-4)

    dist("Cosine", (0.3, -0.2, 0.1), dict(), dict(low=-1.0), dict(high=1.0), dict(low=-0.5, high=0.5))
    dist("Sine", (0.3, 0.2, 0.5), dict(), dict(low=0.1), dict(high=1.0))
    dist("LogUniform", (1.5, 30.0, 9.0), dict(low=1.0, high=100.0), dict(low=1.2), dict(high=90.0))
    dist("PowerLaw", (1.5, 30.0, 9.0), dict(minimum=1.0, maximum=100.0, index=-2.0), dict(index=-1.0), dict(index=1.0), dict(index=3.0), dict(minimum=1.2), dict(maximum=90.0), dict(_bad=True, index=0.0))
    dist("DeltaFunction", (1.5, 3.0), dict(peak=1.5), dict(peak=3.0), dict(), log=False)
    dist("LogNormal", (1.5, 3.0), dict(mean=6.0, std=1.0), dict(mean=7.0), dict(std=2.0), log=False)
    dist("UniformComovingVolume", (0.1, 0.9, 0.5), dict(minimum=0.0, maximum=2.0), dict(minimum=0.05), dict(maximum=1.0), dict(omega_m=0.25), dict(z_grid_max=3.0), dict(grid_size=5000),
         dict(distance_type="comoving_distance", maximum=1000.0), dict(distance_type="luminosity_distance", maximum=1000.0), dict(distance_type="luminosity_distance", maximum=1200.0), dict(distance_type="luminosity_distance", maximum=1000.0, h0=75.0), dict(_bad=True, distance_type="parsec"), dict(_bad=True, maximum=50.0))
    rates = [lambda zz: 1 / (1 + zz), lambda zz: (1 + zz) ** 2, lambda zz: torch.ones_like(zz)]
    dist("RateEvolution", (0.1, 0.9, 0.5), dict(rate_function=rates[0], minimum=0.0, maximum=2.0), dict(rate_function=rates[1]), dict(rate_function=rates[2]), dict(maximum=1.0))

    # -- networks --------------------------------------------------------------------------
    def net(cls, *shape):
        return dict(make=lambda n=None, **c: cls(**c).eval() if n is None else cls(**c).eval(),
                    use=lambda o, c: o(noise((2, *[(c.get("n") or s) if i else s for i, s in enumerate(shape)]), f32, "net")))

    def nets(name, pid, cls, shape, base, *changes):
        k = net(cls, *shape)
        fam(name, pid, k["make"], k["use"], base, *changes, tol=1e-4, draws=True)

    def gn(**c):
        m = GroupNorm1D(**c)
        with torch.no_grad():
            for p in m.parameters():
                p.copy_(noise(p.shape, f32, "gn"))
        return m

    fam("GroupNorm1D", "P31", lambda **c: gn(**c), lambda o, c: o(xs[:, :1, :32].repeat(1, 4, 1) * torch.arange(1.0, 5)[:, None]), dict(num_channels=4, num_groups=2), dict(num_groups=4),
        dict(num_groups=1), dict(eps=0.1), dict(eps=0.11), dict(_bad=True, num_groups=3), tol=1e-4)
    for nm, cls in (("ResNet1D", ResNet1D), ("BottleneckResNet1D", BottleneckResNet1D)):
        bk = [] if "Bottle" not in nm else [dict(groups=2), dict(width_per_group=32)]
        nets(nm, "P31", cls, (2, 45), dict(in_channels=2, layers=[1, 1], classes=3), dict(layers=[2, 1]), dict(classes=4), dict(kernel_size=5), dict(n=64),
             dict(norm_layer=torch.nn.BatchNorm1d), dict(zero_init_residual=True), dict(_bad=True, kernel_size=4), *([dict(stride_type=["dilation"])] if bk else []), *bk)
    for nm, cls in (("ResNet2D", ResNet2D), ("BottleneckResNet2D", BottleneckResNet2D)):
        nets(nm, "P31", cls, (2, 21, 21), dict(in_channels=2, layers=[1, 1], classes=3), dict(layers=[2, 1]), dict(classes=4), dict(kernel_size=5), dict(n=32), dict(norm_layer=torch.nn.BatchNorm2d))
    nets("S4D", "P32", lambda **c: S4D(**c), (2, 33), dict(d_model=2, d_state=8), dict(d_state=16), dict(dt_min=0.01), dict(dt_max=0.2), dict(n=40))
    nets("S4Model", "P32", S4Model, (3, 33), dict(d_input=3, d_output=2, d_model=4, d_state=8, n_layers=2), dict(n_layers=1), dict(d_output=3), dict(d_model=6), dict(d_state=4), dict(dt_min=0.01))
    nets("ConvolutionalAutoencoder", "P33", lambda skip=None, **c: ConvolutionalAutoencoder(skip_connection=skip and skip(), **c), (2, 33),
         dict(in_channels=2, encode_channels=[4, 8], kernel_size=3, stride=2), dict(stride=1), dict(kernel_size=5), dict(encode_channels=[4, 4]), dict(skip=AddSkipConnect), dict(skip=ConcatSkipConnect),
         dict(norm=GroupNorm1D), dict(output_activation=torch.nn.Tanh), dict(activation=torch.nn.Tanh), dict(decode_channels=3), dict(groups=2), dict(n=40), dict(_bad=True, groups=3))
    return out


# -- running -------------------------------------------------------------------------------
def child(f):
    """f() in a forked child: (True, value) or (False, traceback)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            warnings.filterwarnings("ignore")
            try:
                res = (True, f())
            except Mismatch as e:
                res = (False, str(e))
            except Exception:  # noqa: BLE001
                res = (False, traceback.format_exc()[-1500:])
            with os.fdopen(w, "wb") as fh:
                pickle.dump(res, fh)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else (False, "the child process died")


def seed(s):
    torch.manual_seed(s)
    np.random.seed(s)
    random.seed(s)


def settings():
    return dict(dtype=torch.get_default_dtype(), device=str(torch.tensor(0.0).device), grad=torch.is_grad_enabled(), inference=torch.is_inference_mode_enabled(),
                deterministic=torch.are_deterministic_algorithms_enabled(), threads=torch.get_num_threads(), anomaly=torch.is_anomaly_enabled(),
                matmul=torch.get_float32_matmul_precision(), denormal=float(torch.tensor(1e-310, dtype=f64) * 1) != 0, numpy=sorted(np.geterr().items()),
                cwd=os.getcwd(), benchmark=torch.backends.cudnn.benchmark, tf32=torch.backends.cudnn.allow_tf32)


class Player:
    """Builds and uses variants in the current process."""

    def __init__(self, family, offset=0):
        self.f, self.objs, self.n, self.offset, self.before = family, {}, {}, offset, settings()
        self.calls = 0

    def build(self, i, copy=0):
        seed(7 + self.offset)
        cfg = dict(self.f.cfgs[i][1])
        if cfg.pop("_bad", False):  # refused when built or when used
            try:
                self.objs[i, copy] = self.f.make(**cfg)
            except Exception as e:  # noqa: BLE001
                self.objs[i, copy] = e
        else:
            self.objs[i, copy] = self.f.make(**cfg)
        self.n[i, copy] = 0
        self.check("building", i)

    def use(self, i, copy=0):
        k = self.n[i, copy]
        self.n[i, copy] = k + 1
        seed(k + self.offset)
        cfg, obj = dict(self.f.cfgs[i][1]), self.objs[i, copy]
        if cfg.pop("_bad", False):
            try:
                if isinstance(obj, Exception):
                    raise obj
                out = pub(self.f.use(obj, cfg))
            except Exception:  # noqa: BLE001
                out = [torch.tensor(-1)]
        else:
            out = pub(self.f.use(obj, cfg))
        self.check("using", i)
        return k, out

    def check(self, what, i):
        self.calls += 1
        after = settings()
        if after != self.before:
            diff = [f"{k}: {v} became {after[k]}" for k, v in self.before.items() if after[k] != v]
            raise Mismatch(f"{what} the configuration '{self.f.cfgs[i][0]}' changed process-wide settings: {diff}")


def rng_state():
    return (torch.get_rng_state().numpy().tobytes(), str(np.random.get_state()), str(random.getstate()))


def reference(family, i, uses=3):
    """What a configuration alone computes, call by call; and that it leaves the random generators to the caller."""
    def alone():
        p = Player(family)
        p.build(i)
        return [[o.numpy() for o in p.use(i)[1]] for _ in range(uses)]

    def hygiene():
        ends = []
        for off in (0, 100):
            p = Player(family, offset=off)
            seed(7 + off)
            start = rng_state()
            p.build(i)
            mid = rng_state()
            seed(off)
            start2 = rng_state()
            p.use(i)
            ends.append((start, mid, start2, rng_state()))
        (a0, a1, a2, a3), (b0, b1, b2, b3) = ends
        for name, k in (("torch", 0), ("numpy", 1), ("random", 2)):
            for x0, x1, y0, y1, what in ((a0, a1, b0, b1, "building"), (a2, a3, b2, b3, "using")):
                if x1[k] == y1[k] and x0[k] != y0[k]:
                    raise Mismatch(f"{what} it re-seeds the process-wide generator of {name}")

    return child(alone), child(hygiene)


def compare(family, refs, i, k, got, what):
    want = refs[i][k]
    lab = family.cfgs[i][0]
    if len(got) != len(want):
        raise Mismatch(f"{what}: '{lab}' returns {len(got)} tensors, {len(want)} in a process of its own")
    for j, (g, w) in enumerate(zip(got, want)):
        w = torch.as_tensor(w)
        if g.shape != w.shape or g.dtype != w.dtype:
            raise Mismatch(f"{what}: '{lab}' returns {tuple(g.shape)} {g.dtype}, {tuple(w.shape)} {w.dtype} in a process of its own")
        if not w.is_complex() and not w.is_floating_point():
            if not torch.equal(g, w):
                raise Mismatch(f"{what}: '{lab}' differs from a process of its own (output {j})")
            continue
        g, w = (t.to(torch.complex128) if t.is_complex() else t.double() for t in (g, w))
        fin = w.abs().isfinite()
        if not torch.equal(fin, g.abs().isfinite()):
            raise Mismatch(f"{what}: '{lab}' is finite elsewhere than in a process of its own (output {j})")
        if fin.any():
            err = (g[fin] - w[fin]).abs().max()
            if err > family.tol * w[fin].abs().max():
                raise Mismatch(f"{what}: '{lab}' differs from a process of its own (output {j}): error {float(err):.3g} on "
                               f"{float(w[fin].abs().max()):.3g}")


# build / use orders of two configurations 0 and 1; copies are further objects of the same configuration
ORDERS = (
    ("b0", "b1", "u0", "u1", "u0", "u1", "b0'", "b1'", "u1'", "u0'", "u0"),
    ("b0", "u0", "b1", "u1", "u0", "u1", "b0'", "u0'", "b1'", "u1'"),
)


def run_pair(family, refs, i, j, orders=ORDERS):
    def go(order):
        p = Player(family)
        for n, op in enumerate(order):
            v, c = (i, j)[int(op[1])], int(op.endswith("'"))
            if op[0] == "b":
                p.build(v, c)
            else:
                k, got = p.use(v, c)
                compare(family, refs, v, k, got, f"step {n} of {' '.join(order)}")
        return p.calls

    total = 0
    for order in orders:
        ok, res = child(lambda order=order: go(order))
        if not ok:
            raise Mismatch(res)
        total += res
    return total


def run_all(family, refs, seq):
    """All configurations after one another in one process, then all once more."""
    def go():
        p = Player(family)
        for i in seq:
            p.build(i)
            k, got = p.use(i)
            compare(family, refs, i, k, got, f"after {seq[:seq.index(i)]}")
        for i in seq:
            k, got = p.use(i)
            compare(family, refs, i, k, got, "second use, all configurations alive")
        return p.calls

    ok, res = child(go)
    if not ok:
        raise Mismatch(res)
    return res


def run_mixed(fams, refs, seq):
    """Configurations of different components in one process."""
    def go():
        ps = {}
        for n, (f, i) in enumerate(seq):
            p = ps.setdefault(f, Player(fams[f]))
            if (i, 0) not in p.objs:
                p.build(i)
            if p.n[i, 0] < len(refs[f][i]):
                k, got = p.use(i)
                compare(fams[f], refs[f], i, k, got, f"step {n} of {[(fams[g].name, h) for g, h in seq[:n + 1]]}")
        return sum(p.calls for p in ps.values())

    ok, res = child(go)
    if not ok:
        raise Mismatch(res)
    return res
