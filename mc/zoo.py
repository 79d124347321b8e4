"""Every public component with deterministic element and channel contents, for the cross-cutting checks."""
from __future__ import annotations

import math
from dataclasses import dataclass, field
from typing import Callable

import torch

from .data import noise, unif

CONTENTS = 4      # ordinary contents
POISON = (4, 5, 6)  # not-a-number and infinity, all zero, huge: only ever neighbours of what is compared


def series(e, ch, T, dtype=torch.float64):
    """Time series number `e` of channel `ch`."""
    n = noise((T,), torch.float64, ("zoo", ch, T, min(e, 3)))
    t = torch.arange(T, dtype=torch.float64)
    if e == 0:
        x = n
    elif e == 1:
        x = 1e3 * n + 40
    elif e == 2:
        x = 1e-3 * n
        x[T // 3] += 2.0
    elif e == 3:
        x = 0.3 * n + t / T + torch.sin(t / 3)
    elif e == 4:
        x = n.clone()
        x[T // 2] = math.nan
        x[T // 5] = math.inf
    elif e == 5:
        x = torch.zeros(T, dtype=torch.float64)
    else:
        x = 1e36 * n
    return x.to(dtype)


def many(e, chans, T, dtype):
    return torch.stack([series(e, c, T, dtype) for c in chans])


def spectrum(e, ch, F, dtype=torch.float64):
    return unif((F,), 0.5, 2.0, torch.float64, ("psd", ch, F, e)).to(dtype)


@dataclass
class Item:
    name: str
    build: Callable                  # chans -> object
    data: Callable                   # (element, chans, dtype, size) -> dict of per-element tensors
    run: Callable = None             # (object, batched dict, **overrides) -> output
    chan: bool = False               # channels independent: output channel dim directly after batch dim
    chans: tuple = (0, 1)
    bdim: int = 0                    # batch dim of the outputs
    batch: bool = True
    sizes: tuple = (None,)           # alternative input sizes for histories
    overrides: tuple = ({},)         # alternative call keywords for histories
    dtypes: tuple = (torch.float64, torch.float32)
    tol: dict = field(default_factory=lambda: {torch.float64: 1e-9, torch.float32: 1e-4})
    module: bool = True
    cast: bool = False               # the object itself must be moved to the dtype
    poison: bool = True
    group: str = ""
    meta: bool = True

    def __post_init__(self):
        if self.run is None:
            self.run = lambda o, d, **kw: o(*d.values(), **kw)

    def obj(self, dtype=torch.float64, chans=None):
        torch.manual_seed(7)
        o = self.build(chans or self.chans)
        if self.cast:
            o = o.to(dtype)
        return o

    def batch_of(self, es, dtype, chans=None, size=None):
        els = [self.data(e, chans or self.chans, dtype, size or self.sizes[0]) for e in es]
        return {k: torch.stack([x[k] for x in els]) for k in els[0]}


def out_list(o):
    if isinstance(o, torch.Tensor):
        return [o]
    if isinstance(o, dict):
        return [o[k] for k in sorted(o)]
    return [t for x in o for t in out_list(x)]


# physical parameter rows, one per content
PAR = dict(
    chirp_mass=(25.0, 9.0, 60.0, 1.6), mass_ratio=(0.5, 0.95, 0.2, 0.8), chi1=(0.3, 0.0, -0.7, 0.1),
    chi2=(-0.2, 0.0, 0.9, 0.0), distance=(100.0, 800.0, 40.0, 2000.0), phic=(0.3, 0.0, 4.0, 2.0),
    inclination=(0.6, 0.0, 2.5, 1.4), s1x=(0.3, 0.0, 0.1, 0.0), s1y=(0.1, 0.0, -0.4, 0.0), s1z=(0.3, 0.0, -0.7, 0.1),
    s2x=(0.0, 0.0, 0.2, 0.1), s2y=(0.2, 0.0, 0.0, 0.0), s2z=(-0.2, 0.0, 0.9, 0.0), dec=(0.4, -1.2, 0.0, 1.0),
    psi=(0.2, 1.0, 2.0, 3.0), phi=(0.5, -2.0, 3.0, 6.0), frequency=(60.0, 200.0, 33.0, 100.0),
    quality=(5.0, 20.0, 80.0, 3.0), hrss=(1e-21, 3e-20, 1e-22, 1e-21), phase=(0.0, 1.0, 3.0, 6.0),
    eccentricity=(0.0, 0.5, 0.99, 0.2), epsilon=(1e-3, 1e-2, 1e-6, 1e-4), mass_1=(40.0, 11.0, 90.0, 1.9),
    mass_2=(20.0, 10.0, 50.0, 1.7), theta_jn=(0.4, 1.2, 2.8, 0.0), phi_jl=(0.3, 5.0, 1.0, 2.0),
    tilt_1=(0.5, 0.0, 2.0, 1.0), tilt_2=(1.5, 0.0, 0.2, 1.0), phi_12=(0.1, 3.0, 5.0, 2.0),
    a_1=(0.5, 0.0, 0.9, 0.3), a_2=(0.2, 0.0, 0.7, 0.6), target=(8.0, 20.0, 100.0, 1.0), f_min=(20.0, 10.0, 35.0, 60.0),
    t_chirp=(1.0, 8.0, 0.3, 40.0))


def par(*names):
    def data(e, chans, dtype, size):
        return {n: torch.tensor(PAR[n][e % 4] if e < 4 else math.nan, dtype=dtype) for n in names}
    return data


def ts(T0, name="X"):
    def data(e, chans, dtype, size):
        return {name: many(e, chans, size or T0, dtype)}
    return data


def items():
    from ml4gw import distributions as D
    from ml4gw import gw, spectral
    from ml4gw import transforms as tf
    from ml4gw import waveforms as wf
    from ml4gw.nn.autoencoder import AddSkipConnect, ConcatSkipConnect, ConvolutionalAutoencoder
    from ml4gw.nn.norm import GroupNorm1D
    from ml4gw.nn.resnet import ResNet1D, ResNet2D
    from ml4gw.nn.resnet.resnet_1d import BottleneckResNet1D
    from ml4gw.nn.resnet.resnet_2d import BottleneckResNet2D
    from ml4gw.nn.ssm.s4d import S4D, S4Model
    from ml4gw.transforms.qtransform import QTile
    from ml4gw.utils.slicing import slice_kernels, unfold_windows
    from ml4gw.waveforms import conversion
    from ml4gw.waveforms.cbc import utils
    from ml4gw.waveforms.generator import TimeDomainCBCWaveformGenerator

    out = []

    def add(*a, **k):
        out.append(Item(*a, **k))

    f64 = torch.float64
    # -- spectral -----------------------------------------------------------
    for avg in ("mean", "median"):
        for fast in (False, True):
            add(f"SpectralDensity({avg},{'fast' if fast else 'full'})",
                lambda c, avg=avg, fast=fast: tf.SpectralDensity(64, 1.0, average=avg, fast=fast),
                ts(256), chan=True, chans=(0, 1, 2), sizes=(256, 300, 64), group="spectral")

    def csd_data(e, chans, dtype, size):
        return dict(x=many(e, chans, size, dtype), y=many((e + 1) % 4 if e < 4 else e, [c + 5 for c in chans], size, dtype))

    add("SpectralDensity(cross)", lambda c: tf.SpectralDensity(64, 1.0, fast=True), csd_data,
        chan=True, chans=(0, 1, 2), sizes=(256, 300), group="spectral")

    add("SpectralDensity(cross one)", lambda c: tf.SpectralDensity(64, 1.0, fast=True),
        lambda e, chans, dtype, size: dict(x=many(e, chans, size, dtype), y=series((e + 1) % 4 if e < 4 else e, 5, size, dtype)),
        chan=True, chans=(0, 1, 2), sizes=(256, 300), group="spectral")

    def whiten_data(e, chans, dtype, size):
        return dict(X=many(e, chans, size, dtype),
                    psd=torch.stack([spectrum(e % 4, c, 129, dtype) for c in chans]))

    add("Whiten", lambda c: tf.Whiten(0.5, 64, highpass=4), whiten_data, chan=True, chans=(0, 1, 2), sizes=(256, 320),
        overrides=({}, dict(crop=False)), group="spectral", poison=True)

    def fixed(chans):
        m = tf.FixedWhiten(len(chans), 4, 64)
        m.fit(1.0, *[series(0, c, 1024, f64) * (1 + c) for c in chans], fftlength=2, overlap=1)
        return m

    add("FixedWhiten", fixed, ts(256), chan=True, chans=(0, 1, 2), overrides=({}, dict(crop=False)), cast=True,
        dtypes=(f64,), group="spectral")

    def rescale(chans):
        m = tf.SnrRescaler(len(chans), 64, 4.0, dtype=f64)
        m.fit(*[series(0, c, 1024, f64) * (1 + c) for c in chans], fftlength=2, overlap=1)
        return m

    def snr_data(e, chans, dtype, size):
        return dict(responses=many(e, chans, 256, dtype), target=torch.tensor(PAR["target"][e % 4], dtype=dtype))

    add("SnrRescaler", rescale, snr_data, cast=True, dtypes=(f64,), group="spectral")

    def scaler(chans):
        m = tf.ChannelWiseScaler(len(chans))
        m.fit(torch.stack([series(3, c, 512, f64) * (1 + c) + c for c in chans]))
        return m

    add("ChannelWiseScaler", scaler, ts(64), chan=True, chans=(0, 1, 2), sizes=(64, 7), cast=True,
        overrides=({}, dict(reverse=True)), group="spectral")
    add("whiten", lambda c: spectral.whiten, whiten_data, chan=True, chans=(0, 1, 2), module=False, sizes=(256, 320),
        run=lambda o, d, **k: o(d["X"], d["psd"], 0.5, 64, **k), overrides=({}, dict(crop=False), dict(lowpass=20)),
        group="spectral")
    for nm, shp in (("row", ()), ("block", (1,))):
        # one spectrum (set) shared by the batch
        add(f"Whiten(shared {nm})", lambda c: tf.Whiten(0.5, 64), ts(256), chans=(0, 1, 2), group="spectral",
            run=lambda o, d, shp=shp, **k: o(d["X"], (torch.stack(
                [spectrum(1, c, 129, torch.float64) for c in range(3)]) if shp else spectrum(1, 0, 129)).to(d["X"].device), **k),
            overrides=({}, dict(crop=False)))
    add("spectral_density", lambda c: spectral.spectral_density, ts(256), chan=True, chans=(0, 1, 2), module=False,
        run=lambda o, d, **k: o(d["X"], 64, 32, torch.hann_window(64).to(d["X"]), 2.0, **k), sizes=(256, 300),
        overrides=({}, dict(average="mean")), group="spectral")
    add("fast_spectral_density", lambda c: spectral.fast_spectral_density, ts(256), chan=True, chans=(0, 1, 2),
        run=lambda o, d, **k: o(d["X"], 64, 32, torch.hann_window(64).to(d["X"]), 2.0, **k), sizes=(256, 300),
        overrides=({}, dict(average="mean")), group="spectral", module=False)
    add("normalize_by_psd", lambda c: spectral.normalize_by_psd, whiten_data, chan=True, chans=(0, 1, 2), module=False,
        run=lambda o, d, **k: o(d["X"], d["psd"], 64, 8, **k), sizes=(256,), overrides=({}, dict(crop=False)),
        group="spectral")
    add("truncate_inverse_power_spectrum", lambda c: spectral.truncate_inverse_power_spectrum,
        lambda e, chans, dtype, size: dict(psd=torch.stack([spectrum(e % 4, c, 129, dtype) for c in chans])),
        chan=True, chans=(0, 1, 2), module=False, run=lambda o, d, **k: o(d["psd"], 0.5, 64, **k),
        overrides=({}, dict(highpass=4), dict(lowpass=20)), group="spectral", poison=False)
    add("median", lambda c: spectral.median, ts(33), chan=True, chans=(0, 1, 2), module=False,
        run=lambda o, d, **k: o(d["X"], -1), sizes=(33, 40), group="spectral")

    # -- Q, spectrogram, splines ---------------------------------------------
    for norm in ("median", "mean", None):
        add(f"SingleQTransform({norm})", lambda c: tf.SingleQTransform(2.0, 128, [16, 32], 12.0, [8.0, 48.0]),
            ts(256), chan=True, run=lambda o, d, norm=norm, **k: o(d["X"], norm=norm), cast=True, chans=(0, 1),
            group="image", tol={f64: 1e-7, torch.float32: 1e-3})
    add("SingleQTransform(bilinear)",
        lambda c: tf.SingleQTransform(2.0, 128, [16, 32], 12.0, [8.0, 48.0], interpolation_method="bilinear"),
        ts(256), chan=True, cast=True, group="image", tol={f64: 1e-7, torch.float32: 1e-3}, overrides=({}, dict(norm="mean")))
    add("SingleQTransform(spline)",
        lambda c: tf.SingleQTransform(2.0, 128, [16, 32], 12.0, [8.0, 48.0], interpolation_method="spline"),
        ts(256), chan=True, cast=True, group="image", dtypes=(torch.float32,), tol={torch.float32: 1e-3}, meta=False)
    add("QTile", lambda c: QTile(12.0, 20.0, 2.0, 128, 0.2), lambda e, chans, dtype, size: dict(
        fseries=torch.fft.rfft(many(e, chans, 256, dtype))), cast=True, chan=True, group="image",
        tol={f64: 1e-7, torch.float32: 1e-3})
    # one plane is chosen for the whole batch, so only histories apply (P23 decides the choice)
    add("QScan", lambda c: tf.QScan(2.0, 128, [16, 32], [4.0, 16.0], frange=[8.0, 48.0]), ts(256), chan=False, cast=True,
        batch=False, group="image", tol={f64: 1e-7, torch.float32: 1e-3})
    add("MultiResolutionSpectrogram", lambda c: tf.MultiResolutionSpectrogram(2.0, 128, n_fft=[32, 64]), ts(256),
        chan=True, cast=True, group="image")
    add("SplineInterpolate1D", lambda c: tf.SplineInterpolate1D(torch.arange(12.0), x_out=torch.linspace(0, 11, 20)),
        ts(12), chan=True, cast=True, group="image", dtypes=(torch.float32, f64), bdim=1,
        overrides=({}, dict(x_out=torch.linspace(1, 9, 5))), tol={f64: 1e-7, torch.float32: 2e-3},
        run=lambda o, d, **k: o(d["X"], **{n: v.to(d["X"]) for n, v in k.items()}))
    add("SplineInterpolate2D",
        lambda c: tf.SplineInterpolate2D(torch.arange(8.0), torch.arange(9.0), x_out=torch.linspace(0, 7, 10),
                                         y_out=torch.linspace(0, 8, 11)),
        lambda e, chans, dtype, size: dict(Z=many(e, chans, 72, dtype).reshape(len(chans), 9, 8)), chan=True, cast=True,
        overrides=({}, dict(x_out=torch.linspace(1, 6, 5)), dict(y_out=torch.linspace(1, 6, 4))), group="image",
        run=lambda o, d, **k: o(d["Z"], **{n: v.to(d["Z"]) for n, v in k.items()}),
        tol={f64: 1e-7, torch.float32: 2e-3})

    # -- streaming of rows ----------------------------------------------------
    def row(e, chans, dtype, size):
        return dict(x=series(e, 0, size or 64, dtype))

    def xy(e, chans, dtype, size):
        return dict(x=many(e, chans, size, dtype), y=many((e + 1) % 4 if e < 4 else 4, [c + 5 for c in chans], size, dtype))

    add("ShiftedPearsonCorrelation", lambda c: tf.ShiftedPearsonCorrelation(3), xy, chan=True, bdim=1, sizes=(32, 45),
        group="series")
    add("Decimator", lambda c: tf.Decimator(64, torch.tensor([[0, 2, 16], [2, 4, 64]])), ts(256), chan=True,
        group="series")
    add("Decimator(split)", lambda c: tf.Decimator(64, torch.tensor([[0, 2, 16], [2, 4, 64]]), split=True), ts(256),
        chan=True, group="series")
    add("Heterodyne", lambda c: tf.Heterodyne(64, 4.0, torch.tensor([1.2, 20.0]), "both"), ts(256), chan=True,
        group="series")
    add("IIRFilter", lambda c: tf.IIRFilter(4, [4, 20], fs=64), ts(256), chan=True, sizes=(256, 31), cast=True,
        group="series", tol={f64: 1e-9, torch.float32: 1e-3})
    add("TophatIntegrator", lambda c: tf.TophatIntegrator(8, 2), row, sizes=(64, 33), cast=True, group="series")
    add("LeakyIntegrator(count)", lambda c: tf.LeakyIntegrator(0.4, 0.5, -1.0, "count"), row, sizes=(64, 33), group="series")
    add("LeakyIntegrator(score)", lambda c: tf.LeakyIntegrator(0.4, 0.5, 0.0, "score"), row, sizes=(64, 33), group="series")
    add("unfold_windows", lambda c: unfold_windows, ts(64), chan=True, bdim=1, module=False, sizes=(64, 33),
        run=lambda o, d, **k: o(d["X"], 8, 3, **k), overrides=({}, dict(drop_last=False)), group="series")

    # -- projection and SNR -----------------------------------------------------
    T = 256

    def proj(e, chans, dtype, size):
        d = par("dec", "psi", "phi")(e % 4, chans, dtype, size)
        d["plus"], d["cross"] = series(e, 0, T, dtype), series(e, 1, T, dtype)
        return d

    add("WaveformProjector", lambda c: tf.WaveformProjector(["H1", "L1", "V1"], 512), proj, cast=True, group="gw",
        run=lambda o, d, **k: o(d["dec"], d["psi"], d["phi"], plus=d["plus"], cross=d["cross"]))

    def geo(like):
        return [x.to(like) for x in gw.get_ifo_geometry("H1", "L1", "V1")]

    add("compute_observed_strain", lambda c: gw.compute_observed_strain, proj, module=False, group="gw",
        run=lambda o, d, **k: o(d["dec"], d["psi"], d["phi"], *geo(d["plus"]), 512, plus=d["plus"], cross=d["cross"]))
    add("compute_antenna_responses", lambda c: gw.compute_antenna_responses, par("dec", "psi", "phi"), module=False,
        run=lambda o, d, **k: o(d["dec"], d["psi"], d["phi"], geo(d["dec"])[0], k.get("modes", ["plus", "cross"])),
        overrides=({}, dict(modes=["cross", "breathing"])), group="gw")
    add("shift_responses", lambda c: gw.shift_responses,
        lambda e, chans, dtype, size: dict(r=many(e, (0, 1, 2), 64, dtype), **par("dec", "phi")(e % 4, chans, dtype, size)),
        module=False, run=lambda o, d, **k: o(d["r"], d["dec"], d["phi"], geo(d["r"])[1], 512), group="gw")
    psd1 = torch.stack([spectrum(0, c, 129) for c in range(3)])
    for fn in ("compute_ifo_snr", "compute_network_snr"):
        add(fn, lambda c, fn=fn: getattr(gw, fn), ts(256, "responses"), module=False, chan=fn == "compute_ifo_snr",
            chans=(0, 1, 2), run=lambda o, d, psd=psd1[:1], **k: o(d["responses"], psd.to(d["responses"]), 64, **k),
            overrides=({}, dict(highpass=8.0), dict(highpass=4.0, lowpass=20.0), dict(psd=psd1[1:2]), dict(highpass=8.0, psd=psd1[1:2])),
            group="gw")
    add("reweight_snrs", lambda c: gw.reweight_snrs, snr_data, module=False, chans=(0, 1, 2),
        run=lambda o, d, psd=psd1, **k: o(d["responses"], d["target"], psd.to(d["responses"]), 64, **k),
        overrides=({}, dict(highpass=8.0), dict(psd=psd1.flip(1))), group="gw")

    # -- waveforms ------------------------------------------------------------------
    big = {f64: 1e-9, torch.float32: 1e-2}
    add("SineGaussian", lambda c: wf.SineGaussian(256, 1.0), par("quality", "frequency", "hrss", "phase", "eccentricity"),
        cast=True, group="waveforms", tol=big)
    add("Ringdown", lambda c: wf.Ringdown(256, 1.0),
        par("frequency", "quality", "epsilon", "phase", "inclination", "distance"), cast=True, group="waveforms", tol=big)
    fd = {0: torch.arange(20.0, 200.0, 4.0, dtype=f64), 1: torch.arange(30.0, 90.0, dtype=f64)}
    fd[2] = fd[0] + (torch.arange(45) % 44 > 0) * 1.5  # the same ends and length
    al = par("chirp_mass", "mass_ratio", "chi1", "chi2", "distance", "phic", "inclination")
    pr = par("chirp_mass", "mass_ratio", "s1x", "s1y", "s1z", "s2x", "s2y", "s2z", "distance", "phic", "inclination")
    for nm, cls, dat in (("TaylorF2", wf.TaylorF2, al), ("IMRPhenomD", wf.IMRPhenomD, al), ("IMRPhenomPv2", wf.IMRPhenomPv2, pr)):
        add(nm, lambda c, cls=cls: cls(), dat, group="waveforms", tol=big, dtypes=(f64,), poison=nm != "IMRPhenomPv2",
            run=lambda o, d, f=0, f_ref=20.0, **k: o(fd[f].to(d["distance"]), *d.values(), f_ref),
            overrides=({}, dict(f=1), dict(f_ref=50.0), dict(f=2)))
    gen_par = par("chirp_mass", "mass_ratio", "mass_1", "mass_2", "chi1", "chi2", "s1z", "s2z", "distance", "phic", "inclination")

    def generator(c):
        return TimeDomainCBCWaveformGenerator(wf.IMRPhenomD(), 256, 2.0, 30.0, 30.0, 0.3)

    # the frequency grid is shared by the batch, so only histories apply (P27 decides the batch)
    add("TimeDomainCBCWaveformGenerator", generator, lambda e, *a: gen_par((0, 2, 0, 2)[e % 4], *a), batch=False,
        run=lambda o, d, **k: o(**d), dtypes=(f64,), group="waveforms")
    add("chirp_mass_and_mass_ratio_to_components", lambda c: conversion.chirp_mass_and_mass_ratio_to_components,
        par("chirp_mass", "mass_ratio"), module=False, group="waveforms")
    add("bilby_spins_to_lalsim", lambda c: conversion.bilby_spins_to_lalsim,
        par("theta_jn", "phi_jl", "tilt_1", "tilt_2", "phi_12", "a_1", "a_2", "mass_1", "mass_2", "phase"), module=False,
        run=lambda o, d, f_ref=20.0, **k: o(*list(d.values())[:9], f_ref, d["phase"]), overrides=({}, dict(f_ref=50.0)),
        group="waveforms", tol={f64: 1e-6, torch.float32: 2e-2})

    def cbc(fn, *names):
        add(fn, lambda c: getattr(utils, fn), par(*names), module=False, group="waveforms", tol={f64: 1e-9, torch.float32: 1e-3})

    cbc("chirp_time_bound", "f_min", "mass_1", "mass_2", "s1z", "s2z")
    cbc("chirp_start_frequency_bound", "t_chirp", "mass_1", "mass_2")
    cbc("final_black_hole_spin_bound", "s1z", "s2z")
    cbc("merge_time_bound", "mass_1", "mass_2")
    cbc("ringdown_time_bound", "mass_1", "s1z")
    cbc("frequency_isco", "mass_1", "mass_2")

    # -- distributions --------------------------------------------------------------------
    def val(*xs):
        return lambda e, chans, dtype, size: dict(x=torch.tensor(xs[e % 4], dtype=dtype))

    for nm, mk, xs in (
            ("Cosine", lambda: D.Cosine(), (0.3, -1.2, 0.0, 1.5)),
            ("Sine", lambda: D.Sine(), (0.3, 1.2, 3.0, 1.5)),
            ("LogUniform", lambda: D.LogUniform(1.0, 100.0), (1.5, 30.0, 99.0, 2.0)),
            ("PowerLaw", lambda: D.PowerLaw(1.0, 100.0, -2.0), (1.5, 30.0, 99.0, 2.0)),
            ("UniformComovingVolume", lambda: D.UniformComovingVolume(0.0, 2.0), (0.1, 1.9, 1.0, 0.001)),
            ("RateEvolution", lambda: D.RateEvolution(lambda z: 1 / (1 + z), 0.0, 2.0), (0.1, 1.9, 1.0, 0.001))):
        add(f"{nm}.log_prob", lambda c, mk=mk: mk(), val(*xs), module=False, poison=False, group="waveforms",
            run=lambda o, d, **k: o.log_prob(d["x"]), tol={f64: 1e-4, torch.float32: 1e-3})
    add("slice_kernels", lambda c: slice_kernels,
        lambda e, chans, dtype, size: dict(x=many(e, chans, 64, dtype), i=torch.tensor((0, 7, 56, 33, 3, 1, 2)[e])),
        module=False, group="series", chan=True, run=lambda o, d, **k: o(d["x"], d["i"], 8))

    # -- networks -------------------------------------------------------------------------
    net = {f64: 1e-8, torch.float32: 1e-3}

    def ev(m):
        return m.eval()

    add("GroupNorm1D", lambda c: GroupNorm1D(2, 2), ts(32), cast=True, sizes=(32, 7), group="nn", tol=net)
    add("GroupNorm1D(groups)", lambda c: GroupNorm1D(len(c), 3), ts(32), chans=(0, 1, 2, 1, 0, 2), cast=True, sizes=(32, 7),
        group="nn", tol=net)
    add("ResNet1D", lambda c: ResNet1D(2, [1, 1], 3, kernel_size=3), ts(32), cast=True, sizes=(32, 45), group="nn", tol=net)
    add("BottleneckResNet1D", lambda c: BottleneckResNet1D(2, [1, 1], 3), ts(32), cast=True, sizes=(32, 45), group="nn",
        tol=net)
    add("ResNet1D(batchnorm,eval)", lambda c: ev(ResNet1D(2, [1, 1], 3, norm_layer=torch.nn.BatchNorm1d)), ts(32),
        cast=True, sizes=(32, 45), group="nn", tol=net)

    def img(e, chans, dtype, size):
        n = size or 16
        return dict(X=many(e, chans, n * n, dtype).reshape(len(chans), n, n))

    add("ResNet2D", lambda c: ResNet2D(2, [1, 1], 3, kernel_size=3), img, cast=True, sizes=(16, 21), group="nn", tol=net)
    add("BottleneckResNet2D", lambda c: BottleneckResNet2D(2, [1, 1], 3), img, cast=True, sizes=(16, 21), group="nn", tol=net)
    for sk, lab in ((None, "none"), (AddSkipConnect, "add"), (ConcatSkipConnect, "concat")):
        add(f"ConvolutionalAutoencoder({lab},eval)",
            lambda c, sk=sk: ev(ConvolutionalAutoencoder(2, [4, 8], 3, stride=2, skip_connection=sk and sk())),
            ts(32), cast=True, sizes=(32, 31), group="nn", tol=net)
    add("ConvolutionalAutoencoder(GroupNorm)",
        lambda c: ConvolutionalAutoencoder(2, [4, 8], 3, norm=GroupNorm1D, output_activation=torch.nn.Tanh),
        ts(32), cast=True, sizes=(32, 33), group="nn", tol=net)
    add("S4D", lambda c: ev(S4D(2, 8)), ts(32), cast=True, sizes=(32, 33), group="nn", tol=net,
        dtypes=(torch.float32,))
    add("S4Model", lambda c: ev(S4Model(3, 2, 4, 8, 2)),
        lambda e, chans, dtype, size: dict(X=many(e, (0, 1, 2), size or 32, dtype)), cast=True,
        sizes=(32, 33), group="nn", tol=net, dtypes=(torch.float32,))
    return out
