"""Writes mc/signatures.json: argument order and default values of the public callables, as documented.

Run once against the tree the properties were read from; the checks only read the file.
"""
import importlib
import inspect
import json
import os

import torch

PUBLIC = {
    "ml4gw.transforms": "ChannelWiseScaler Decimator FixedWhiten Heterodyne IIRFilter LeakyIntegrator MultiResolutionSpectrogram QScan "
                        "ShiftedPearsonCorrelation SingleQTransform SnrRescaler SpectralDensity SplineInterpolate1D SplineInterpolate2D "
                        "TophatIntegrator WaveformProjector WaveformSampler Whiten",
    "ml4gw.transforms.qtransform": "QTile",
    "ml4gw.spectral": "median fast_spectral_density spectral_density truncate_inverse_power_spectrum normalize_by_psd whiten",
    "ml4gw.gw": "compute_antenna_responses shift_responses compute_observed_strain compute_ifo_snr compute_network_snr reweight_snrs",
    "ml4gw.utils.slicing": "unfold_windows slice_kernels sample_kernels",
    "ml4gw.distributions": "Cosine Sine LogUniform LogNormal PowerLaw DeltaFunction UniformComovingVolume RateEvolution",
    "ml4gw.augmentations": "SignalInverter SignalReverser",
    "ml4gw.dataloading": "InMemoryDataset ChunkedTimeSeriesDataset",
    "ml4gw.waveforms": "SineGaussian Ringdown TaylorF2 IMRPhenomD IMRPhenomPv2",
    "ml4gw.waveforms.generator": "TimeDomainCBCWaveformGenerator",
    "ml4gw.nn.norm": "GroupNorm1D",
    "ml4gw.nn.streaming": "OnlineAverager Snapshotter",
    "ml4gw.nn.resnet": "ResNet1D ResNet2D",
    "ml4gw.nn.resnet.resnet_1d": "BottleneckResNet1D",
    "ml4gw.nn.resnet.resnet_2d": "BottleneckResNet2D",
    "ml4gw.nn.ssm.s4d": "S4D S4Model",
    "ml4gw.nn.autoencoder": "ConvolutionalAutoencoder AddSkipConnect ConcatSkipConnect",
}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def table():
    out = {}
    for mod, names in PUBLIC.items():
        m = importlib.import_module(mod)
        for n in names.split():
            o = getattr(m, n)
            out[f"{mod}:{n}"] = rows(o)
            for meth in ("forward", "fit"):
                if inspect.isclass(o) and hasattr(o, meth) and getattr(o, meth) is not torch.nn.Module.forward:
                    out[f"{mod}:{n}.{meth}"] = rows(getattr(o, meth))[1:]
    return out


def rows(f):
    out = []
    for p in inspect.signature(f).parameters.values():
        d = p.default
        if d is p.empty:
            default = ["required"]
        elif d is None or isinstance(d, bool | int | float | str):
            default = ["value", d]
        else:
            default = ["other"]
        out.append([p.name, p.kind.name.split("_")[0] + ("_KW" if p.kind.name == "VAR_KEYWORD" else ""), default])
    return out


if __name__ == "__main__":
    with open(os.path.join(HERE, "mc", "signatures.json"), "w") as fh:
        fh.write("{\n" + ",\n".join(f"{json.dumps(k)}: {json.dumps(v)}" for k, v in table().items()) + "\n}\n")
