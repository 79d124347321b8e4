"""What every property's check runs on the components it is about, besides its own cells.

A wrong result is a wrong result whether a single call, an earlier call, a neighbour in the batch or another object of
the process brought it about.  So each check also runs, on its own components, the differently configured objects of
P36, the call histories of P10 (pairs and returns to the first call) and the batch compositions of P09 (pairs, as many as any other size, large), and changes of its parameters (P11).
"""
from __future__ import annotations

import torch

ITEMS = {
    "P13": ("SpectralDensity", "spectral_density", "fast_spectral_density", "median"),
    "P12": ("Whiten", "FixedWhiten", "whiten", "normalize_by_psd", "truncate_inverse_power_spectrum"),
    "P14": ("SnrRescaler", "compute_ifo_snr", "compute_network_snr", "reweight_snrs"),
    "P08": ("ChannelWiseScaler",),
    "P23": ("SingleQTransform", "QTile", "QScan"),
    "P24": ("MultiResolutionSpectrogram",),
    "P20": ("SplineInterpolate1D", "SplineInterpolate2D"),
    "P19": ("ShiftedPearsonCorrelation",),
    "P17": ("Decimator",),
    "P21": ("Heterodyne",),
    "P22": ("IIRFilter",),
    "P18": ("TophatIntegrator", "LeakyIntegrator"),
    "P03": ("unfold_windows", "slice_kernels"),
    "P15": ("WaveformProjector", "compute_observed_strain", "compute_antenna_responses", "shift_responses"),
    "P30": ("SineGaussian", "Ringdown"),
    "P28": ("TaylorF2", "IMRPhenomD", "IMRPhenomPv2"),
    "P27": ("TimeDomainCBCWaveformGenerator", "chirp_time_bound", "chirp_start_frequency_bound", "merge_time_bound",
            "final_black_hole_spin_bound", "ringdown_time_bound", "frequency_isco"),
    "P29": ("chirp_mass_and_mass_ratio_to_components", "bilby_spins_to_lalsim"),
    "P25": ("Cosine.log_prob", "Sine.log_prob", "LogUniform.log_prob", "PowerLaw.log_prob", "UniformComovingVolume.log_prob",
            "RateEvolution.log_prob"),
    "P31": ("GroupNorm1D", "ResNet1D", "BottleneckResNet1D", "ResNet2D", "BottleneckResNet2D"),
    "P32": ("S4D", "S4Model"),
    "P33": ("ConvolutionalAutoencoder",),
}
FITTED = ("FixedWhiten", "SnrRescaler", "ChannelWiseScaler")
NOTE = ("; on the components the property is about also: every ordered pair of differing configurations in one process, "
        "call histories of length <= 3 that repeat, overwrite or re-lay their arguments or contain refused calls, batch pairs and batches of 33 and of every size that occurs in the data; saved states loaded into used objects")
FAMILIES = {f"P{i:02d}" for i in (1, 2, 4, 5, 6, 16, 26)}  # those with configurations but no entry above


def cells(pid, tier):
    if pid not in ITEMS and pid not in FAMILIES:
        return []
    from checks import p11
    from checks.p09 import zoo
    from checks.p36 import fams

    out = []
    for f in fams():
        if f.pid == pid:
            parts = 1 + len(f.cfgs) // 7
            out += [dict(common="variants", name=f.name, part=i, parts=parts) for i in range(parts)]
    for n, it in zoo().items():
        if n.split("(")[0] not in ITEMS.get(pid, ()):
            continue
        for d in it.dtypes:
            dt = str(d).removeprefix("torch.")
            if it.batch:
                out.append(dict(common="batch", item=n, dtype=dt))
            if it.module and (it.group == "nn" or n in FITTED):
                out += [dict(common="reload", item=n, dtype=dt, first=op) for op in ("perturb", "refit", "call")
                        if op in p11.ops_of(it)]
            if it.cast or d == it.dtypes[0]:
                out += [dict(common="history", item=n, dtype=dt, mode=mode) for mode in ("keep", "overwrite", "layout", "errors", "alike")]
    return out


def run_cell(cell, ctx):
    from checks import p09, p10, p11, p36

    if cell["common"] == "variants":
        p36.run_family({f.name: f for f in p36.fams()}[cell["name"]], ctx, cell["part"], cell["parts"])
    elif cell["common"] == "reload":
        p11.run_cell(cell, ctx)
    elif cell["common"] == "batch":
        p09.part_batch(ctx, p09.zoo()[cell["item"]], getattr(torch, cell["dtype"]), "quick", short=True)
    else:
        k = len(p10.menu(p09.zoo()[cell["item"]]))
        for first in range(k if cell["mode"] in ("keep", "overwrite") else 1):
            p10.run_cell(dict(cell, first=first), ctx, short=True)


def note(pid):
    return NOTE if pid in ITEMS or pid in FAMILIES else ""
