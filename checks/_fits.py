""" Fit configurations as plain cases, and the objects made of them. """
import collections
import math

import numpy
from hypothesis import strategies as st

from vlib.common import *  # noqa

KINDS = ["resolution", "scale", "shift"]


@st.composite
def fit_pars(draw, max_pars=3, min_pars=1, max_points=60, max_bins=6):
    """ Global parameters (grouped by dimension), then rates. """
    n = draw(st.integers(min_pars, max_pars))
    n_global = draw(st.integers(0, min(n, 3)))
    dims = draw(st.permutations(["energy_mc", "radial_mc", "energy_reco"]))
    keys = []
    while len(keys) < n_global:
        dim = dims[draw(st.integers(0, 2))]
        kind = draw(st.sampled_from(KINDS))
        if (dim, kind) not in keys:
            keys.append((dim, kind))
    first = []
    for dim, _ in keys:
        if dim not in first:
            first.append(dim)
    keys.sort(key=lambda k: first.index(k[0]))
    pars = [{"name": "%s_%s" % key, "dim": key[0], "kind": key[1]}
            for key in keys]
    names = draw(st.permutations(["B8_rate", "Tl208_rate", "2n2b_rate",
                                  "rate", "a_b_rate"]))
    for i in range(n - n_global):
        pars.append({"name": names[i], "dim": None, "kind": "rate"})
    points = 1
    for par in pars:
        par.update(draw(grid(max(1, min(max_bins, max_points // points)))))
        points *= par["bins"]
    return pars


@st.composite
def grid(draw, max_bins=6):
    bins = draw(st.integers(min(2, max_bins), max_bins))
    scale = draw(st.sampled_from(["linear", "linear", "logscale",
                                  "logscale_deviation"]))
    low = draw(positives(0.1, 20))
    high = low + draw(positives(0.5, 20))
    prior = 0.5 * (low + high)
    if scale == "logscale_deviation" and bins < 3:
        scale = "linear"
    return {"low": low, "high": high, "bins": bins, "scale": scale,
            "prior": prior, "sigma": draw(st.one_of(
                st.none(), positives(0.1, 10)))}


def make_par(par, name=None):
    from echidna.core import parameter as module
    args = [name or par["name"], par["prior"], par["sigma"], par["low"],
            par["high"], par["bins"]]
    kwargs = {}
    if par.get("scale", "linear") != "linear":
        kwargs[par["scale"]] = True
    if par["kind"] == "rate":
        return module.RateParameter(*args, **kwargs)
    return {"resolution": module.ResolutionParameter,
            "scale": module.ScaleParameter,
            "shift": module.ShiftParameter}[par["kind"]](
                *(args + [par["dim"]]), **kwargs)


def make_fit_config(pars, name="fit_config"):
    from echidna.core.config import GlobalFitConfig
    config = GlobalFitConfig(name, collections.OrderedDict())
    for par in pars:
        config.add_par(make_par(par), "spectra" if par["kind"] == "rate"
                       else "global")
    return config


def shape_of(pars):
    return tuple(par["bins"] for par in pars)


def points_of(pars):
    return list(numpy.ndindex(*shape_of(pars)))
