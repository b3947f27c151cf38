""" C10 - random smearing throws one entry per count from the resolution. """
import math

import numpy
from hypothesis import strategies as st
from scipy import stats

from checks.c09 import sigma_at, smearable, smearer
from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C10")


@st.composite
def throws(draw, entries, single):
    case = draw(smearable(single=single, max_bins=12))
    case["entries"] = entries
    case["seed"] = draw(st.integers(0, 2 ** 31 - 1))
    return case


def cdf(case, mean, x):
    """ (lower, upper) bounds of P(thrown value < x). """
    if x <= 0:
        return 0., 0.
    sigma = sigma_at(case, mean)
    if not case["kind"].endswith("poisson"):
        p = float(stats.norm.cdf((x - mean) / sigma) -
                  stats.norm.cdf((-x - mean) / sigma))
        return p, p
    light = case["resolution"] if case["kind"].startswith("ly") else \
        1. / case["resolution"] ** 2
    # photons / light < x
    return tuple(float(stats.poisson.cdf(
        math.ceil(x * light + e) - 1, mean * light)) for e in (-1e-6, 1e-6))


def judge(case, rec):
    spec = make_spectrum(case)
    data = numpy.array(case["data"], dtype=float).reshape(spec._data.shape)
    if data.sum():
        data = numpy.floor(data * (case["entries"] / data.sum()) + 0.999)
    put_data(spec, data)
    spec._raw_events = 17
    before = snapshot(spec)
    at = case["at"]
    ax = case["axes"][at]
    name, bins = ax["name"], ax["bins"]
    tool = smearer(case)
    numpy.random.seed(case["seed"])
    default = "radial_mc" if case["kind"] == "radial" else "energy_mc"
    result = tool.random_smear(spec) if name == default else \
        tool.random_smear(spec, par=name)
    after = snapshot(result)
    unchanged(rec, before, spec, "smearing")
    for key in ("axes", "num_decays", "raw_events", "bipo"):
        rec.check(after[key] == before[key], "smearing changed %s: %s -> %s",
                  key, before[key], after[key])
    new = after["data"]
    rec.check(new.shape == data.shape, "the shape changed")
    rec.check(bool((new == numpy.floor(new)).all()) and bool((new >= 0).all()),
              "contents are not whole numbers of entries: %s", new)
    rows = numpy.moveaxis(data, at, 0).reshape(bins, -1)
    found = numpy.moveaxis(new, at, 0).reshape(bins, -1)
    rec.check(bool((found.sum(axis=0) <= rows.sum(axis=0)).all()),
              "entries appeared: %s from %s", found.sum(axis=0),
              rows.sum(axis=0))
    borders = edges(ax)
    width = (ax["high"] - ax["low"]) / bins
    low = numpy.zeros((bins + 1, bins))
    high = numpy.zeros((bins + 1, bins))
    for b in range(bins):
        if rows[b].any():
            for e in range(bins + 1):
                low[e, b], high[e, b] = cdf(
                    case, ax["low"] + (b + 0.5) * width, borders[e])
    # counts in every range of bins [i, j) against their distribution
    cumulative = numpy.vstack([numpy.zeros(found.shape[1]),
                               numpy.cumsum(found, axis=0)])
    for i in range(bins):
        for j in range(i + 1, bins + 1):
            p_min = numpy.clip(low[j] - high[i], 0, 1)
            p_max = numpy.clip(high[j] - low[i], 0, 1)
            p_mid = 0.5 * (p_min + p_max)
            spread = 7. * numpy.sqrt((p_mid * (1 - p_mid)).dot(rows)) + 10.
            count = cumulative[j] - cumulative[i]
            bad = (count < p_min.dot(rows) - spread) | \
                (count > p_max.dot(rows) + spread)
            rec.check(not bad.any(), "bins %d to %d hold %s entries, expected "
                      "%s to %s (+- %s)", i, j, count, p_min.dot(rows),
                      p_max.dot(rows), spread)
    rec.label(case["kind"])
    rec.hit(abs(found - rows).sum() > 0.05 * rows.sum())


@prop.facet(throws(6000, True), quick=140, rule="more than 5% of the entries "
            "move")
def delta(case, rec):
    """ Entries of one bin follow the resolution. """
    judge(case, rec)


@prop.facet(throws(1500, False), quick=200, rule="more than 5% of the entries "
            "move")
def contents_thrown(case, rec):
    """ Entries of any spectrum follow the resolution of their bin. """
    judge(case, rec)
