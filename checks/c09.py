""" C09 - weighted smearing spreads each bin by the detector resolution. """
import math

import numpy
from hypothesis import strategies as st

from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C09")

KINDS = ["ly", "ly_poisson", "res", "res_poisson", "radial"]


@st.composite
def smearable(draw, single=False, max_bins=14):
    """ A spectrum with a distinguished axis of positive energies/radii. """
    kind = draw(st.sampled_from(KINDS))
    name = draw(st.sampled_from(["radial_mc", "radial_reco"] if
                                kind == "radial" else
                                ["energy_mc", "energy_reco"]))
    exact = draw(st.booleans())
    bins = draw(st.integers(1, max_bins))
    if exact:
        width = draw(st.sampled_from([0.125, 0.25, 0.5, 1.]))
        low = draw(st.sampled_from([0., 0., 0.5, 1., 2.5]))
    else:
        width = draw(st.sampled_from([0.1, 0.05, 0.3, 0.07]))
        low = draw(st.sampled_from([0., 0., 0.1, 0.95, 2.2]))
    if kind == "radial":
        width, low = 128. * width, 128. * low
    ax = {"name": name, "low": low, "high": low + bins * width, "bins": bins}
    others = draw(axes(max_dims=2, min_dims=0, max_cells=6,
                       names=["time_mc", "radial3_reco", "other"]))
    at = draw(st.integers(0, len(others)))
    axs = others[:at] + [ax] + others[at:]
    n = cells_of(axs)
    if single:
        data = [0] * n
        data[draw(st.integers(0, n - 1))] = draw(st.integers(1, 255))
    else:
        data = draw(contents(n))
    return {"axes": axs, "data": data, "at": at, "kind": kind,
            "num_decays": draw(st.sampled_from([1., 100., 0.3])),
            "bipo": draw(st.integers(0, 1)),
            "unit": draw(st.sampled_from([1., 1., 2. ** -14])),
            # sigma of the axis centre in bins decides the resolution
            "resolution": draw(resolutions(kind, ax)),
            # what the smearer was used for before
            "used": draw(st.one_of(st.none(), st.tuples(
                resolutions(kind, ax), st.sampled_from([1., 0.5, 3.])))),
            "sigmas": draw(st.sampled_from([None, None, 0.5, 1., 2., 3., 5.,
                                            7.25]))}


@st.composite
def resolutions(draw, kind, ax):
    width = (ax["high"] - ax["low"]) / ax["bins"]
    middle = 0.5 * (ax["low"] + ax["high"])
    sigma = draw(st.sampled_from([0.1, 0.3, 0.7, 1., 2., 5.])) * width
    if kind == "radial":
        return round(sigma, 2)
    if kind.startswith("ly"):
        return float("%.3g" % (middle / sigma ** 2))
    return min(max(float("%.3g" % (sigma / math.sqrt(middle))), 0.002), 0.98)


def smearer(case):
    from echidna.core import smear
    kind = case["kind"]
    if kind == "radial":
        tool = smear.RadialSmear()
    else:
        # by default by Poisson
        kwargs = {} if kind.endswith("poisson") else {"poisson": False}
        tool = smear.EnergySmearLY(**kwargs) if kind.startswith("ly") else \
            smear.EnergySmearRes(**kwargs)
    tool.set_resolution(case["resolution"])
    if case["sigmas"] is not None:
        tool.set_num_sigma(case["sigmas"])
    return tool


def sigma_at(case, mean):
    if case["kind"] == "radial":
        return case["resolution"]
    if case["kind"].startswith("ly"):
        return math.sqrt(mean / case["resolution"])
    return case["resolution"] * math.sqrt(mean)


def kernel(case, b, ax):
    """ ([(share of each bin), ...] alternatives): what bin b becomes. """
    low, high, bins = ax["low"], ax["high"], ax["bins"]
    width = (high - low) / bins
    centres = [low + (i + 0.5) * width for i in range(bins)]
    mean = centres[b]
    sigma = sigma_at(case, mean)
    reach = (case["sigmas"] or 5.) * sigma / width
    # the bins whose centres are nearest to mean -+ n sigma
    firsts = sorted(set(int(math.floor(b - reach + 0.5 + e))
                        for e in (-1e-6, 1e-6)))
    lasts = sorted(set(int(math.floor(b + reach + 0.5 + e))
                       for e in (-1e-6, 1e-6)))
    logs = []
    for i in range(bins):
        if not case["kind"].endswith("poisson"):
            logs.append([-(centres[i] - mean) ** 2 / (2. * sigma ** 2)])
            continue
        light = case["resolution"] if case["kind"].startswith("ly") else \
            1. / case["resolution"] ** 2
        expected = mean * light
        photons = set(int(centres[i] * light + e) for e in
                      (-1e-6, 0., 1e-6) if centres[i] * light + e >= 0)
        logs.append(sorted(p * math.log(expected) - math.lgamma(p + 1.) -
                           expected for p in photons))
    result = []
    ambiguous = sum(len(l) > 1 for l in logs)
    if ambiguous:
        return None
    for first in firsts:
        for last in lasts:
            first_, last_ = max(first, 0), min(last, bins - 1)
            weights = [math.exp(logs[i][0]) if first_ <= i <= last_ else 0.
                       for i in range(bins)]
            total = sum(weights)
            if total <= 0:
                return None
            share = numpy.array(weights) / total
            if not any(numpy.allclose(share, r, atol=1e-12) for r in result):
                result.append(share)
    return result


def judge_smeared(case, rec, spec, before, after):
    at = case["at"]
    ax = case["axes"][at]
    bins = ax["bins"]
    new = after["data"]
    rec.check(new.shape == before["data"].shape, "the shape changed")
    rec.check(bool(numpy.isfinite(new).all()) and bool((new >= 0).all()),
              "contents are not finite or negative: %s", new)
    rec.check(after["axes"] == before["axes"], "smearing changed the axes")
    for key in ("num_decays", "raw_events", "bipo"):
        rec.check(after[key] == before[key], "smearing changed %s: %s -> %s",
                  key, before[key], after[key])
    rows = numpy.moveaxis(before["data"], at, 0).reshape(bins, -1)
    found = numpy.moveaxis(new, at, 0).reshape(bins, -1)
    scale = rows.max() if rows.any() else 1.
    expect_close(rec, found.sum(axis=0), rows.sum(axis=0),
                 "content over the other dimensions", rtol=1e-9,
                 atol=1e-9 * scale)
    expected = numpy.zeros(rows.shape)
    worst = numpy.zeros(rows.shape)
    for b in range(bins):
        if not rows[b].any():
            continue
        shares = kernel(case, b, ax)
        if shares is None:
            rec.label("photons ambiguous")
            return False
        expected += numpy.outer(shares[0], rows[b])
        for share in shares[1:]:
            worst += numpy.outer(abs(share - shares[0]), rows[b])
    rec.label("window ambiguous" if worst.any() else "exact")
    off = abs(found - expected) > worst + 1e-7 * scale
    rec.check(not off.any(), "smeared contents are %s, expected %s (+- %s)",
              found.tolist(), expected.tolist(), worst.max())
    return bool((abs(found - rows) > 0.01 * scale).any())


def run(case, rec):
    spec = make_spectrum(case)
    put_data(spec, spec.get_data() * case["unit"])
    spec._bipo = case["bipo"]
    spec._raw_events = 17
    before = snapshot(spec)
    name = case["axes"][case["at"]]["name"]
    tool = smearer(dict(case, resolution=case["used"][0]) if case["used"]
                   else case)
    if case["used"]:
        earlier = dict(case, axes=[dict(ax) for ax in case["axes"]])
        earlier["axes"][case["at"]]["high"] = case["axes"][case["at"]][
            "low"] + case["used"][1] * (case["axes"][case["at"]]["high"] -
                                        case["axes"][case["at"]]["low"])
        tool.weighted_smear(make_spectrum(earlier), par=name)
        tool.set_resolution(case["resolution"])
    default = "radial_mc" if case["kind"] == "radial" else "energy_mc"
    result = tool.weighted_smear(spec) if name == default else \
        tool.weighted_smear(spec, par=name)
    rec.check(result is not spec, "smearing returned its argument")
    rec.hit(judge_smeared(case, rec, spec, before, snapshot(result)))
    unchanged(rec, before, spec, "smearing")
    result.get_data()[...] = -5.
    result.get_config().get_par(name)._bins = 1
    unchanged(rec, before, spec, "changing the smeared spectrum")


@prop.facet(smearable(single=True), quick=1750, rule="a bin visibly spreads")
def delta(case, rec):
    """ One filled bin becomes a truncated gaussian (poisson). """
    rec.label(case["kind"])
    run(case, rec)


@prop.facet(smearable(max_bins=10), quick=1250, rule="some bin visibly "
            "changes")
def contents_smeared(case, rec):
    """ Any spectrum becomes the sum of what its bins become. """
    rec.label(case["kind"])
    run(case, rec)


@prop.facet(smearable(max_bins=4), quick=250, rule="always")
def unknown_dimension(case, rec):
    spec = make_spectrum(case)
    before = snapshot(spec)
    tool = smearer(case)
    rec.hit()
    for func in (tool.weighted_smear, tool.random_smear):
        raises(rec, IndexError, lambda: func(spec, par="no_such"),
               "smearing a dimension the spectrum does not have")
    unchanged(rec, before, spec, "a rejected smearing")


def sensible(value):
    """ No numbers whose squares or inverses overflow. """
    return value == 0. or abs(value) > 1e-6


SETTINGS = st.fixed_dictionaries({
    "kind": st.sampled_from(KINDS),
    "value": st.one_of(numbers(-2, 3).filter(sensible),
                       numbers(0.001, 0.999), numbers(1, 1000),
                       st.just(0.), st.just(1.)),
    "other": st.one_of(numbers(0.001, 0.999), numbers(1, 1000)),
    "energy": numbers(0., 20.), "sigmas": st.one_of(
        numbers(-5, 10).filter(sensible), st.just(0.))})


@prop.facet(SETTINGS, quick=1500, rule="the resolution is accepted")
def resolution(case, rec):
    """ Resolutions: validated, kept, and combined in quadrature. """
    from echidna.core import smear
    value, other, kind = case["value"], case["other"], case["kind"]
    tool = smearer(dict(case, resolution=0.5, sigmas=None))
    rec.check(tool.get_num_sigma() == 5., "default num_sigma is %s",
              tool.get_num_sigma())
    if case["sigmas"] > 0:
        tool.set_num_sigma(case["sigmas"])
        rec.check(tool.get_num_sigma() == case["sigmas"], "num_sigma")
        low, high = tool.get_bounds(3., 0.5)
        expect_close(rec, [low, high], [3. - 0.5 * case["sigmas"],
                                        3. + 0.5 * case["sigmas"]], "bounds")
    else:
        raises(rec, ValueError, lambda: tool.set_num_sigma(case["sigmas"]),
               "num_sigma of %s" % case["sigmas"])
        rec.check(tool.get_num_sigma() == 5., "a rejected num_sigma stuck")
    good = value > 0 and (value < 1 or not kind.startswith("res"))
    if not good:
        raises(rec, ValueError, lambda: tool.set_resolution(value),
               "a %s of %s" % (kind, value))
        rec.check(tool.get_resolution() == 0.5, "a rejected resolution stuck")
        return
    tool.set_resolution(value)
    rec.hit()
    rec.check(tool.get_resolution() == value, "resolution set to %s is %s",
              value, tool.get_resolution())
    if kind == "radial":
        expect_close(rec, tool.get_sigma(), value, "sigma")
    else:
        expect_close(rec, tool.get_sigma(case["energy"]),
                     sigma_at(dict(case, resolution=value), case["energy"]),
                     "sigma at %s" % case["energy"])
    combine = tool.calc_smear_ly if kind.startswith("ly") else \
        tool.calc_smear_resoluton
    for current, call in ((value, lambda: combine(other)),
                          (value, lambda: combine(other, value)),
                          (2. * value, lambda: combine(other, 2. * value))):
        if kind.startswith("ly"):
            if other > current:
                raises(rec, ValueError, call, "smearing to a better "
                       "resolution")
            elif other < current * (1 - 1e-6):
                # variances add: 1 / ly
                expect_close(rec, 1. / current + 1. / call(), 1. / other,
                             "combined variance", rtol=1e-6)
        elif other < current:
            raises(rec, ValueError, call, "smearing to a better resolution")
        elif other > current * (1 + 1e-6):
            expect_close(rec, current ** 2 + call() ** 2, other ** 2,
                         "combined variance", rtol=1e-6)
    rec.check(tool.get_resolution() == value, "calculating a resolution "
              "changed the set one")
