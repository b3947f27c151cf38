""" C16 - a fit compares the data with the sum of the convolved spectra. """
import collections
import itertools
import math

import numpy
from hypothesis import strategies as st

from checks._fits import grid, make_par
from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C16")

BASES = ["energy", "radial3", "time"]


# ---------------------------------------------------------------- the cases
@st.composite
def dimension(draw, name, in_roi):
    width = draw(st.sampled_from([0.25, 0.5, 1.]))
    return {"name": name, "low": draw(st.sampled_from([0.5, 1., 2., 4.])),
            "width": width, "bins": draw(st.sampled_from([1, 2, 3, 4, 4, 5, 6])),
            "roi": in_roi}


@st.composite
def member(draw, dims, names, factors=True, margins=True):
    """ Contents over the fitted ranges, with finer bins and margins. """
    axs = []
    for dim in dims:
        factor = draw(st.sampled_from(
            [1, 2, 4] if len(dims) < 3 else [1, 2])) if factors else 1
        width = dim["width"] / factor
        below, above = (draw(st.integers(0, 2)) if margins else 0
                        for _ in (0, 1))
        if dim["low"] > 0.:     # no negative energies
            below = min(below, int(dim["low"] / width))
        axs.append({"name": dim["name"] + "_" + names[dim["name"]],
                    "low": dim["low"] - below * width,
                    "high": dim["low"] + dim["bins"] * dim["width"] +
                    above * width,
                    "bins": below + above + factor * dim["bins"]})
    data = draw(st.lists(st.integers(0, 40), min_size=1, max_size=8))
    step = draw(st.integers(1, 50))
    return {"axes": axs, "data": [data[(i * step) % len(data)] + (i * step) % 5
                                  for i in range(cells_of(axs))],
            "num_decays": draw(st.sampled_from([1., 10., 250., 0.5]))}


@st.composite
def rate(draw):
    bins = draw(st.integers(1, 3))
    low = draw(st.sampled_from([0., 0., 1., 10.]))
    return {"kind": "rate", "name": "rate", "low": low,
            "high": low + draw(st.sampled_from([1., 20., 300.])),
            "bins": bins, "prior": draw(positives(0.5, 100)),
            "sigma": draw(st.one_of(st.none(), positives(0.5, 10)))}


@st.composite
def global_par(draw, dim, kind):
    middle = dim["low"] + 0.5 * dim["bins"] * dim["width"]
    if kind == "resolution":
        bins = draw(st.integers(1, 2))
        if draw(st.booleans()):
            low, high = 20., draw(st.sampled_from([50., 200.]))
        else:
            low, high = 0.05, draw(st.sampled_from([0.1, 0.2]))
    elif kind == "scale":
        bins, low, high = draw(st.sampled_from(
            [(1, 1.1, 1.2), (2, 1., 1.25), (3, 0.9, 1.1), (2, 0.8, 1.3)]))
    else:
        step = dim["width"]
        bins, low, high = draw(st.sampled_from(
            [(1, 0.3 * step, 0.6 * step), (2, 0., 0.7 * step),
             (3, -0.4 * step, 0.4 * step), (2, -step, 0.35 * step)]))
    # sometimes values which are close together
    high = low + (high - low) * draw(st.sampled_from([1., 1., 1e-2, 1e-4]))
    return {"kind": kind, "dim": dim["name"] + "_mc", "low": low,
            "name": dim["name"] + "_mc_" + kind, "high": high, "bins": bins,
            "prior": 0.5 * (low + high), "middle": middle,
            "sigma": draw(st.one_of(st.none(), positives(0.01, 10)))}


@st.composite
def fits(draw, need_floating=True, globals_=True, per_bin=False,
         max_dims=2, max_floating=3):
    n = draw(st.integers(1, max_dims))
    if max_dims == 2 and draw(st.integers(0, 7)) == 7:
        n = 3
    names = draw(st.permutations(BASES))[:n]
    chosen = draw(st.integers(1, 2 ** n - 1)) if not per_bin else 2 ** n - 1
    dims = [draw(dimension(name, bool(chosen >> i & 1)))
            for i, name in enumerate(names)]
    pars, keys = [], []
    if globals_ and draw(st.integers(0, 3)):
        for _ in range(draw(st.integers(1, 3))):
            # with three dimensions one is convolved
            dim = dims[draw(st.integers(0, n - 1)) if n < 3 else 1]
            kind = draw(st.sampled_from(["resolution", "scale", "shift"]))
            if (dim["name"], kind) not in keys:
                keys.append((dim["name"], kind))
                if kind != "resolution":    # interpolates with cubics
                    dim["bins"] = max(dim["bins"], 4)
                pars.append(draw(global_par(dim, kind)))
    convolved = set(par["dim"][:-3] for par in pars)
    for dim in dims:
        if dim["name"] in convolved:
            continue
        if n == 3:
            dim["bins"] = min(dim["bins"], 2)
        if draw(st.integers(0, 3)) == 3:    # ranges from below zero
            dim["low"] = -dim["width"] * draw(st.integers(1, 6))

    def kinds(mc):
        return {name: "mc" if name in convolved and mc else
                draw(st.sampled_from(["mc", "reco"])) for name in names}

    # data and fixed background: the binning compared, margins only where
    # the region of interest cuts them off
    def flat(types):
        case = draw(member(dims, types, factors=False, margins=True))
        return trim(case, [d for d in dims if not d["roi"]])

    data = flat(kinds(False))
    fixed_kinds = kinds(False)
    fixed = []
    if draw(st.booleans()):
        pattern = flat(fixed_kinds)
        for i in range(draw(st.integers(1, 3))):
            other = dict(pattern, data=[
                (d * (i + 1) + i) % 29 for d in pattern["data"]],
                num_decays=draw(st.sampled_from([1., 10., 250.])))
            fixed.append([other, draw(st.sampled_from([0., 5., 12.5]))])
    floating = []
    minimum = 1 if need_floating else 0
    for i in range(draw(st.integers(minimum, max_floating))
                   if need_floating else 0):
        floating.append({
            "spec": draw(member(dims, kinds(True))),
            "name": draw(st.sampled_from(["B8_mc", "Tl208_mc", "x"])),
            "rate": draw(st.one_of(rate(), rate(), st.none()))})
    if need_floating and not pars and not any(f["rate"] for f in floating):
        floating[0]["rate"] = draw(rate())
    if not need_floating and not fixed:
        fixed.append([flat(fixed_kinds), 7.])
    signal = None
    if draw(st.booleans()):
        signal = draw(member(dims, kinds(True))) if pars else \
            flat(kinds(False))
    return {"dims": dims, "globals": pars, "data": data, "fixed": fixed,
            "floating": floating, "signal": signal,
            "roi_swapped": draw(st.booleans()),
            # set one by one: the order, and whether they are shrunk before
            "one_by_one": draw(st.sampled_from([None, None, None] + [
                list(way) for way in itertools.product(range(4), (0, 1))])),
            "per_bin": per_bin, "single_bin": not per_bin and
            draw(st.integers(0, 3)) == 0}


def trim(case, dims):
    """ Cuts a case off at the edges of these dimensions. """
    cut = {"axes": [dict(ax) for ax in case["axes"]],
           "num_decays": case["num_decays"]}
    data = data_array(case)
    for i, ax in enumerate(cut["axes"]):
        for dim in dims:
            if ax["name"].rsplit("_", 1)[0] == dim["name"]:
                low, high = dim["low"], dim["low"] + dim["bins"] * dim["width"]
                width = (ax["high"] - ax["low"]) / ax["bins"]
                first = int(round((low - ax["low"]) / width))
                last = int(round((high - ax["low"]) / width))
                data = data[(slice(None),) * i + (slice(first, last),)]
                ax.update(low=low, high=high, bins=last - first)
    cut["data"] = [4. * x for x in data.ravel()]
    return cut


# ---------------------------------------------------------------- the model
def base(name):
    return name.rsplit("_", 1)[0]


def roi_of(case):
    return [d for d in case["dims"] if d["roi"]]


def projection(case, cut):
    """ Onto the dimensions of interest, rebinned like the data. """
    data = data_array(cut)
    for i, dim in enumerate(case["dims"]):
        shape = data.shape
        data = data.reshape(shape[:i] + (dim["bins"], -1) + shape[i + 1:])\
            .sum(axis=i + 1)
    return data.sum(axis=tuple(i for i, dim in enumerate(case["dims"])
                               if not dim["roi"]))


def convolve(case, cut, values):
    """ Puts a spectrum through the systematics, in their order. """
    from echidna.core import scale, shift, smear
    if not case["globals"]:
        return cut
    spec = make_spectrum(cut)
    for par, value in zip(case["globals"], values):
        if par["kind"] == "resolution":
            tool = smear.EnergySmearLY() if value > 10. else \
                smear.EnergySmearRes()
            tool.set_resolution(value)
            spec = tool.weighted_smear(spec, par["dim"])
        elif par["kind"] == "scale":
            tool = scale.Scale()
            tool.set_scale_factor(value)
            spec = tool.scale(spec, par["dim"])
        else:
            tool = shift.Shift()
            tool.set_shift(value)
            spec = tool.shift(spec, par["dim"])
    return dict(cut, data=[4. * x for x in spec._data.ravel()])


class Model(object):
    def __init__(self, case):
        self.parts = list(case["fixed"])    # of the fixed background
        self.decays = case["signal"] and case["signal"]["num_decays"]
        self.use(case)

    def use(self, case):
        """ Everything as in case, but for the fixed background. """
        self.case = case
        self.cache = {}
        cut = lambda c: trim(c, roi_of(case))     # noqa
        self.data = cut(case["data"])
        self.fixed = None
        parts, self.parts = self.parts, []
        for spec, scaling in parts:
            self.append(spec, scaling)
        self.floating = [cut(f["spec"]) for f in case["floating"]]
        self.signal = case["signal"] and cut(case["signal"])

    def append(self, spec, scaling):
        self.parts.append((spec, scaling))
        part = projection(self.case, trim(spec, roi_of(self.case))) * \
            (scaling / spec["num_decays"])
        self.fixed = part if self.fixed is None else self.fixed + part

    def observed(self):
        return projection(self.case, self.data)

    def expected(self, values):
        """ values: of all parameters, systematics first. """
        case = self.case
        systematic = tuple(values[:len(case["globals"])])
        rates = list(values[len(case["globals"]):])
        total = 0. if self.fixed is None else self.fixed
        for i, (cut, entry) in enumerate(zip(self.floating,
                                             case["floating"])):
            part = self.full(i, cut, systematic)
            if entry["rate"]:
                part = part * (rates.pop(0) / cut["num_decays"])
            total = total + part
        if self.signal:
            part = self.full("signal", self.signal, systematic) * \
                (self.decays / self.signal["num_decays"])
            total = total + part
        return total

    def full(self, key, cut, systematic):
        if (key, systematic) not in self.cache:
            new = convolve(self.case, cut, systematic)
            self.cache[key, systematic] = projection(
                self.case, trim(new, self.case["dims"]))
        return self.cache[key, systematic]


# --------------------------------------------------------------- the fitter
class Recorder(object):
    """ A test statistic which keeps what it was asked for. """
    def __init__(self, per_bin=False, factor=1.):
        self._per_bin = per_bin
        self.factor = factor
        self.asked = []

    def compute_statistic(self, observed, expected):
        self.asked.append((numpy.array(observed), numpy.array(expected)))
        return self.of(observed, expected)

    def of(self, observed, expected):
        terms = (numpy.asarray(observed) - numpy.asarray(expected)) ** 2 * \
            self.factor
        return terms if self._per_bin else float(terms.sum())

    def get_penalty_term(self, value, prior, sigma):
        return 5. * ((value - prior) / sigma) ** 2


class Points(object):
    """ A minimiser which tries given points. """
    _per_bin = True

    def __init__(self):
        self.points = []

    def get_name(self):
        return "points"

    def minimise(self, funct, test_statistic):
        return [funct(*point) for point in self.points]


def make_member(spec, name, entry=None, number=0):
    from echidna.core.config import SpectraFitConfig
    spectrum_ = make_spectrum(spec, name=name)
    if entry and entry["rate"]:
        spectrum_.set_fit_config(SpectraFitConfig(
            "fit", collections.OrderedDict(
                rate=make_par(entry["rate"], "rate")),
            "%s%d" % (name, number)))
    return spectrum_


def make_fit(case, statistic, minimiser=None, **kwargs):
    from echidna.core.config import GlobalFitConfig
    from echidna.fit.fit import Fit
    config = GlobalFitConfig("fit", collections.OrderedDict())
    for par in case["globals"]:
        config.add_par(make_par(par), "global")
    members = {"data": make_member(case["data"], "data")}
    members["fixed"] = [make_member(spec, "fixed_mc")
                        for spec, _ in case["fixed"]]
    members["floating"] = [
        make_member(entry["spec"], entry["name"], entry, i)
        for i, entry in enumerate(case["floating"])]
    members["signal"] = case["signal"] and make_member(case["signal"],
                                                       "signal_mc")
    roi = {}
    for dim in roi_of(case):
        bounds = (dim["low"], dim["low"] + dim["bins"] * dim["width"])
        roi[dim["name"]] = bounds[::-1] if case["roi_swapped"] else bounds
    fixed = collections.OrderedDict(zip(members["fixed"],
                                        [s for _, s in case["fixed"]]))
    if case["one_by_one"]:
        return set_up(case, members, fixed, Fit(roi, statistic, config, **dict(
            {k: True for k in ("per_bin", "single_bin") if case[k]},
            **kwargs)), minimiser), members
    fitter = Fit(roi, statistic, config, members["data"],
                 fixed_backgrounds=fixed or None,
                 floating_backgrounds=members["floating"] or None,
                 signal=members["signal"], minimiser=minimiser, **dict(
                     # neither is the default
                     {k: True for k in ("per_bin", "single_bin") if case[k]},
                     **kwargs))
    return fitter, members


def set_up(case, members, fixed, fitter, minimiser):
    """ The same fit, with the spectra set one after the other. """
    order, before = case["one_by_one"]
    if before:      # the spectra are cut by the caller
        for spec in [members["data"], members["signal"]] + \
                members["floating"]:
            if spec:
                fitter.shrink_spectra(spec)
    kwargs = {"shrink": False} if before else {}
    steps = [lambda: fitter.set_data(members["data"], **kwargs)]
    if fixed:
        steps.append(lambda: fitter.make_fixed_background(fixed))
    if members["floating"]:
        steps.append(lambda: fitter.set_floating_backgrounds(
            members["floating"], **kwargs))
    if members["signal"]:
        steps.append(lambda: fitter.set_signal(members["signal"], **kwargs))
    for step in steps[order:] + steps[:order]:
        step()
    fitter.set_minimiser(minimiser)
    return fitter


def state(fitter, members):
    """ The spectra of a fit, with what they are like. """
    spectra = {"data": fitter.get_data(),
               "the fixed background": fitter.get_fixed_background(),
               "the signal": members["signal"]}
    for i, spec in enumerate(members["floating"]):
        spectra["floating background %d" % i] = spec
    for i, spec in enumerate(members["fixed"]):
        spectra["fixed background %d" % i] = spec
    return {what: (snapshot(spec), spec) for what, spec in spectra.items()
            if spec}


def given(rec, fitter, members, statistic, case):
    """ The getters of a fit return what it was given. """
    rec.check(fitter.get_data() is members["data"], "get_data")
    rec.check(fitter.get_signal() is members["signal"], "get_signal is %s",
              fitter.get_signal())
    rec.check(list(fitter.get_floating_backgrounds() or []) ==
              members["floating"], "get_floating_backgrounds")
    rec.check(fitter.get_test_statistic() is statistic, "get_test_statistic")
    rec.check((fitter.get_fixed_background() is None) == (not case["fixed"]),
              "get_fixed_background is %s", fitter.get_fixed_background())
    rec.check({dim: list(bounds) for dim, bounds in fitter.get_roi().items()}
              == {dim["name"]: [dim["low"],
                                dim["low"] + dim["bins"] * dim["width"]]
                  for dim in roi_of(case)}, "get_roi is %s", fitter.get_roi())
    pars = [par.get("name") for par in case["globals"]]
    rec.check(list(fitter.get_fit_config().get_pars())[:len(pars)] == pars,
              "parameters of the fit are %s",
              list(fitter.get_fit_config().get_pars()))


def pars_of(case):
    return case["globals"] + [f["rate"] for f in case["floating"]
                              if f["rate"]]


def values_of(par):
    """ Equally spaced values; the ends if there is more than one. """
    if par["bins"] == 1:
        return [par["low"]]
    return [float(x) for x in numpy.linspace(par["low"], par["high"],
                                             par["bins"])]


def combinations(case):
    return list(itertools.product(*[values_of(p) for p in pars_of(case)]))


def penalty_of(case, values):
    return math.fsum(5. * ((v - p["prior"]) / p["sigma"]) ** 2
                     for p, v in zip(pars_of(case), values)
                     if p["sigma"] is not None)


def judge_point(case, rec, model, statistic, result, asked, point):
    observed, expected = model.observed(), model.expected(point)
    if case["single_bin"]:
        observed, expected = observed.sum(), expected.sum()
    size = 1e-9 * (1. + numpy.abs(expected).max())
    expect_close(rec, asked[0], observed.ravel(), "observed counts")
    expect_close(rec, asked[1], expected.ravel(), "expected counts at %s" %
                 (point,), atol=size)
    stat = statistic.of(asked[0], asked[1])
    if case["per_bin"]:
        stat = stat.reshape(tuple(d["bins"] for d in case["dims"]))
    rec.check(numpy.shape(result[0]) == numpy.shape(stat) and
              numpy.array_equal(result[0], stat), "statistic %s, expected %s",
              result[0], stat)
    expect_close(rec, result[1], penalty_of(case, point),
                 "penalties at %s" % (point,))


# ---------------------------------------------------------------- the facets
@st.composite
def histories(draw):
    case = draw(fits(per_bin=draw(st.integers(0, 3)) == 0))
    points = combinations(case)
    steps = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(["fit", "fit", "fit", "signal off",
                                     "signal", "data", "fixed", "floating",
                                     "new signal", "new fixed", "roi",
                                     "roi", "statistic", "minimiser"]))
        step = {"kind": kind}
        if kind == "fit":
            step["points"] = [points[i % len(points)] for i in draw(
                st.lists(st.integers(0, 1000), min_size=1, max_size=5))]
        elif kind == "signal":
            step["decays"] = draw(st.sampled_from([3., 100., 0.25]))
        elif kind in ("data", "floating", "new signal", "new fixed"):
            step["seed"] = draw(st.integers(1, 9))
            # the dimensions may be of the other kind
            step["flip"] = draw(st.booleans())
            step["set"] = draw(st.booleans())
        elif kind == "fixed":
            step["scaling"] = draw(st.sampled_from([2., 8.5]))
        elif kind == "roi":
            step["cut"] = draw(st.tuples(st.integers(0, 1), st.integers(0, 2),
                                         st.integers(0, 2)))
        steps.append(step)
    steps.append({"kind": "fit", "points": [points[-1], points[0]]})
    case["steps"] = steps
    return case


def renewed(spec, step, convolved=()):
    """ Other contents, and perhaps other kinds of dimensions. """
    return dict(spec, axes=[
        dict(ax, name=base(ax["name"]) + ("_mc" if ax["name"].endswith("reco")
                                          else "_reco"))
        if step["flip"] and base(ax["name"]) not in convolved else dict(ax)
        for ax in spec["axes"]], data=[
            (d * step["seed"] + i) % 31 for i, d in enumerate(spec["data"])])


def narrowed(case, step):
    """ The case with a smaller region of interest, or None. """
    at, below, above = step["cut"]
    dims = [dict(d) for d in case["dims"]]
    within = [d for d in dims if d["roi"]]
    dim = within[at % len(within)]
    # interpolation needs four bins
    least = 4 if any(base(par["dim"]) == dim["name"] and
                     par["kind"] != "resolution"
                     for par in case["globals"]) else 1
    if not below + above or dim["bins"] - below - above < least:
        return None
    dim["low"] += below * dim["width"]
    dim["bins"] -= below + above
    return dict(case, dims=dims)


@prop.facet(histories(), quick=500, rule="several points were tried with "
            "systematics or several spectra")
def expected(case, rec):
    """ Observed and expected counts at any points in any order. """
    statistic, points = Recorder(case["per_bin"]), Points()
    fitter, members = make_fit(case, statistic, points)
    given(rec, fitter, members, statistic, case)
    model = Model(case)
    rec.label("%d globals" % len(case["globals"]),
              "%d floating" % len(case["floating"]))
    tried, shrink = 0, False
    now = {"data": members["data"], "signal": members["signal"]}
    for step in case["steps"]:
        rec.label(step["kind"])
        convolved = set(base(par["dim"]) for par in case["globals"])
        if step["kind"] == "signal off":
            fitter.remove_signal()
            model.signal = now["signal"] = None
        elif step["kind"] == "statistic":
            statistic = Recorder(case["per_bin"], statistic.factor + 2.)
            fitter.set_test_statistic(statistic)
        elif step["kind"] == "minimiser":
            points = Points()
            fitter.set_minimiser(points)
        elif step["kind"] == "signal" and case["signal"]:
            fitter.set_signal(members["signal"], shrink=shrink)
            now["signal"] = members["signal"]
            members["signal"].scale(step["decays"])
            model.signal = trim(case["signal"], roi_of(case))
            model.decays = step["decays"]
        elif step["kind"] == "new signal" and case["signal"]:
            case = dict(case, signal=renewed(case["signal"], step, convolved))
            members["signal"] = make_member(case["signal"], "signal_mc")
            fitter.set_signal(members["signal"])
            now["signal"] = members["signal"]
            rec.label("other kinds of dimensions" if step["flip"] and
                      not convolved else "another signal")
            model.case = case
            model.cache = {}
            model.signal = trim(case["signal"], roi_of(case))
            model.decays = case["signal"]["num_decays"]
        elif step["kind"] == "data":
            case = dict(case, data=renewed(case["data"], step))
            now["data"] = make_member(case["data"], "data")
            fitter.set_data(now["data"])
            model.case = case
            model.data = trim(case["data"], roi_of(case))
        elif step["kind"] == "new fixed" and model.parts:
            spec = renewed(model.parts[0][0], step)
            case = dict(case, fixed=[[spec, step["seed"]]])
            new = make_member(spec, "fixed_mc")
            if step["set"]:     # as it is
                new.scale(step["seed"])
                fitter.set_fixed_background(new)
            else:
                fitter.make_fixed_background({new: step["seed"]})
            members["fixed"] = []
            model.case = case
            model.parts, model.fixed = [], None
            model.append(spec, step["seed"])
        elif step["kind"] == "floating":
            # others, which may have the same names
            case = dict(case, floating=[dict(f, spec=renewed(
                f["spec"], step, convolved)) for f in case["floating"]])
            members["floating"] = [
                make_member(f["spec"], f["name"], f, i)
                for i, f in enumerate(case["floating"])]
            fitter.set_floating_backgrounds(members["floating"])
            model.case, model.cache = case, {}
            model.floating = [trim(f["spec"], roi_of(case))
                              for f in case["floating"]]
        elif step["kind"] == "roi":
            smaller = narrowed(case, step)
            if smaller is None:
                continue
            case = smaller
            fitter.set_roi({d["name"]: (d["low"], d["low"] + d["bins"] *
                                        d["width"]) for d in roi_of(case)})
            raises(rec, ValueError, fitter.fit, "spectra which are not "
                   "shrunk to the region of interest")
            fitter.shrink_all()
            shrink = True
            keep, signal = model.signal, model.decays
            model.use(case)
            model.signal, model.decays = keep and model.signal, signal
            rec.label("smaller roi")
        elif step["kind"] == "fixed" and case["fixed"]:
            more = collections.OrderedDict()
            for i, (spec, _) in enumerate(case["fixed"]):
                more[make_member(spec, "more%d_mc" % i)] = \
                    step["scaling"] / (i + 1.)
                model.append(spec, step["scaling"] / (i + 1.))
            before = [snapshot(spec) for spec in more]
            fitter.append_fixed_background(more)
            for old, spec in zip(before, more):
                unchanged(rec, old, spec, "appending to the fixed background")
        elif step["kind"] == "fit":
            points.points = step["points"]
            rec.check(fitter.get_data() is now["data"] and
                      fitter.get_signal() is now["signal"] and
                      fitter.get_test_statistic() is statistic and
                      fitter.get_minimiser() is points and
                      list(fitter.get_floating_backgrounds()) ==
                      members["floating"], "what was set is not returned")
            del statistic.asked[:]
            before = state(fitter, members)
            results = fitter.fit()
            for what, (old, spec) in before.items():
                unchanged(rec, old, spec, "fitting, for %s," % what)
            rec.check(len(results) == len(step["points"]) ==
                      len(statistic.asked), "%d results", len(results))
            for result, asked, point in zip(results, statistic.asked,
                                            step["points"]):
                judge_point(case, rec, model, statistic, result, asked,
                            tuple(point))
            tried += len(set(map(tuple, step["points"])))
    rec.hit(tried > 1 and (case["globals"] or len(case["floating"]) > 1 or
                           case["fixed"] or case["signal"]))


@prop.facet(fits(need_floating=False, globals_=False), quick=150,
            rule="data and fixed background differ")
def fixed_only(case, rec):
    """ Without floating backgrounds: one comparison. """
    statistic = Recorder()
    fitter, members = make_fit(case, statistic)
    given(rec, fitter, members, statistic, case)
    model = Model(case)
    for spec, member_ in zip(case["fixed"], members["fixed"]):
        rec.check(numpy.array_equal(member_.get_data(), data_array(spec[0]))
                  and member_.get_num_decays() == spec[0]["num_decays"],
                  "a fixed background given was changed")
    for scaling in (None, 2.):
        if scaling:
            more = collections.OrderedDict()
            for i, (spec, _) in enumerate(case["fixed"]):
                more[make_member(spec, "more_mc")] = scaling + i
                model.append(spec, scaling + i)
            fitter.append_fixed_background(more)
        for _ in (0, 1):
            before = state(fitter, members)
            result = fitter.fit()
            for what, (old, spec) in before.items():
                unchanged(rec, old, spec, "fitting, for %s," % what)
            observed, expected_ = model.observed(), model.expected(())
            if case["single_bin"]:
                observed, expected_ = observed.sum(), expected_.sum()
            expect_close(rec, statistic.asked[-1][0], observed.ravel(),
                         "observed")
            expect_close(rec, statistic.asked[-1][1], expected_.ravel(),
                         "expected")
            rec.check(result == statistic.of(*statistic.asked[-1]),
                      "returned %s", result)
    rec.hit(bool(numpy.any(observed != expected_)))


@prop.facet(fits(per_bin=False, max_floating=2), quick=200,
            rule="the minimum is at other values than the first")
def best_fit(case, rec):
    """ The default grid search: best fits of the lowest total. """
    statistic = Recorder()
    fitter, members = make_fit(case, statistic)
    given(rec, fitter, members, statistic, case)
    model = Model(case)
    config = fitter.get_fit_config()
    pars = pars_of(case)
    rec.check(len(config.get_pars()) == len(pars), "parameters %s",
              config.get_pars())
    for _ in (0, 1):
        points = list(itertools.product(*[
            config.get_par(name).get_values()
            for name in config.get_pars()]))
        totals = []
        for point in points:
            expected_ = model.expected(tuple(float(x) for x in point))
            observed = model.observed()
            if case["single_bin"]:
                observed, expected_ = observed.sum(), expected_.sum()
            totals.append(statistic.of(observed, expected_) +
                          penalty_of(case, point))
        stat, penalty = fitter.fit()
        best = min(totals)
        slack = 1e-7 * (1. + abs(best))
        expect_close(rec, stat + penalty, best, "lowest total", atol=slack)
        found = tuple(config.get_par(name).get_best_fit()
                      for name in config.get_pars())
        near = [p for p, t in zip(points, totals) if t <= best + slack]
        rec.check(found in near, "best fit %s, lowest at %s", found, near)
        rec.hit(found != points[0])
        expect_close(rec, fitter.get_minimiser().get_stats().ravel(), totals,
                     "statistics kept", atol=1e-7 * (1. + max(totals)))


WRONG = ["roi not a dict", "bounds not a pair", "three bounds", "no data",
         "no background", "outside roi", "other roi", "pre-made dir",
         "per bin", "per bin minimiser", "signal", "rates without spectra",
         "no parameters"]


@prop.facet(st.fixed_dictionaries({"fit": fits(), "wrong": st.sampled_from(
    WRONG), "which": st.integers(0, 50)}), quick=200, rule="always")
def rejected(case, rec):
    """ Fits which cannot be done are refused. """
    from echidna.core.config import GlobalFitConfig
    from echidna.errors.custom_errors import CompatibilityError
    from echidna.fit.fit import Fit
    wrong, case, which = case["wrong"], case["fit"], case["which"]
    rec.label(wrong)
    rec.hit()
    statistic = Recorder(case["per_bin"])
    dim = roi_of(case)[which % len(roi_of(case))]
    low, high = dim["low"], dim["low"] + dim["bins"] * dim["width"]
    empty = lambda: GlobalFitConfig("fit", collections.OrderedDict())  # noqa
    make = lambda roi: Fit(roi, statistic, empty())    # noqa
    if wrong == "roi not a dict":
        raises(rec, TypeError, lambda: make([(dim["name"], low, high)]),
               "a list as region of interest")
    elif wrong == "bounds not a pair":
        raises(rec, TypeError, lambda: make({dim["name"]: low}),
               "a number as bounds")
    elif wrong == "three bounds":
        raises(rec, CompatibilityError, lambda: make(
            {dim["name"]: (low, high, high)}), "three bounds")
        raises(rec, CompatibilityError, lambda: make({dim["name"]: [low]}),
               "one bound")
        fitter, _ = make_fit(case, statistic)
        before = dict(fitter.get_roi())
        raises(rec, CompatibilityError, lambda: fitter.set_roi(
            {dim["name"]: [low]}), "one bound")
        rec.check(dict(fitter.get_roi()) == before, "a rejected region of "
                  "interest was kept: %s", fitter.get_roi())
    elif wrong == "no data":
        fitter = make({dim["name"]: (low, high)})
        fitter.set_floating_backgrounds([make_member(
            case["floating"][0]["spec"], "b_mc")])
        raises(rec, (CompatibilityError, AttributeError), fitter.fit,
               "fitting without data")
    elif wrong == "no background":
        fitter = make({dim["name"]: (low, high)})
        fitter.set_data(make_member(case["data"], "data"))
        raises(rec, (CompatibilityError, AttributeError), fitter.fit,
               "fitting without a background")
    elif wrong in ("outside roi", "other roi"):
        fitter, members = make_fit(case, statistic)
        spec = case["floating"][0]["spec"]
        name = [a["name"] for a in spec["axes"] if base(a["name"]) ==
                dim["name"]][0]
        width = dim["width"]
        changed = dict(spec, axes=[dict(ax) if ax["name"] != name else dict(
            ax, low=low + (width if which % 2 else 0.),
            high=high + (0. if which % 2 else width)) for ax in
            spec["axes"]])
        other = make_spectrum(changed, name="other_mc")
        if wrong == "outside roi" and which % 2:
            raises(rec, ValueError, lambda: fitter.set_data(other),
                   "data which does not reach the region of interest")
        else:
            for func in (fitter.set_data, fitter.set_fixed_background,
                         lambda s, shrink: fitter.set_floating_backgrounds(
                             [s], shrink=shrink)):
                raises(rec, ValueError, lambda: func(other, shrink=False),
                       "bounds other than the region of interest")
        # rejected spectra are not used
        rec.check(fitter.get_data() is members["data"] and
                  fitter.get_fixed_background() is not other and
                  fitter.get_floating_backgrounds() == members["floating"],
                  "a spectrum which was rejected is used")
    elif wrong == "pre-made dir":
        fitter, _ = make_fit(case, statistic)
        raises(rec, ValueError, lambda: fitter.set_pre_made_dir(
            "/no/such/directory"), "a directory which does not exist")
    elif wrong == "per bin minimiser":
        minimiser = Points()
        minimiser._per_bin = False
        statistic._per_bin = True
        fitter, _ = make_fit(dict(case, per_bin=True, single_bin=False),
                             statistic, minimiser)
        raises(rec, ValueError, fitter.fit, "a fit per bin with a minimiser "
               "which is not")
    elif wrong == "signal":
        fitter, _ = make_fit(case, statistic)
        spec = case["floating"][0]["spec"]
        other = make_spectrum(dict(spec, axes=[
            dict(ax) if base(ax["name"]) != dim["name"] else
            dict(ax, low=low, high=high + dim["width"])
            for ax in spec["axes"]]), name="other_mc")
        fitter.set_signal(other, shrink=False)
        raises(rec, ValueError, fitter.fit, "a signal with other bounds than "
               "the region of interest")
    elif wrong == "rates without spectra":
        bare = dict(case, globals=[], floating=[], signal=None,
                    fixed=case["fixed"] or [[case["data"], 1.]])
        fitter, _ = make_fit(bare, statistic)
        fitter.get_fit_config().add_par(make_par(
            {"kind": "rate", "name": "rate", "low": 0., "high": 1., "bins": 2,
             "prior": 1., "sigma": None}, "B8_rate"), "spectra")
        raises(rec, ValueError, fitter.fit, "a rate without a floating "
               "background")
    elif wrong == "per bin":
        fitter, _ = make_fit(dict(case, per_bin=True), statistic)
        statistic._per_bin = False
        raises(rec, ValueError, fitter.fit, "a fit per bin with a statistic "
               "which is not")
    else:
        bare = dict(case, globals=[], floating=[dict(f, rate=None)
                                                for f in case["floating"]])
        bare["signal"] = None
        fitter, _ = make_fit(bare, statistic)
        raises(rec, (IndexError, AttributeError), fitter.fit,
               "floating backgrounds without parameters")
