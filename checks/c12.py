""" C12 - the grid of values of a fit parameter. """
import math
import warnings

import numpy
from hypothesis import strategies as st

from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C12")

SCALES = ["linear", "logscale", "logscale_deviation"]


@st.composite
def grids(draw, scale=None, min_bins=2):
    scale = scale or draw(st.sampled_from(SCALES))
    size = draw(st.sampled_from([1., 1., 10., 1000., 1.e-3, 1.e-10]))
    if scale == "linear":
        low = draw(numbers(-10, 10)) * size
        high = low + draw(positives(0.05, 20)) * size
        prior = draw(st.floats(low, high)) if draw(st.booleans()) else \
            draw(st.sampled_from([low, high, 0.5 * (low + high)]))
    elif scale == "logscale":
        if draw(st.integers(0, 3)):
            low = draw(positives(0.01, 5)) * size
            high = low * draw(numbers(1.1, 1000.))
        else:
            low = draw(st.sampled_from([0., -1.]))
            high = draw(numbers(1.5, 1000.))
        prior = draw(st.sampled_from([max(low, 0.01), high]))
    else:
        prior = draw(numbers(-10, 50))
        below = draw(st.sampled_from([0., 1., 1.])) * draw(positives(0.1, 50))
        above = draw(positives(0.1, 50))
        if below and draw(st.integers(0, 5)) == 0:
            above = 0.
        low, high = prior - below, prior + above
    return {"scale": scale, "low": low, "high": high, "prior": prior,
            "sigma": draw(st.one_of(st.none(), positives(0.1, 5))),
            "bins": draw(st.integers(max(min_bins, 3) if scale ==
                                     "logscale_deviation" else min_bins, 24))
            if draw(st.integers(0, 15)) else draw(st.integers(100, 600)),
            # the base of the logarithm does not matter
            "base": draw(st.sampled_from([None, None, 2., 10., 2.5]))
            if scale == "logscale" else None,
            "kind": draw(st.sampled_from(["rate", "resolution", "scale",
                                          "shift"]))}


def parameter(case):
    from echidna.core import parameter as module
    kwargs = {}
    if case["scale"] != "linear":
        kwargs[case["scale"]] = True
    if case["base"]:
        kwargs["base"] = case["base"]
    args = ["par", case["prior"], case["sigma"], case["low"], case["high"],
            case["bins"]]
    if case["kind"] == "rate":
        return module.RateParameter(*args, **kwargs)
    return {"resolution": module.ResolutionParameter,
            "scale": module.ScaleParameter,
            "shift": module.ShiftParameter}[case["kind"]](
                *(args + ["energy_mc"]), **kwargs)


def judge_values(rec, case, values):
    low, high, bins, prior = (case[k] for k in ("low", "high", "bins",
                                                "prior"))
    values = numpy.asarray(values, dtype=float)
    rec.check(values.shape == (bins,), "%s values for %s bins: %s",
              values.shape, bins, values)
    rec.check(bool((numpy.diff(values) > 0).all()), "values do not increase: "
              "%s", values)
    size = max(abs(low), abs(high), abs(prior))
    if case["scale"] == "linear":
        expected = [low + (high - low) * i / (bins - 1.) for i in range(bins)]
        expect_close(rec, values, expected, "values", atol=1e-10 * size)
    elif case["scale"] == "logscale":
        first = math.log(low) if low > 0 else -math.log(high)
        step = (math.log(high) - first) / (bins - 1)
        expect_close(rec, values, [math.exp(first + i * step)
                                   for i in range(bins)], "values", atol=0)
    else:
        expect_close(rec, [values[0], values[-1]], [low, high],
                     "first and last value", atol=1e-10 * size)
        at = [i for i in range(bins) if abs(values[i] - prior) <=
              1e-10 * (size + 1)]
        rec.check(len(at) == 1, "the prior %s is not one of the values %s",
                  prior, values)
        for side in (values[:at[0] + 1], values[at[0]:]):
            logs = numpy.log(abs(side - prior) + 1.)
            expect_close(rec, numpy.diff(logs), [
                (logs[-1] - logs[0]) / max(len(logs) - 1, 1)] *
                (len(logs) - 1), "steps of log(deviation + 1)", rtol=1e-6,
                atol=1e-9 * (1 + size))


def look_ups(rec, par, found):
    """ Values, indices and bins are found by each other. """
    for i, value in enumerate(found):
        rec.check(par.get_value_at(i) == value, "value at %d", i)
        rec.check(par.get_value_index(value) == i, "index of value %d is "
                  "%s", i, par.get_value_index(value))
        rec.check(par.get_bin(float(value)) == i, "bin of value %d (%s) is "
                  "%s in %s", i, value, par.get_bin(float(value)), found)


@prop.facet(grids(), quick=1200, rule="more than two values")
def values(case, rec):
    """ The grid has the promised number, ends and spacing. """
    par = parameter(case)
    judge_values(rec, case, par.get_values())
    rec.label(case["scale"])
    rec.hit(case["bins"] > 2)
    rec.check((par.get_low(), par.get_high(), par.get_bins(), par.get_prior(),
               par.get_sigma()) == tuple(case[k] for k in (
                   "low", "high", "bins", "prior", "sigma")),
              "the parameter does not report what it was made with")
    found = numpy.array(par.get_values())
    look_ups(rec, par, found)
    between = 0.5 * (found[0] + found[1])
    if between not in found:
        raises(rec, ValueError, lambda: par.get_value_index(between),
               "the index of a value which is not in the grid")
    rec.check(numpy.array_equal(par.get_values(), found), "asking for values "
              "changed them")


@st.composite
def changes(draw):
    first = draw(grids())
    steps = []
    current = first
    for _ in range(draw(st.integers(1, 3))):
        new = draw(grids(scale=draw(st.sampled_from(
            [current["scale"], current["scale"], "logscale_deviation"]
            if current["scale"] == "linear" else [current["scale"]]))))
        if draw(st.booleans()):     # only the number of bins
            new = dict(current, bins=new["bins"]) if \
                new["scale"] == current["scale"] else new
        steps.append(new)
        current = new
    return {"first": first, "steps": steps, "look": draw(st.booleans())}


@prop.facet(changes(), quick=500, rule="the grid changes after it was used")
def updates(case, rec):
    """ A changed parameter has the grid of its new settings. """
    par = parameter(case["first"])
    old = case["first"]
    for new in case["steps"]:
        if case["look"]:
            look_ups(rec, par, list(par.get_values()))
        kwargs = {k: new[k] for k in ("low", "high", "bins", "prior", "sigma")
                  if new[k] != old[k]}
        if new["scale"] != old["scale"]:
            kwargs[new["scale"]] = True
        if new["base"] and new["base"] != old["base"]:
            kwargs["base"] = new["base"]
        par.set_par(**kwargs)
        judge_values(rec, new, par.get_values())
        look_ups(rec, par, list(par.get_values()))
        rec.check((par.get_low(), par.get_high(), par.get_bins(),
                   par.get_prior(), par.get_sigma()) == tuple(
                       new[k] for k in ("low", "high", "bins", "prior",
                                        "sigma")), "the parameter does not "
                  "report its new settings: %s", par.to_dict())
        rec.check(not new["base"] or par.to_dict()["base"] == new["base"],
                  "the base %s is %s", new["base"], par.to_dict()["base"])
        rec.hit(case["look"] and kwargs)
        old = new
    for dimension in ("energy_mc", "radial_reco"):
        par.set_par(dimension=dimension)
        rec.check(par.get_dimension() == dimension, "dimension set to %s is "
                  "%s", dimension, par.get_dimension())
    raises(rec, TypeError, lambda: par.set_par(no_such=1.),
           "setting an unknown property")
    judge_values(rec, old, par.get_values())


@prop.facet(grids(), quick=600, rule="a warning is due")
def checked(case, rec):
    """ A grid without the prior or with negative rates is warned of. """
    par = parameter(case)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        par.check_values()
    caught = [w for w in caught if issubclass(w.category, UserWarning)]
    values = numpy.asarray(par.get_values())
    distance = abs(values - case["prior"]).min()
    negative = int(case["kind"] == "rate" and bool((values < 0).any()))
    # tolerance of "present" is the code's choice
    due = int(distance > 1e-6 * max(1., abs(case["prior"])))
    allowed = int(distance > 1e-13 * max(1., abs(case["prior"])))
    number = len(caught)
    rec.check(number >= due + negative, "%d warnings for a prior %s from the "
              "nearest value%s", number, distance,
              " and negative rates" if negative else "")
    rec.check(number <= allowed + negative, "%d warnings for a prior %s from "
              "the nearest value%s", number, distance,
              " and negative rates" if negative else "")
    rec.hit(due or negative)


@prop.facet(st.fixed_dictionaries({
    "grid": grids(), "values": st.lists(numbers(-50, 50), min_size=3,
                                        max_size=3)}), quick=200,
    rule="always")
def results(case, rec):
    """ Current value, best fit and penalty: unset, then what was set. """
    par = parameter(case["grid"])
    rec.hit()
    for (get, set_), value in zip((
            (par.get_current_value, par.set_current_value),
            (par.get_best_fit, par.set_best_fit),
            (par.get_penalty_term, par.set_penalty_term)), case["values"]):
        raises(rec, ValueError, get, "asking for a value which is not set")
        for one in (value + 1., value):
            set_(one)
            rec.check(get() == one, "set to %s, is %s", one, get())
    rec.check([par.get_current_value(), par.get_best_fit(),
               par.get_penalty_term()] == case["values"], "the values mix")
    judge_values(rec, case["grid"], par.get_values())


@st.composite
def given(draw):
    grid = draw(grids())
    grid["values"] = sorted(draw(st.lists(
        numbers(-10, 50), min_size=1, max_size=12,
        unique_by=lambda x: round(x, 3))))
    grid["changed"] = draw(st.sampled_from([[], ["bins"], ["low", "high"],
                                            ["prior"]]))
    return grid


@prop.facet(given(), quick=200, rule="values which are not evenly spaced")
def given_values(case, rec):
    """ Values which are given are the grid, until a setting is changed. """
    from echidna.core import parameter as module
    given_ = numpy.array(case["values"])
    cls = module.ShiftParameter
    args = ["par", case["prior"], case["sigma"], case["low"], case["high"],
            len(given_)]
    kwargs = {"values": numpy.array(given_), "dimension": "energy_mc"}
    if case["kind"] == "rate":
        cls = module.RateParameter
        del kwargs["dimension"]
    if case["scale"] != "linear":
        kwargs[case["scale"]] = True
    par = cls(*args, **kwargs)
    expect_close(rec, par.get_values(), given_, "the values", 0, 0)
    for i, value in enumerate(given_):
        rec.check(par.get_value_index(value) == i, "index of value %d is %s",
                  i, par.get_value_index(value))
        rec.check(par.get_value_at(i) == value, "value at %d is %s", i,
                  par.get_value_at(i))
        rec.check(par.get_bin(float(value)) == i, "bin of value %d is %s", i,
                  par.get_bin(float(value)))
    rec.hit(len(given_) > 2 and
            not numpy.allclose(numpy.diff(given_), given_[1] - given_[0]))
    if case["changed"]:
        par.set_par(**dict({"bins": case["bins"]},
                           **{key: case[key] for key in case["changed"]}))
        judge_values(rec, case, par.get_values())
