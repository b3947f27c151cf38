""" C18 - a limit is the first signal which is excluded. """
import collections
import io
import itertools
import contextlib
import logging
import math
import os
import re

import numpy
from hypothesis import strategies as st

from checks.c16 import *  # noqa
from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C18")


@st.composite
def limits(draw):
    with_floating = draw(st.integers(0, 3)) > 0
    per_bin = draw(st.integers(0, 3)) == 0
    case = draw(fits(need_floating=with_floating, globals_=with_floating and
                     draw(st.booleans()), per_bin=per_bin, max_floating=2))
    if case["signal"] is None:
        case["signal"] = dict(case["floating"][0]["spec"] if case["globals"]
                              else case["data"], num_decays=10.)
    bins = draw(st.integers(1, 7))
    scaling = draw(st.sampled_from(["linear", "linear", "logscale"]))
    low = draw(st.sampled_from([0., 0., 0., 1., 5.])) \
        if scaling == "linear" else draw(st.sampled_from([0.1, 1.]))
    case["rate"] = {
        "kind": "rate", "name": "rate", "low": low, "bins": bins,
        "high": low + draw(st.sampled_from([2., 50., 400.])),
        "prior": draw(st.sampled_from([0., 1., 20.])), "sigma": None,
        "scale": scaling if bins > 1 else "linear"}
    # in other units it is the same
    unit = draw(st.sampled_from([1., 1., 1., 2. ** -14]))
    for key in ("low", "high", "prior"):
        case["rate"][key] *= unit
    case["signal"] = dict(case["signal"], num_decays=unit *
                          case["signal"]["num_decays"])
    # the limit lies between the n-th and the next of the sorted results
    case["rank"] = draw(st.integers(0, bins + 1))
    case["min_stat"] = draw(st.sampled_from([None, None, None, 0., 3.5]))
    case["store"] = draw(st.sampled_from(["", "limit", "fits", "default",
                                          "spectra"]))
    case["again"] = draw(st.booleans())
    # bring the data near what is expected: an interesting minimum
    case["truth"] = draw(st.integers(-1, bins - 1))
    return case


def lowest_of(case, model, statistic):
    """ (raw statistic, penalties, values) of the best fit, or None if not
    unique. """
    observed = model.observed()
    shape = tuple(d["bins"] for d in case["dims"])
    best = []
    for point in combinations(case):
        expected_ = model.expected(point)
        if case["single_bin"]:
            raw = statistic.of(observed.sum(), expected_.sum())
        else:
            raw = statistic.of(observed, expected_)
        if case["per_bin"] and case["floating"]:
            raw = raw.reshape(shape)
        best.append((float(numpy.sum(raw)) + penalty_of(case, point), point,
                     raw))
    best.sort(key=lambda entry: entry[0])
    if len(best) > 1 and best[1][0] - best[0][0] < \
            1e-6 * (1. + abs(best[0][0])):
        return None
    _, point, raw = best[0]
    if case["per_bin"] and not case["floating"]:
        raw = raw.ravel()
    return raw, [0. if p["sigma"] is None else
                 5. * ((v - p["prior"]) / p["sigma"]) ** 2
                 for p, v in zip(pars_of(case), point)], point


def prepare(case):
    from echidna.core.config import SpectraFitConfig
    from echidna.limit.limit import Limit
    statistic = Recorder(case["per_bin"])
    fitter, members = make_fit(case, statistic)
    signal = members["signal"]
    signal.set_fit_config(SpectraFitConfig("limit", collections.OrderedDict(
        rate=make_par(case["rate"], "rate")), "signal"))
    for name, group in members.items():
        for spec in group if isinstance(group, list) else [group]:
            spec.set_background_name("any")
    limit = Limit(signal, fitter)
    return limit, fitter, members, statistic


def scales_of(case):
    rate = case["rate"]
    if rate["scale"] == "logscale":
        return [float(x) for x in numpy.logspace(
            math.log10(rate["low"]), math.log10(rate["high"]), rate["bins"])]
    return values_of(rate)


def results_of(case, statistic):
    """ The best fit at each signal scale and without signal, or None. """
    model = Model(case)
    scales = scales_of(case)
    if case["truth"] >= 0 and not case["per_bin"]:
        # data as expected at the first values with this signal
        model.decays = scales[case["truth"]]
        keep = model.signal if model.decays > 1e-8 else None
        signal, model.signal = model.signal, keep
        expected_ = model.expected(combinations(case)[0])
        model.signal = signal
        full = numpy.zeros(tuple(d["bins"] for d in case["dims"]))
        where = tuple(slice(None) if d["roi"] else 0 for d in case["dims"])
        full[where] = numpy.round(expected_ * 4.) / 4.
        model.data = {"axes": [dict(name=d["name"] + "_mc", low=d["low"],
                                    high=d["low"] + d["bins"] * d["width"],
                                    bins=d["bins"]) for d in case["dims"]],
                      "num_decays": 1., "data": [4. * x for x in
                                                 full.ravel()]}
        changed = model.data
    else:
        changed = None
    results = []
    signal = model.signal
    for scale in [None] + scales:
        model.signal = None if scale is None or abs(scale) <= 1e-8 else signal
        model.decays = scale
        results.append(lowest_of(case, model, statistic))
        if results[-1] is None:
            return None, changed
    return results, changed


def between(full, rank):
    """ A limit between two of the values, or above all of them. """
    ordered = sorted(set(full))
    if rank >= len(ordered):
        return ordered[-1] + 1.
    if rank == 0:
        return ordered[0] - 1.
    if ordered[rank] - ordered[rank - 1] < 1e-5 * (1. + abs(ordered[rank])):
        return None
    return 0.5 * (ordered[rank - 1] + ordered[rank])


@contextlib.contextmanager
def logged():
    """ What is logged meanwhile. """
    lines = []

    class Keep(logging.Handler):
        def emit(self, record):
            lines.append(record.getMessage())

    handler, log = Keep(), logging.getLogger("extra")
    before = log.level, log.propagate
    log.addHandler(handler)
    log.setLevel(logging.INFO)
    log.propagate = False
    # the other loggers stay quiet
    old = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    quiet_ = logging.getLogger()
    handlers, quiet_.handlers = quiet_.handlers, [logging.NullHandler()]
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            yield lines
    finally:
        quiet_.handlers = handlers
        logging.disable(old)
        log.removeHandler(handler)
        log.level, log.propagate = before


def check_summary(case, rec, lines, index, scales, results, full):
    """ The summary which is logged is about the scale of the limit. """
    texts = [line for line in lines if "Limit Summary" in line]
    rec.check(len(texts) == 1, "%d limit summaries", len(texts))

    def number(label):
        return [float(x) for x in re.findall(label + r"[^:\n]*: *(\S+)",
                                             texts[0])]

    expect_close(rec, number("Signal Decays"), [scales[index]],
                 "signal decays of the summary", 1e-3, 1e-3)
    expect_close(rec, number("Best fit"), results[index + 1][2],
                 "best fits of the summary", 1e-3, 1e-3)
    expect_close(rec, number("Penalty term"), results[index + 1][1],
                 "penalty terms of the summary", 1e-3, 1e-3)
    expect_close(rec, number("Test statistic"), [full[index]],
                 "statistic of the summary", 1e-3, 1e-3)


@prop.facet(limits(), quick=400, rule="the limit is neither the first nor "
            "the last signal scale, or there is none")
def limit(case, rec):
    """ Statistics, best fits and the limit, against brute force. """
    import echidna.output
    from echidna.errors.custom_errors import LimitError
    from echidna.output import store
    tool, fitter, members, statistic = prepare(case)
    results, changed = results_of(case, statistic)
    if results is None:
        rec.label("ambiguous")
        return
    if changed:
        fitter.set_data(make_spectrum(changed, name="any"))
        fitter.get_data().set_background_name("any")
    scales = scales_of(case)
    zero = numpy.asarray(results[0][0])
    subtract = zero
    kwargs = {}
    if case["min_stat"] is not None:
        subtract = numpy.full(zero.shape, case["min_stat"])
        kwargs["min_stat"] = subtract if zero.ndim else case["min_stat"]
    deltas = [numpy.asarray(r[0]) - subtract for r in results[1:]]
    sums = [float(d.sum()) for d in deltas]
    full = [s + math.fsum(r[1]) for s, r in zip(sums, results[1:])]
    first = int(numpy.argmin(sums))
    near = [i for i, s in enumerate(sums)
            if s - sums[first] < 1e-7 * (1. + abs(zero.sum()))]
    value = between(full, case["rank"])
    if len(near) > 1 or value is None:
        rec.label("ambiguous")
        return
    wanted = [i for i in range(first, len(scales)) if full[i] > value]
    echidna.output.__default_save_path__ = rec.tmp()
    path = os.path.join(rec.tmp(), "limit.hdf5")
    kwargs["store_limit"] = bool(case["store"])
    if case["store"] and case["store"] != "default":
        path = [path, os.path.join(rec.tmp(), "limit.v2.hdf5")][
            case["rank"] // 2 % 2]
        kwargs["limit_fname"] = path if case["rank"] % 2 else path[:-5]
    kwargs["store_fits"] = case["store"] == "fits"
    kwargs["store_spectra"] = case["store"] == "spectra"
    rec.label("limit" if wanted else "no limit", "per bin" if case["per_bin"]
              else "total", "stored: " + (case["store"] or "no"))
    rec.hit(not wanted or 0 < wanted[0] < len(scales) - 1)
    with logged() as lines:
        if wanted:
            found = tool.get_limit(limit=value, **kwargs)
            rec.check(found == tool._limit_results.get_scales()[wanted[0]] and
                      close(found, scales[wanted[0]]), "limit %s at %s, "
                      "expected %s of %s with %s", found, value,
                      scales[wanted[0]], scales, full)
        else:
            raises(rec, LimitError, lambda: tool.get_limit(limit=value,
                                                           **kwargs),
                   "no signal scale reaches %s (%s)" % (value, full))
    ordered = sorted(full[first:])
    if wanted or len(ordered) < 2 or ordered[-1] - ordered[-2] > \
            1e-5 * (1. + abs(ordered[-1])):
        check_summary(case, rec, lines, wanted[0] if wanted else
                      full.index(ordered[-1], first), scales, results, full)
    slack = 1e-7 * (1. + float(numpy.abs(zero).max()) + max(
        abs(s) for s in sums))

    def judge(kept, what):
        expect_close(rec, kept.get_stats(), numpy.array(deltas),
                     "statistics" + what, atol=slack)
        expect_close(rec, kept.get_full_stats(), full, "statistics with "
                     "penalties" + what, atol=slack)
        expect_close(rec, kept.get_scales(), scales, "scales" + what)
        for k, par in enumerate(fitter.get_fit_config().get_pars()):
            for i, r in enumerate(results[1:]):
                expect_close(rec, kept.get_best_fit(i, par), r[2][k],
                             "best fit of %s at scale %s%s" %
                             (par, scales[i], what))
                expect_close(rec, kept.get_penalty_term(i, par), r[1][k],
                             "penalty of %s at scale %s%s" %
                             (par, scales[i], what))

    judge(tool._limit_results, "")
    if case["again"]:   # once more, with a value which is always exceeded
        with contextlib.redirect_stdout(io.StringIO()):
            found = tool.get_limit(limit=min(full) - 1., store_limit=False,
                                   **{k: v for k, v in kwargs.items()
                                      if k == "min_stat"})
        rec.check(close(found, scales[first]), "a second limit of %s, "
                  "expected %s", found, scales[first])
        judge(tool._limit_results, " of a second limit")
    files = sorted(os.listdir(rec.tmp()))
    if not case["store"]:
        rec.check(not files, "files were written: %s", files)
        return
    if case["store"] == "default":
        rec.check(len(files) == 1 and files[0].endswith(".hdf5") and
                  files[0].startswith("signal_mc_limit_results"),
                  "files %s", files)
        path = os.path.join(rec.tmp(), files[0])
    rec.check(os.path.exists(path), "no results stored, but %s", files)
    judge(store.load_limit_results(path), " stored")
    if case["store"] == "fits" and case["floating"]:
        for kept in (tool._limit_results, store.load_limit_results(path)):
            for i, r in enumerate(results[1:]):
                fit = kept._fit_results[i]
                rec.check(fit is not None, "no fit at scale %s", scales[i])
                total = float(numpy.sum(r[0])) + math.fsum(r[1])
                rec.check(close(numpy.min(fit.get_stats()), total,
                                atol=slack), "the fit kept at scale %s has "
                          "the minimum %s, expected %s", scales[i],
                          numpy.min(fit.get_stats()), total)
    elif case["store"] == "spectra":
        expected_ = {"_data.hdf5": [("data", fitter.get_data())],
                     "_signal.hdf5": [("signal", members["signal"])]}
        if fitter.get_fixed_background():
            expected_["_fixed.hdf5"] = [("fixed",
                                         fitter.get_fixed_background())]
        for spec in members["floating"]:
            expected_.setdefault("_float.hdf5", []).append((spec.get_name(),
                                                            spec))
        for end, entries in expected_.items():
            for group, spec in entries:
                same = [s for g, s in entries if g == group][-1]
                loaded = store.load(os.path.join(
                    rec.tmp(), spec.get_name() + end), group_name=group)
                expect_close(rec, loaded.get_data(), same.get_data(),
                             "stored contents of " + group)


@prop.facet(st.fixed_dictionaries({
    "off": st.sampled_from([0, 0, 0, 0, 0, 0, 1, 2]), "values": st.lists(st.one_of(
        st.integers(-3, 6).map(float), st.floats(-5, 10)), min_size=1,
        max_size=8), "limit": st.sampled_from([2.71, 0., 1., 5., 20.]),
    "each": st.integers(1, 3)}), quick=400,
    rule="the limit is not the first scale")
def array_limit(case, rec):
    """ The scale of the first entry above the limit. """
    from echidna.errors.custom_errors import CompatibilityError, LimitError
    from echidna.core.config import SpectraFitConfig
    from echidna.fit.fit import Fit
    from echidna.limit.limit import Limit
    case["bins"] = len(case["values"]) + case["off"]
    spec = {"axes": [{"name": "energy_mc", "low": 0., "high": 4., "bins": 4}],
            "data": [1, 2, 3, 4], "num_decays": 1.}
    signal = make_spectrum(spec, name="signal_mc")
    par = {"kind": "rate", "name": "rate", "low": 0., "high": 14.,
           "bins": case["bins"], "prior": 0., "sigma": None}
    signal.set_fit_config(SpectraFitConfig("limit", collections.OrderedDict(
        rate=make_par(par, "rate")), "signal"))
    fitter = Fit({"energy": (0., 4.)}, Recorder(),
                 data=make_spectrum(spec, name="data"),
                 fixed_backgrounds={make_spectrum(spec, name="b_mc"): 1.})
    tool = Limit(signal, fitter)
    values, value = case["values"], case["limit"]
    array = numpy.array(values)
    if case["each"] > 1:
        array = numpy.array([[v / 2.] * 2 for v in values]) \
            if case["each"] == 2 else \
            numpy.array([[[v / 4.] * 2] * 2 for v in values])
        totals = [float(numpy.sum(a)) for a in array]
    else:
        totals = values
    above = [i for i, t in enumerate(totals) if t > value]
    kept = array.copy()
    if len(values) != case["bins"]:
        rec.label("lengths differ")
        raises(rec, CompatibilityError, lambda: tool.get_array_limit(
            array, value), "%d values for %d scales" % (len(values),
                                                        case["bins"]))
    elif not above:
        raises(rec, LimitError, lambda: tool.get_array_limit(array, value),
               "no value above the limit")
        rec.hit()
    else:
        found = tool.get_array_limit(array, value)
        rec.check(found == values_of(par)[above[0]], "limit %s, expected %s",
                  found, values_of(par)[above[0]])
        if value == 2.71:
            rec.check(tool.get_array_limit(array) == found, "by default the "
                      "limit is %s", tool.get_array_limit(array))
        rec.hit(above[0] > 0)
    rec.check(numpy.array_equal(kept, array), "the array was changed")


@st.composite
def crossings(draw):
    bins = draw(st.integers(2, 8))
    values = draw(st.lists(st.integers(-6, 12).map(lambda n: 0.5 * n),
                           min_size=bins, max_size=bins))
    zero = draw(st.sampled_from([0., 1., -2.5]))
    return {"low": draw(st.sampled_from([0., 1.])), "values": values,
            "zero": zero, "given": draw(st.sampled_from([None, 0., 1.5])),
            # often just one of the values
            "limit": draw(st.one_of(st.sampled_from(values).map(
                lambda v: v - zero), st.sampled_from([2.71, 0., 1.])))}


def told(low, values, zero):
    """ Limit of a fit with the given results, its scales and the list of
    those at which it was fitted. """
    from echidna.core.config import SpectraFitConfig
    from echidna.fit.fit import Fit
    from echidna.limit.limit import Limit
    par = {"kind": "rate", "name": "rate", "low": low, "high": low + 14.,
           "bins": len(values), "prior": 0., "sigma": None}
    scales = values_of(par)
    asked = []

    class Told(Fit):
        def fit(self):
            signal = self.get_signal()
            if signal is None:
                asked.append(None)
                return zero[0]
            scale = signal.get_num_decays()
            at = int(numpy.argmin([abs(x - scale) for x in scales]))
            asked.append(at)
            return values[at]

    spec = {"axes": [{"name": "energy_mc", "low": 0., "high": 4., "bins": 4}],
            "data": [1, 2, 3, 4], "num_decays": 1.}
    signal = make_spectrum(spec, name="signal_mc")
    signal.set_fit_config(SpectraFitConfig("limit", collections.OrderedDict(
        rate=make_par(par, "rate")), "signal"))
    tool = Limit(signal, Told(
        {"energy": (0., 4.)}, Recorder(),
        data=make_spectrum(spec, name="data"),
        fixed_backgrounds={make_spectrum(spec, name="b_mc"): 1.}))
    return tool, scales, asked


def judge_told(rec, tool, scales, values, zero, limit_, given, **kwargs):
    """ One limit with the given results of the fits; where it may be. """
    from echidna.errors.custom_errors import LimitError
    if limit_ != 2.71:   # which is the default
        kwargs["limit"] = limit_
    if given is not None:
        kwargs["min_stat"] = given
    deltas = [v - (zero if given is None else given) for v in values]
    # any of equally good scales may be the best one
    firsts = [i for i, d in enumerate(deltas) if d == min(deltas)]
    limits_ = [next((scales[i] for i in range(first, len(deltas))
                     if deltas[i] > limit_), None) for first in firsts]
    with logged():
        try:
            found = tool.get_limit(**kwargs)
        except LimitError:
            found = None
    rec.check(any(found is None if wanted is None else found is not None and
                  close(found, wanted) for wanted in limits_), "limit %s of "
              "%s with %s at %s, expected %s", found, scales, deltas,
              limit_, limits_)
    expect_close(rec, tool._limit_results.get_full_stats(), deltas,
                 "statistics kept")
    return deltas, [scales[i] for i in firsts], limits_


@prop.facet(crossings(), quick=300, rule="some value equals the limit, or "
            "the limit is not the best scale")
def crossing(case, rec):
    """ Exact values: the limit has to be exceeded. """
    from echidna.core.config import SpectraFitConfig
    from echidna.errors.custom_errors import LimitError
    from echidna.fit.fit import Fit
    from echidna.limit.limit import Limit
    values, zero = list(case["values"]), case["zero"]
    if case["low"] == 0.:   # no signal, too
        values[0] = zero
    tool, scales, asked = told(case["low"], values, [zero])
    deltas, bests, limits_ = judge_told(rec, tool, scales, values, zero,
                                        case["limit"], case["given"],
                                        store_limit=False)
    rec.hit(case["limit"] in deltas or limits_[0] not in (None, bests[0]))
    rec.check(set(asked) >= set(i if x else None for i, x in
                                enumerate(scales)), "fitted at %s", asked)


@prop.facet(st.fixed_dictionaries({
    "first": crossings(), "steps": st.lists(st.tuples(
        st.sampled_from(["limit", "limit", "stored", "array", "statistics"]),
        st.integers(0, 1000)).map(list), min_size=1, max_size=4)}),
    quick=200, rule="the results of the fits change")
def in_turn(case, rec):
    """ Limits one after another, with other data each time. """
    from echidna.errors.custom_errors import LimitError
    from echidna.output import store
    case, steps = case["first"], case["steps"]
    values, zero = list(case["values"]), [0.]
    tool, scales, asked = told(case["low"], values, zero)
    path = os.path.join(rec.tmp(), "limit.hdf5")
    seen = []
    for what, number in [["limit", 0]] + steps:
        by = number % len(values)
        values[:] = [v + number % 3 for v in
                     case["values"][by:] + case["values"][:by]]
        zero[0] = case["zero"] + number % 7
        if case["low"] == 0.:
            values[0] = zero[0]
        seen.append(tuple(values))
        rec.label(what)
        del asked[:]
        if what == "array":
            above = [x for x, v in zip(scales, values) if v > case["limit"]]
            if not above:
                raises(rec, LimitError, lambda: tool.get_array_limit(
                    numpy.array(values), case["limit"]), "no value above")
            for entries in (numpy.array(values),
                            numpy.array([[v / 2.] * 2 for v in values])):
                if above:
                    found = tool.get_array_limit(entries, case["limit"])
                    rec.check(found == above[0], "limit %s, expected %s",
                              found, above[0])
        elif what == "statistics":
            expect_close(rec, tool.get_statistics(), values, "statistics")
        else:
            deltas, _, limits_ = judge_told(
                rec, tool, scales, values, zero[0], case["limit"],
                case["given"] if number % 2 else None,
                store_limit=what == "stored", limit_fname=path)
            if what == "stored":
                expect_close(rec, store.load_limit_results(
                    path).get_full_stats(), deltas, "statistics stored")
        if what != "array":
            rec.check(set(asked) >= set(i if x else None for i, x in
                                        enumerate(scales)), "fitted at %s",
                      asked)
    rec.hit(len(set(seen)) > 1)


@prop.facet(limits(), quick=100, rule="several scales")
def statistics(case, rec):
    """ get_statistics: the fit at every scale. """
    if case["per_bin"] and case["floating"]:
        return
    tool, fitter, members, statistic = prepare(case)
    case = dict(case, truth=-1)
    results, _ = results_of(case, statistic)
    if results is None:
        return
    rec.hit(len(results) > 2)
    found = tool.get_statistics()
    rec.check(len(found) == len(results) - 1, "%d statistics", len(found))
    for got, r in zip(found, results[1:]):
        if case["floating"]:    # statistic and penalty
            expect_close(rec, got, [r[0], math.fsum(r[1])], "statistic",
                         atol=1e-7 * (1. + abs(r[0])))
        else:
            expect_close(rec, got, r[0], "statistic")
