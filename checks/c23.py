""" C23 - stored results of fits and limits are loaded as they were. """
import os

from hypothesis import strategies as st

from checks._configs import *  # noqa
from checks.c19 import VALUES
from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C23")


@st.composite
def some_pars(draw, max_points=30):
    """ Systematics in any order and rates, few points. """
    pars = draw(global_pars(3))
    rates = draw(rate_pars(2))
    points = 1
    for par in pars + rates:
        if par["spacing"] == "logscale_deviation":
            par["bins"] = 3
        par["bins"] = min(par["bins"], max(1, max_points // points))
        if par["spacing"] == "logscale_deviation" and par["bins"] < 3:
            par["spacing"] = "linear"
        points *= par["bins"]
    return {"pars": pars, "rates": rates}


def table(values, shape):
    n = int(numpy.prod(shape, dtype=int))
    return numpy.array([values[(7 * i + i // len(values)) % len(values)] +
                        i * 0.125 for i in range(n)]).reshape(shape)


def total_shape(pars):
    return tuple(p["bins"] for p in pars)


@st.composite
def fit_results(draw):
    case = draw(some_pars())
    if not case["pars"] and not case["rates"]:
        case["rates"] = [dict(draw(fit_par(False)), kind="rate", dim=None,
                              name="rate")]
    case.update({
        "axes": draw(axes(max_dims=2, max_cells=6, max_bins=3)),
        "per_bin": draw(st.booleans()), "resets": draw(st.integers(0, 3)),
        "stats": draw(st.lists(VALUES, min_size=1, max_size=9)),
        "penalties": draw(st.lists(VALUES, min_size=1, max_size=9)),
        "name": draw(st.sampled_from([None, "mine"])),
        "mixed": draw(st.booleans()), "append": draw(st.booleans())})
    return case


def make_search(case, config):
    from echidna.fit.minimise import GridSearch
    shape = config.get_shape()
    spectral = tuple(ax["bins"] for ax in case["axes"]) \
        if case["per_bin"] else ()
    made = GridSearch(config, make_config(case["axes"], "the data"),
                      per_bin=case["per_bin"], **(
                          {"name": case["name"]} if case["name"] else {}))
    stats = table(case["stats"], shape + spectral)
    penalties = table(case["penalties"], shape)
    if case.get("empty"):
        stats, penalties = stats * 0., penalties * 0.
    made.set_stats(stats.copy())
    made.set_penalty_terms(penalties.copy())
    made._resets = float(case["resets"])
    return made, stats, penalties


def compare_search(rec, found, made, case, stats, penalties, what):
    expect_close(rec, found._stats, stats, what + ": statistics", 0., 0.)
    expect_close(rec, found._penalty_terms, penalties,
                 what + ": penalty terms", 0., 0.)
    if case["per_bin"]:
        total = stats.sum(axis=tuple(range(
            stats.ndim - len(case["axes"]), stats.ndim))) + penalties
    else:
        total = stats + penalties
    expect_close(rec, found.get_stats(), total, what + ": totals", 1e-12,
                 1e-12 * (1. + numpy.abs(stats).sum()))
    rec.check(found.get_resets() == case["resets"], "%s: %s resets", what,
              found.get_resets())
    rec.check(bool(found._per_bin) == case["per_bin"], "%s: per bin is %s",
              what, found._per_bin)


@prop.facet(fit_results(), quick=400, rule="several parameters")
def fits(case, rec):
    """ Results of a fit. """
    from echidna.output import store
    pars, rates = case["pars"], case["rates"]
    config = global_config(pars, rates, mixed=case["mixed"])
    names = list(config.get_pars())
    made, stats, penalties = make_search(case, config)
    path = os.path.join(rec.tmp(), "fit.hdf5")
    rec.hit(len(names) > 1)
    if case["append"]:
        spec = make_spectrum({"axes": case["axes"], "num_decays": 3.,
                              "data": [4] * cells_of(case["axes"])})
        store.dump(path, spec)
        store.dump_fit_results(path, made, append=True)
        expect_close(rec, store.load(path).get_data(), spec.get_data(),
                     "a spectrum in the same file", 0., 0.)
    else:
        store.dump_fit_results(path, made)
    compare_search(rec, made, made, case, stats, penalties, "after storing")
    found = store.load_fit_results(path)
    compare_search(rec, found, made, case, stats, penalties, "loaded")
    rec.check(found.get_name() == (case["name"] or "my_config_results"),
              "named %s", found.get_name())
    config_ = found.get_fit_config()
    rec.check(list(config_.get_pars()) == names, "parameters %s, expected %s",
              list(config_.get_pars()), names)
    rec.check(config_.get_name() == "my_config", "the fit config is named %s",
              config_.get_name())
    compare_global(rec, config_, pars, rates, "loaded")
    compare_spectra_config(rec, found.get_spectra_config(), case["axes"],
                           "loaded")
    rec.check(found.get_spectra_config().get_name() == "the data",
              "spectra config %s", found.get_spectra_config().get_name())
    if all(p.get("best_fit") is not None and p.get("penalty") is not None
           for p in pars + rates):
        rec.label("with summary")
        summary = found.get_summary()
        for par in pars + rates:
            rec.check(dict(summary[par["name"]]) == {
                "best_fit": par["best_fit"], "penalty_term": par["penalty"]},
                "summary %s of %s", summary[par["name"]], par)
    again = os.path.join(rec.tmp(), "again.hdf5")
    store.dump_fit_results(again, found)
    compare_search(rec, store.load_fit_results(again), made, case, stats,
                   penalties, "stored again")


@st.composite
def limit_results(draw):
    case = draw(fit_results())
    if draw(st.integers(0, 5)) == 0:
        case["pars"], case["rates"] = [], []
    case["signal"] = dict(draw(fit_par(False)), kind="rate", dim=None,
                          name="rate")
    case["signal"]["bins"] = max(3 if case["signal"]["spacing"] ==
                                 "logscale_deviation" else 1,
                                 min(5, case["signal"]["bins"]))
    if draw(st.integers(0, 7)) == 0:    # more than ten scales
        case["signal"]["bins"] = draw(st.integers(11, 13))
    n = case["signal"]["bins"]
    case["fits"] = draw(st.lists(st.booleans(), min_size=n, max_size=n)) \
        if draw(st.booleans()) and case["pars"] + case["rates"] else \
        [False] * n
    case["limit_per_bin"] = draw(st.integers(0, 3)) == 0
    case["zero"] = draw(st.booleans())
    case["below"] = draw(st.integers(0, 3)) == 0
    return case


@prop.facet(limit_results(), quick=400, rule="several parameters and scales")
def limits(case, rec):
    """ Results of setting a limit, with and without the fits. """
    from echidna.fit.fit_results import LimitResults
    from echidna.output import store
    pars, rates = case["pars"], case["rates"]
    config = global_config(pars, rates, mixed=case["mixed"])
    names = list(config.get_pars())
    scales = case["signal"]["bins"]
    rec.hit(len(names) > 1 and scales > 1)
    limit_config = spectra_fit_config([case["signal"]], "signal rates",
                                      "Te130")
    made = LimitResults(config, make_config(case["axes"], "the data"),
                        limit_config, **(
                            {"name": case["name"]} if case["name"] else {}))
    shape = (scales,) + (tuple(ax["bins"] for ax in case["axes"])
                         if case["limit_per_bin"] else ())
    stats = table(case["stats"], shape)
    made._stats = stats.copy()
    best = table(case["penalties"], (scales, len(names)))
    penalties = table(case["stats"], (scales, len(names)))
    if case["zero"]:
        penalties = penalties * 0.
    if case["below"]:   # no best fit is above zero
        best = -numpy.abs(best)
    for i in range(scales):
        for k, name in enumerate(names):
            made.set_best_fit(i, best[i, k], name)
            made.set_penalty_term(i, penalties[i, k], name)
    kept = []
    for i, keep in enumerate(case["fits"]):
        kept.append(None)
        if keep:
            shifted = dict(case, stats=[v + i for v in case["stats"]],
                           empty=case["zero"] and i % 2 == 1)
            kept[-1] = make_search(shifted, global_config(
                pars, rates, mixed=case["mixed"])) + (shifted,)
            made.set_fit_result(i, kept[-1][0])
    rec.label("with fits" if any(case["fits"]) else "without fits")
    path = os.path.join(rec.tmp(), "limit.hdf5")
    if case["append"] and names:
        search = make_search(case, config)[0]
        store.dump_fit_results(path, search)
        store.dump_limit_results(path, made, append=True)
        expect_close(rec, store.load_fit_results(path)._stats, search._stats,
                     "fit results in the same file", 0., 0.)
    else:
        store.dump_limit_results(path, made)
    found = store.load_limit_results(path)
    for what in ("loaded", "stored again"):
        rec.check(list(found.get_fit_config().get_pars()) == names,
                  "%s: parameters %s, expected %s", what,
                  list(found.get_fit_config().get_pars()), names)
        compare_global(rec, found.get_fit_config(), pars, rates, what)
        compare_spectra_config(rec, found.get_spectra_config(), case["axes"],
                               what)
        compare_rates(rec, found._limit_config, [case["signal"]], what)
        rec.check((found.get_name(), found.get_fit_config().get_name(),
                   found.get_spectra_config().get_name(),
                   found._limit_config.get_name(),
                   found._limit_config._spectra_name) ==
                  (case["name"] or "the data_limit_results", "my_config",
                   "the data", "signal rates", "Te130"), "%s: other names",
                  what)
        expect_close(rec, found.get_stats(), stats, what + ": statistics", 0.,
                     0.)
        expect_close(rec, found.get_scales(), limit_config.get_par(
            "rate").get_values(), what + ": scales", 0., 0.)
        for k, name in enumerate(names):
            expect_close(rec, found.get_best_fits(name), best[:, k],
                         "%s: best fits of %s" % (what, name), 0., 0.)
            expect_close(rec, found.get_penalty_terms(name), penalties[:, k],
                         "%s: penalty terms of %s" % (what, name), 0., 0.)
        expect_close(rec, found.get_full_stats(), made.get_full_stats(),
                     what + ": full statistics", 0., 0.)
        for i in range(scales):
            fit = found._fit_results[i]
            if kept[i] is None:
                rec.check(fit is None, "%s: a fit at scale %d", what, i)
                continue
            rec.check(fit is not None, "%s: no fit at scale %d", what, i)
            compare_search(rec, fit, kept[i][0], kept[i][3], kept[i][1],
                           kept[i][2], "%s: fit at scale %d" % (what, i))
            rec.check(list(fit.get_fit_config().get_pars()) == names,
                      "%s: parameters of a fit", what)
            for k, name in enumerate(names):
                rec.check(fit.get_fit_config().get_par(name).get_best_fit() ==
                          best[i, k], "%s: best fit of %s at scale %d: %s, "
                          "expected %s", what, name, i, fit.get_fit_config()
                          .get_par(name).get_best_fit(), best[i, k])
            summary = fit.get_summary()
            rec.check(list(summary) == names, "%s: summary of %s", what,
                      list(summary))
            for k, name in enumerate(names):
                rec.check(dict(summary[name]) == {
                    "best_fit": best[i, k], "penalty_term": penalties[i, k]},
                    "%s: summary of %s at scale %d: %s, expected %s and %s",
                    what, name, i, summary[name], best[i, k],
                    penalties[i, k])
        again = os.path.join(rec.tmp(), "again.hdf5")
        store.dump_limit_results(again, found)
        found = store.load_limit_results(again)


class Holder(object):
    """ Any object with arrays. """


@prop.facet(st.fixed_dictionaries({
    "arrays": st.dictionaries(st.sampled_from("abcde"), st.tuples(
        st.sampled_from([[1], [3], [2, 2], [2, 1, 3]]),
        st.lists(VALUES, min_size=1, max_size=5)), max_size=3),
    "values": st.dictionaries(st.sampled_from("stuvw"), st.one_of(
        st.none(), NUMBERS, st.integers(-10 ** 9, 10 ** 9), st.booleans(),
        st.text("abc_ ", max_size=5)), max_size=4),
    "missing": st.booleans(), "large": st.sampled_from(
        [0, 0, 0, 0, 5000, 60000, 70000])
    }), quick=300, rule="arrays and other values")
def arrays(case, rec):
    """ Objects which mainly hold arrays. """
    from echidna.output import store
    made = Holder()
    rec.hit(case["arrays"] and case["values"])
    for key, (shape, values) in case["arrays"].items():
        setattr(made, "_" + key, table(values, tuple(shape)))
    for key, value in case["values"].items():
        setattr(made, "_" + key, value)
    path = os.path.join(rec.tmp(), "arrays.hdf5")
    if case["large"]:
        made._large = "x" * case["large"]
    if case["large"] > 65536:
        raises(rec, AttributeError, lambda: store.dump_ndarray(path, made),
               "an attribute of 70000 bytes")
        return
    store.dump_ndarray(path, made)
    into = Holder()
    for key, (shape, _) in case["arrays"].items():
        setattr(into, "_" + key, numpy.zeros(1))
    for key in case["values"]:
        setattr(into, "_" + key, "default")
    if case["missing"]:
        into._other = 17
    into._large = None
    found = store.load_ndarray(path, into)
    rec.check(found._large == ("x" * case["large"] if case["large"] else None),
              "a value of %d characters is lost", case["large"])
    rec.check(found is into, "another object is returned")
    for key, (shape, values) in case["arrays"].items():
        expect_close(rec, getattr(found, "_" + key),
                     table(values, tuple(shape)), "array " + key, 0., 0.)
    for key, value in case["values"].items():
        wanted = "default" if value is None else value
        rec.check(getattr(found, "_" + key) == wanted, "%s is %r, expected "
                  "%r", key, getattr(found, "_" + key), wanted)
    rec.check(not case["missing"] or found._other == 17, "an attribute which "
              "is not in the file became %r", getattr(found, "_other", None))


@prop.facet(fit_results().filter(lambda c: c["pars"] or c["rates"]),
            quick=100, rule="another shape")
def rejected(case, rec):
    """ Statistics which do not fit the configs are not loaded. """
    from echidna.output import store
    config = global_config(case["pars"], case["rates"])
    made, stats, penalties = make_search(case, config)
    wrong = stats[..., :-1] if stats.shape[-1] > 1 else \
        numpy.zeros(stats.shape + (2,))
    spectral = tuple(ax["bins"] for ax in case["axes"])
    if wrong.shape in (config.get_shape(), config.get_shape() + spectral):
        return
    rec.hit()
    made._stats = wrong
    path = os.path.join(rec.tmp(), "fit.hdf5")
    store.dump_fit_results(path, made)
    raises(rec, ValueError, lambda: store.load_fit_results(path),
           "statistics of shape %s for %s" % (wrong.shape, stats.shape))
