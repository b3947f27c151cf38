""" C19 - results of fits and limits keep what is put in them. """
import numpy
from hypothesis import strategies as st

from checks._fits import *  # noqa
from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C19")
VALUES = st.one_of(st.just(0.), dyadic(-20, 100), st.floats(-1e6, 1e6))


@st.composite
def bookings(draw):
    pars = draw(fit_pars(max_pars=4, min_pars=0))
    rate = dict(draw(grid(6)), kind="rate", name="rate", dim=None)
    axs = draw(axes(max_dims=2, max_cells=6, max_bins=3))
    per_bin = draw(st.integers(0, 2)) == 0
    steps = []
    kinds = ["best", "penalty", "best", "penalty", "stat", "stat", "fit"]
    for _ in range(draw(st.integers(0, 14))):
        kind = draw(st.sampled_from(kinds if pars else ["stat", "fit"]))
        step = {"do": kind, "at": draw(st.integers(0, rate["bins"] - 1))}
        if kind in ("best", "penalty"):
            step["par"] = draw(st.integers(0, len(pars) - 1))
            step["value"] = draw(VALUES)
        elif kind == "stat":
            n = cells_of(axs) if per_bin else 1
            step["value"] = draw(st.lists(VALUES, min_size=n, max_size=n))
        steps.append(step)
    return {"pars": pars, "rate": rate, "axes": axs, "per_bin": per_bin,
            "steps": steps, "name": draw(st.sampled_from([None, "mine"])),
            "config_name": draw(st.sampled_from(["signal", "x.y"]))}


def limit_results(case):
    from echidna.core.config import SpectraFitConfig
    from echidna.fit.fit_results import LimitResults
    config = make_fit_config(case["pars"])
    spectra_config = make_config(case["axes"], case["config_name"])
    limit_config = SpectraFitConfig("limit", collections.OrderedDict(
        rate=make_par(case["rate"], "rate")), "signal")
    kept = LimitResults(config, spectra_config, limit_config,
                        **({"name": case["name"]} if case["name"] else {}))
    if case["per_bin"]:     # as echidna.limit.limit makes them
        kept._stats = numpy.zeros((case["rate"]["bins"],) + tuple(
            ax["bins"] for ax in case["axes"]))
    return kept, config, spectra_config, limit_config


def read_all(kept, case, rec, best, penalties, stats, what):
    names = [par["name"] for par in case["pars"]]
    for k, name in enumerate(names):
        expect_close(rec, kept.get_best_fits(name), best[:, k],
                     "best fits of %s%s" % (name, what), 0., 0.)
        expect_close(rec, kept.get_penalty_terms(name), penalties[:, k],
                     "penalty terms of %s%s" % (name, what), 0., 0.)
        for i in range(len(stats)):
            rec.check(kept.get_best_fit(i, name) == best[i, k],
                      "best fit of %s at scale %d%s: %s, expected %s", name,
                      i, what, kept.get_best_fit(i, name), best[i, k])
            rec.check(kept.get_penalty_term(i, name) == penalties[i, k],
                      "penalty of %s at scale %d%s: %s, expected %s", name, i,
                      what, kept.get_penalty_term(i, name), penalties[i, k])
    expect_close(rec, kept.get_stats(), stats, "statistics" + what, 0., 0.)
    full = [float(numpy.sum(stats[i])) + float(penalties[i].sum())
            for i in range(len(stats))]
    scale = 1e-12 * (1. + numpy.abs(stats).sum() + numpy.abs(penalties).sum())
    expect_close(rec, kept.get_full_stats(), full, "full statistics" + what,
                 1e-12, scale)
    for i in range(len(stats)):
        expect_close(rec, kept.get_penalty_terms_at_scale(i), penalties[i],
                     "penalties at scale %d%s" % (i, what), 0., 0.)
        expect_close(rec, kept.get_limit_stat(i), stats[i],
                     "statistic at scale %d%s" % (i, what), 0., 0.)
        expect_close(rec, kept.get_full_stat(i), full[i],
                     "full statistic at scale %d%s" % (i, what), 1e-12, scale)


@prop.facet(bookings(), quick=1200, rule="at least three entries are set")
def booking(case, rec):
    """ Every entry is where it was put and nowhere else. """
    kept, config, spectra_config, limit_config = limit_results(case)
    n, m = case["rate"]["bins"], len(case["pars"])
    best, penalties = numpy.zeros((n, m)), numpy.zeros((n, m))
    stats = numpy.zeros((n,) + (tuple(ax["bins"] for ax in case["axes"])
                                if case["per_bin"] else ()))
    fits_ = [None] * n
    rec.hit(len(case["steps"]) >= 3)
    rec.check(kept.get_name() == (case["name"] or case["config_name"] +
                                  "_limit_results"), "named %s",
              kept.get_name())
    rec.check(kept.get_fit_config() is config and
              kept.get_spectra_config() is spectra_config, "other configs")
    expect_close(rec, kept.get_scales(),
                 limit_config.get_par("rate").get_values(), "scales", 0., 0.)
    read_all(kept, case, rec, best, penalties, stats, " at first")
    for number, step in enumerate(case["steps"]):
        i = step["at"]
        if step["do"] == "best":
            best[i, step["par"]] = step["value"]
            kept.set_best_fit(i, step["value"],
                              case["pars"][step["par"]]["name"])
        elif step["do"] == "penalty":
            penalties[i, step["par"]] = step["value"]
            kept.set_penalty_term(i, step["value"],
                                  case["pars"][step["par"]]["name"])
        elif step["do"] == "stat":
            value = numpy.array(step["value"]).reshape(stats.shape[1:])
            stats[i] = value
            kept.set_limit_stat(i, value if case["per_bin"]
                                else float(value))
        else:
            fits_[i] = object()
            kept.set_fit_result(i, fits_[i])
        if number in (0, 5):
            read_all(kept, case, rec, best, penalties, stats,
                     " after %s" % step)
    read_all(kept, case, rec, best, penalties, stats, " at last")
    rec.check(all(a is b for a, b in zip(kept._fit_results, fits_)) and
              len(kept._fit_results) == n, "other fit results")
    raises(rec, IndexError, lambda: kept.get_best_fits("unknown"),
           "an unknown parameter")
    # another of these does not share anything
    other = limit_results(case)[0]
    read_all(other, case, rec, best * 0., penalties * 0., stats * 0.,
             " of new results")


@prop.facet(st.fixed_dictionaries({
    "pars": fit_pars(max_pars=4, min_pars=0), "axes": axes(max_dims=2),
    "name": st.sampled_from([None, "mine", ""]),
    "values": st.lists(st.tuples(VALUES, VALUES), min_size=4, max_size=4),
    "unset": st.sampled_from([None, None, 0, 1, 2, 3]),
    "half": st.booleans()}), quick=800, rule="several parameters")
def summary(case, rec):
    """ The summary has the best fits and penalties of all parameters. """
    from echidna.fit.fit_results import FitResults
    config = make_fit_config(case["pars"], "the_fit")
    spectra_config = make_config(case["axes"])
    kept = FitResults(config, spectra_config, **(
        {"name": case["name"]} if case["name"] is not None else {}))
    rec.check(kept.get_name() == ("the_fit_results" if case["name"] is None
                                  else case["name"]), "named %s",
              kept.get_name())
    rec.check(kept.get_fit_config() is config and
              kept.get_spectra_config() is spectra_config, "other configs")
    names = [par["name"] for par in case["pars"]]
    rec.hit(len(names) > 1)
    for k, (name, (best, penalty)) in enumerate(zip(names, case["values"])):
        if k != case["unset"] or case["half"]:
            config.get_par(name).set_best_fit(best)
        if k != case["unset"]:
            config.get_par(name).set_penalty_term(penalty)
    if case["unset"] is not None and case["unset"] < len(names):
        raises(rec, ValueError, kept.get_summary, "the summary without all "
               "results")
        return
    for values in (case["values"], case["values"][::-1]):
        for name, (best, penalty) in zip(names, values):
            config.get_par(name).set_best_fit(best)
            config.get_par(name).set_penalty_term(penalty)
        judge_summary(kept, rec, names, values)
    for _ in range(2):      # there is nothing but the configs last set
        config = make_fit_config(case["pars"])
        spectra_config = make_config(case["axes"])
        kept.set_fit_config(config)
        kept.set_spectra_config(spectra_config)
        rec.check(kept.get_fit_config() is config and
                  kept.get_spectra_config() is spectra_config,
                  "configs were not set")
        for name, (best, penalty) in zip(names, case["values"]):
            config.get_par(name).set_best_fit(penalty)
            config.get_par(name).set_penalty_term(best)
        judge_summary(kept, rec, names, [pair[::-1] for pair in
                                         case["values"]])


def judge_summary(kept, rec, names, values):
    found = kept.get_summary()
    rec.check(list(found.keys()) == names, "parameters %s, expected %s",
              list(found.keys()), names)
    for name, (best, penalty) in zip(names, values):
        rec.check(dict(found[name]) == {"best_fit": best,
                                        "penalty_term": penalty},
                  "summary of %s: %s, expected %s and %s", name, found[name],
                  best, penalty)
