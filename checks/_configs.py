""" Configurations as plain cases: generated, built, and compared. """
import collections
import math

import numpy
from hypothesis import strategies as st

from checks._fits import *  # noqa
from vlib.common import *  # noqa

GLOBAL_KINDS = ["resolution", "resolution_ly", "scale", "shift"]
GLOBAL_DIMS = ["energy_mc", "radial_mc", "energy_reco", "radial3_reco", "n",
               "scale_mc", "a_energy_mc"]
RATES = ["rate", "B8_rate", "Tl208_rate", "2n2b_rate", "a_b_rate",
         "rate_of_x", "energy_mc_rate"]
NUMBERS = st.one_of(st.just(0.), dyadic(-20, 100), decimals(-50, 50, 3),
                    st.floats(-1e9, 1e9), st.floats(1e-12, 1e-3),
                    st.sampled_from([1e22, 1e-7, 1. / 3., 2.**60]))


@st.composite
def fit_par(draw, reached):
    """ Settings of one parameter; reached: results of a fit are set. """
    low = draw(numbers(-10, 50))
    par = {"low": low, "high": low + draw(positives(0.25, 60)),
           "bins": draw(st.integers(1, 12)), "prior": draw(NUMBERS),
           "sigma": draw(st.one_of(st.none(), positives(0.01, 10),
                                   st.integers(1, 5))),
           "spacing": draw(st.sampled_from(["linear", "linear", "logscale",
                                            "base", "logscale_deviation"]))}
    if par["spacing"] in ("logscale", "base"):
        par["low"] = abs(low) + 0.1
        par["high"] = par["low"] + 5.
    if par["spacing"] == "base":
        par["base"] = draw(st.sampled_from([2., 10., 1.5]))
    if par["spacing"] == "logscale_deviation":
        par["bins"] = 2 * (par["bins"] // 2) + 3
        par["prior"] = 0.5 * (par["low"] + par["high"])
    if reached:
        par["best_fit"] = draw(st.one_of(st.none(), NUMBERS))
        par["current"] = draw(st.one_of(st.none(), NUMBERS))
        par["penalty"] = draw(st.one_of(st.none(), NUMBERS))
        par["numpy"] = draw(st.booleans())
    return par


@st.composite
def global_pars(draw, max_pars=4):
    """ Systematics of any dimensions in any order. """
    keys = draw(st.lists(st.tuples(st.sampled_from(GLOBAL_DIMS),
                                   st.sampled_from(GLOBAL_KINDS)),
                         unique=True, max_size=max_pars))
    reached = draw(st.booleans())
    return [dict(draw(fit_par(reached)), kind=kind, dim=dim,
                 name=dim + "_" + kind) for dim, kind in keys]


@st.composite
def rate_pars(draw, max_pars=3, min_pars=0):
    names = draw(st.lists(st.sampled_from(RATES), unique=True,
                          min_size=min_pars, max_size=max_pars))
    reached = draw(st.booleans())
    return [dict(draw(fit_par(reached)), kind="rate", dim=None, name=name)
            for name in names]


def build_par(par):
    from echidna.core import parameter as module
    args = [par["name"], par["prior"], par["sigma"], par["low"], par["high"],
            par["bins"]]
    kwargs = {}
    if par["spacing"] in ("logscale", "base"):
        kwargs["logscale"] = True
    if par["spacing"] == "base":
        kwargs["base"] = par["base"]
    if par["spacing"] == "logscale_deviation":
        kwargs["logscale_deviation"] = True
    if par["kind"] == "rate":
        made = module.RateParameter(*args, **kwargs)
    else:
        kind = {"resolution": module.ResolutionParameter,
                "resolution_ly": module.ResolutionParameter,
                "scale": module.ScaleParameter,
                "shift": module.ShiftParameter}[par["kind"]]
        made = kind(*(args + [par["dim"]]), **kwargs)
    convert = numpy.float64 if par.get("numpy") else float
    for key, setter in (("best_fit", made.set_best_fit),
                        ("current", made.set_current_value),
                        ("penalty", made.set_penalty_term)):
        if par.get(key) is not None:
            setter(convert(par[key]))
    return made


def grid_of(par):
    """ The values, computed from the settings, or None (not checked). """
    n = par["bins"]
    if par["spacing"] == "linear":
        if n == 1:
            return [par["low"]]
        return [par["low"] + (par["high"] - par["low"]) * i / (n - 1.)
                for i in range(n)]
    if par["spacing"] in ("logscale", "base"):
        if n == 1:
            return [par["low"]]
        return [par["low"] * (par["high"] / par["low"]) ** (i / (n - 1.))
                for i in range(n)]
    return None


def compare_par(rec, made, par, what, results=True):
    """ made has the settings of par. """
    from echidna.core import parameter as module
    what = "%s of %s" % (what, par["name"])
    kinds = {"rate": module.RateParameter,
             "resolution": module.ResolutionParameter,
             "resolution_ly": module.ResolutionParameter,
             "scale": module.ScaleParameter, "shift": module.ShiftParameter}
    rec.check(type(made) is kinds[par["kind"]], "%s: made a %s", what,
              type(made))
    found = {"name": made.get_name(), "low": made.get_low(),
             "high": made.get_high(), "bins": made.get_bins(),
             "prior": made.get_prior(), "sigma": made.get_sigma(),
             "dim": made.get_dimension()}
    for key, value in found.items():
        rec.check(value == par[key] and (value is None) == (par[key] is None),
                  "%s: %s is %r, expected %r", what, key, value, par[key])
    if par["spacing"] == "base":
        told = made.to_dict(basic=True)["base"]
        rec.check(told == par["base"], "%s: base is %s, expected %s", what,
                  told, par["base"])
    if par["kind"] == "rate":
        rec.check(made._min == 0., "%s: the minimum is %s", what, made._min)
    wanted = grid_of(par)
    if wanted is not None:
        expect_close(rec, made.get_values(), wanted, what + ": values",
                     1e-9, 1e-9)
    else:
        fresh = build_par(par)
        expect_close(rec, made.get_values(), fresh.get_values(),
                     what + ": values", 0., 0.)
    for key, getter in (("best_fit", made.get_best_fit),
                        ("current", made.get_current_value),
                        ("penalty", made.get_penalty_term)):
        if results and par.get(key) is not None:
            rec.check(getter() == par[key], "%s: %s is %s, expected %s", what,
                      key, getter(), par[key])
        else:
            raises(rec, ValueError, getter, "%s: %s which is not set" %
                   (what, key))


def global_config(pars, rates, name="my_config", mixed=False):
    """ A GlobalFitConfig; mixed: rates are added in between. """
    from echidna.core.config import GlobalFitConfig
    made = GlobalFitConfig(name, collections.OrderedDict())
    order = list(pars) + list(rates)
    if mixed:
        order = [p for pair in zip(rates, pars) for p in pair] + \
            list(rates)[len(pars):] + list(pars)[len(rates):]
    for par in order:
        made.add_par(build_par(par), "spectra" if par["kind"] == "rate"
                     else "global")
    return made


def compare_global(rec, made, pars, rates, what, ordered=False,
                   results=True):
    """ made has these parameters, those of a dimension in their order. """
    names = list(made.get_pars())
    wanted = [p["name"] for p in pars] + [p["name"] for p in rates]
    rec.check(sorted(names) == sorted(wanted), "%s: parameters %s, expected "
              "%s", what, names, wanted)
    if ordered:
        rec.check(names == wanted, "%s: parameters %s, expected %s", what,
                  names, wanted)
    for dim in [None] + [p["dim"] for p in pars]:
        same = [p["name"] for p in pars + rates if p["dim"] == dim]
        rec.check([n for n in names if n in same] == same, "%s: the order "
                  "changed: %s, expected %s", what, names, wanted)
    rec.check(sorted(p.get_name() for p in made.get_global_pars()) ==
              sorted(p["name"] for p in pars), "%s: global parameters %s",
              what, [p.get_name() for p in made.get_global_pars()])
    rec.check([p.get_name() for p in made.get_spectra_pars()] ==
              [p["name"] for p in rates], "%s: spectral parameters %s",
              what, [p.get_name() for p in made.get_spectra_pars()])
    by_name = dict((p["name"], p) for p in pars + rates)
    rec.check(made.get_shape() == tuple(by_name[n]["bins"] for n in names),
              "%s: shape %s", what, made.get_shape())
    for i, name in enumerate(names):
        compare_par(rec, made.get_par(name), by_name[name], what, results)
        rec.check(made.get_index(name) == i and
                  made.get_par_by_index(i) is made.get_par(name),
                  "%s: %s is not found by its index", what, name)
    raises(rec, IndexError, lambda: made.get_index("unknown"),
           what + ": index of an unknown parameter")


def spectra_fit_config(rates, name="rates", spectra_name="B8"):
    from echidna.core.config import SpectraFitConfig
    return SpectraFitConfig(name, collections.OrderedDict(
        (p["name"], build_par(p)) for p in rates), spectra_name)


def compare_rates(rec, made, rates, what, results=True):
    names = list(made.get_pars())
    rec.check(names == [p["name"] for p in rates], "%s: parameters %s, "
              "expected %s", what, names, [p["name"] for p in rates])
    rec.check(made.get_shape() == tuple(p["bins"] for p in rates),
              "%s: shape %s", what, made.get_shape())
    for par in rates:
        compare_par(rec, made.get_par(par["name"]), par, what, results)


def compare_spectra_config(rec, made, axs, what):
    found = [(n, made.get_par(n).get_name(), made.get_par(n).get_low(),
              made.get_par(n).get_high(), made.get_par(n).get_bins())
             for n in made.get_pars()]
    wanted = [(a["name"], a["name"], a["low"], a["high"], a["bins"])
              for a in axs]
    rec.check(found == wanted, "%s: dimensions %s, expected %s", what, found,
              wanted)
    rec.check(made.get_shape() == tuple(a["bins"] for a in axs),
              "%s: shape %s", what, made.get_shape())
    dims = [a["name"].rsplit("_", 1) for a in axs]
    rec.check(sorted(made.get_dims()) == sorted(d[0] for d in dims),
              "%s: dimensions named %s", what, made.get_dims())
    for i, ax in enumerate(axs):
        rec.check(made.get_dim(ax["name"]) == dims[i][0] and
                  made.get_index(ax["name"]) == i and
                  made.get_par_by_index(i).get_name() == ax["name"],
                  "%s: %s is not found", what, ax["name"])
        if [d[0] for d in dims].count(dims[i][0]) == 1:
            rec.check(made.get_dim_type(dims[i][0]) == dims[i][1],
                      "%s: type of %s is %s", what, dims[i][0],
                      made.get_dim_type(dims[i][0]))
    raises(rec, IndexError, lambda: made.get_dim_type("unknown"),
           what + ": type of an unknown dimension")
    raises(rec, IndexError, lambda: made.get_index("unknown"),
           what + ": index of an unknown dimension")


@st.composite
def histories(draw):
    """ Configs to which parameters are added, and which are used. """
    steps = draw(st.lists(st.one_of(
        st.tuples(st.just("rate"), rate_pars(1, 1)),
        st.tuples(st.just("global"), global_pars(2)),
        st.tuples(st.just("axis"), axes(max_dims=1, max_bins=50)),
        st.tuples(st.just("reach"), st.tuples(st.integers(0, 9), NUMBERS,
                                              NUMBERS).map(list))
    ).map(list), min_size=1, max_size=4))
    return {"axes": draw(axes(max_dims=2)), "rates": draw(rate_pars(2, 1)),
            "pars": draw(global_pars(2)), "steps": steps}


def history(case):
    """ Yields the configs of a spectrum, of its rates and of a fit with
    those, and what should be in them, after each of the steps. """
    axs, rates = list(case["axes"]), list(case["rates"])
    pars = list(case["pars"])
    made = (make_config(axs), spectra_fit_config(rates),
            global_config(pars, rates))
    yield made, axs, rates, pars, "as made"

    def put(group, entry):
        for i, old in enumerate(group):
            if old["name"] == entry["name"]:
                group[i] = entry    # it keeps its place
                return
        group.append(entry)

    for number, (what, given) in enumerate(case["steps"]):
        if what == "axis":
            for ax in given:
                put(axs, ax)
                made[0].add_par(make_config([ax]).get_par(ax["name"]))
        elif what == "rate":
            for par in given:
                put(rates, par)
                made[1].add_par(build_par(par))
                made[2].add_par(build_par(par), "spectra")
        elif what == "global":
            for par in given:
                put(pars, par)
                made[2].add_par(build_par(par), "global")
        else:
            at, best, penalty = given
            group = [rates, pars][number % 2]
            if group:
                i = at % len(group)
                group[i] = dict(group[i], best_fit=best, current=penalty,
                                penalty=penalty)
                for config in made[1:]:
                    if group[i]["name"] in config.get_pars():
                        par = config.get_par(group[i]["name"])
                        par.set_best_fit(best)
                        par.set_current_value(penalty)
                        par.set_penalty_term(penalty)
        yield made, axs, rates, pars, "after step %d" % number
