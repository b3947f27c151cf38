""" C20 - configurations survive being dumped to dictionaries. """
import json

from hypothesis import strategies as st

from checks._configs import *  # noqa
from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C20")
WAYS = st.sampled_from(["as it is", "json"])


def through(dumped, way):
    if way == "json":   # as echidna.output.store does
        return json.loads(json.dumps(dumped),
                          object_pairs_hook=collections.OrderedDict)
    return dumped


@prop.facet(st.fixed_dictionaries({
    "axes": axes(names=DIMS + ["time_abs_reco", "x_y_z_mc"], max_dims=4,
                 max_cells=10 ** 6, max_bins=500),
    "way": WAYS, "name": st.sampled_from([None, "mine"])}), quick=500,
    rule="several dimensions")
def spectra(case, rec):
    """ Dimensions of a spectrum. """
    from echidna.core.config import SpectraConfig
    made = make_config(case["axes"], "a name")
    rec.hit(len(case["axes"]) > 1)
    compare_spectra_config(rec, made, case["axes"], "as made")
    rec.check(made.get_type() == "spectra" and made.get_name() == "a name",
              "type %s, name %s", made.get_type(), made.get_name())
    kwargs = {} if case["name"] is None else {"name": case["name"]}
    loaded = SpectraConfig.load(through(made.dump(), case["way"]), **kwargs)
    compare_spectra_config(rec, loaded, case["axes"], "loaded")
    compare_spectra_config(rec, made, case["axes"], "after dumping")
    rec.check(case["name"] in (None, loaded.get_name()), "named %s",
              loaded.get_name())
    rec.check(json.dumps(loaded.dump()) == json.dumps(made.dump()),
              "dumped again: %s, at first %s", loaded.dump(), made.dump())


@prop.facet(st.fixed_dictionaries({
    "rates": rate_pars(min_pars=1), "way": WAYS, "basic": st.booleans(),
    "name": st.sampled_from([None, "mine"])}), quick=500,
    rule="several rates")
def rates(case, rec):
    """ Rates of a spectrum. """
    from echidna.core.config import SpectraFitConfig
    made = spectra_fit_config(case["rates"])
    rec.hit(len(case["rates"]) > 1)
    compare_rates(rec, made, case["rates"], "as made")
    dumped = made.dump(basic=True) if case["basic"] else made.dump()
    kwargs = {} if case["name"] is None else {"name": case["name"]}
    loaded = SpectraFitConfig.load(through(dumped, case["way"]), "Tl208",
                                   **kwargs)
    compare_rates(rec, loaded, case["rates"], "loaded",
                  results=not case["basic"])
    compare_rates(rec, made, case["rates"], "after dumping")
    rec.check(loaded.get_name() == (case["name"] or "spectral_fit_config") and
              loaded._spectra_name == "Tl208" and
              loaded.get_type() == "spectra_fit", "name %s of %s, type %s",
              loaded.get_name(), loaded._spectra_name, loaded.get_type())


@prop.facet(st.fixed_dictionaries({
    "pars": global_pars(), "rates": rate_pars(), "way": WAYS,
    "basic": st.booleans(), "mixed": st.booleans(),
    "alone": st.integers(0, 3).map(lambda n: n == 0),
    "name": st.sampled_from([None, "mine"])}), quick=700,
    rule="several parameters")
def global_fit(case, rec):
    """ Global and spectral parameters of a fit. """
    from echidna.core.config import GlobalFitConfig
    pars, rates_ = case["pars"], case["rates"]
    made = global_config(pars, rates_, mixed=case["mixed"])
    rec.hit(len(pars) + len(rates_) > 1)
    rec.label("interleaved" if [p["dim"] for p in pars] != sorted(
        [p["dim"] for p in pars], key=[p["dim"] for p in pars].index)
        else "grouped")
    compare_global(rec, made, pars, rates_, "as made",
                   ordered=not case["mixed"])
    rec.check(made.get_type() == "global_fit", "type %s", made.get_type())
    first, second = made.dump(basic=True) if case["basic"] else made.dump()
    first, second = through(first, case["way"]), through(second, case["way"])
    kwargs = {} if case["name"] is None else {"name": case["name"]}
    if case["alone"]:
        rates_ = []
    else:
        kwargs["spectral_config"] = second
    loaded = GlobalFitConfig.load(first, **kwargs)
    dims = [p["dim"] for p in pars]
    compare_global(rec, loaded, pars, rates_, "loaded",
                   ordered=dims == sorted(dims, key=dims.index),
                   results=not case["basic"])
    rec.check(loaded.get_name() == (case["name"] or "global_fit_config"),
              "named %s", loaded.get_name())
    compare_global(rec, made, pars, case["rates"], "after dumping",
                   ordered=not case["mixed"])


@prop.facet(st.fixed_dictionaries({
    "pars": global_pars(3), "rates": rate_pars(3),
    "more": st.lists(st.one_of(
        st.tuples(st.just("spectra"), st.sampled_from(["B8", "Tl208", "x_y", "B8_mc",
                                                 "Tl208_mc_reco"]),
                  rate_pars(2, 1)),
        st.tuples(st.just("global"), global_pars(2), rate_pars(2))),
        max_size=3), "bad": st.booleans(),
    "swap": st.one_of(st.none(), st.tuples(st.integers(0, 9), fit_par(False)))
    }), quick=500,
    rule="at least two configs are added")
def adding(case, rec):
    """ Adding configs: later parameters replace those of the same name. """
    made = global_config(case["pars"], case["rates"])
    model = collections.OrderedDict((p["name"], p) for p in
                                    case["pars"] + case["rates"])
    rec.hit(len(case["more"]) > 1)
    for kind, what, rates_ in case["more"]:
        if kind == "spectra":
            made.add_config(spectra_fit_config(rates_, spectra_name=what))
            for par in rates_:
                name = what + "_" + par["name"]
                model[name] = dict(par, name=name)
        else:
            made.add_config(global_config(what, rates_))
            for par in what + rates_:
                model[par["name"]] = par
    if case["bad"]:
        raises(rec, ValueError, lambda: made.add_config(make_config(
            [{"name": "energy_mc", "low": 0., "high": 1., "bins": 2}])),
            "adding a spectrum's config")
        raises(rec, IndexError, lambda: made.add_par(build_par(dict(
            name="x_rate", kind="rate", dim=None, low=0., high=1., bins=3,
            prior=1., sigma=None, spacing="linear")), "other"),
            "an unknown type of parameter")
    if case["swap"] and model:
        # one of the same name and of the other kind
        at, new = case["swap"]
        old = list(model.values())[at % len(model)]
        new = dict(new, name=old["name"], kind="rate", dim=None) \
            if old["kind"] != "rate" else dict(
                new, name=old["name"], kind="shift", dim="energy_mc")
        made.add_par(build_par(new), "spectra" if new["kind"] == "rate"
                     else "global")
        model[old["name"]] = new
        rec.label("another kind")
    pars = [p for p in model.values() if p["kind"] != "rate"]
    rates_ = [p for p in model.values() if p["kind"] == "rate"]
    rec.check(list(made.get_pars()) == list(model), "parameters %s, expected "
              "%s", list(made.get_pars()), list(model))
    compare_global(rec, made, pars, rates_, "after adding")


@st.composite
def written(draw):
    """ Dictionaries as users write them, right and wrong. """
    kind = draw(st.sampled_from(["spectra", "rates", "global", "both"]))
    wrong = draw(st.sampled_from([None, None, "key", "unknown"]))
    def pars(names):
        return [[n, draw(st.fixed_dictionaries(dict(
            {"low": st.sampled_from([0, 0., 1.5]),
             "high": st.sampled_from([10, 2.5, 7]),
             "bins": st.integers(1, 100)},
            **({} if kind == "spectra" else {
                "prior": st.sampled_from([1, 1., 2.5]),
                "sigma": st.sampled_from([None, 0.1, 1])}))))]
            for n in names]
    entries = {"wrong": wrong, "kind": kind}
    if kind == "spectra":
        entries["axes"] = pars(draw(st.lists(st.sampled_from(DIMS),
                                             min_size=1, max_size=3,
                                             unique=True)))
    if kind in ("rates", "both"):
        entries["rates"] = pars(draw(st.lists(st.sampled_from(RATES),
                                              min_size=1, max_size=3,
                                              unique=True)))
    if kind in ("global", "both"):
        entries["globals"] = [
            [dim, pars(draw(st.lists(st.sampled_from(GLOBAL_KINDS),
                                     min_size=1, max_size=3, unique=True)))]
            for dim in draw(st.lists(st.sampled_from(GLOBAL_DIMS), min_size=1,
                                     max_size=2, unique=True))]
    entries["unknown"] = draw(st.integers(0, 3))
    return entries


def full(name, settings, kind="rate", dim=None):
    return dict(settings, name=name, kind=kind, dim=dim, spacing="linear",
                low=float(settings["low"]), high=float(settings["high"]),
                prior=float(settings["prior"]))


@prop.facet(written(), quick=500, rule="a wrong dictionary or several "
            "parameters")
def loading(case, rec):
    """ Dictionaries of the documented format; wrong ones are rejected. """
    from echidna.core.config import (GlobalFitConfig, SpectraConfig,
                                     SpectraFitConfig)
    order = collections.OrderedDict
    kind, wrong = case["kind"], case["wrong"]
    rec.label(kind, "wrong " + wrong if wrong else "right")
    rec.hit(wrong or kind == "both" or len(case.get("axes", [])) > 1)
    if kind == "spectra":
        config = {"parameters" if wrong != "key" else "params":
                  order((n, dict(s)) for n, s in case["axes"])}
        if wrong == "key":
            raises(rec, KeyError, lambda: SpectraConfig.load(config),
                   "a dictionary without parameters")
            return
        compare_spectra_config(rec, SpectraConfig.load(config), [
            dict(s, name=n) for n, s in case["axes"]], "loaded")
        return
    rates_ = [full(n, s) for n, s in case.get("rates", [])]
    spectral = {"spectral_fit_parameters" if wrong != "key" else "pars":
                order((n, dict(s)) for n, s in case.get("rates", []))}
    if wrong == "unknown" and rates_:
        spectral["spectral_fit_parameters"][
            ["speed", "rat", "resolution", "Rate"][case["unknown"]]] = dict(
            case["rates"][0][1])
    error = {"key": KeyError, "unknown": IndexError}.get(wrong)
    if kind == "rates":
        if wrong:
            raises(rec, error, lambda: SpectraFitConfig.load(spectral, "s"),
                   "a wrong dictionary")
        else:
            compare_rates(rec, SpectraFitConfig.load(spectral, "s"), rates_,
                          "loaded")
        return
    pars = [full(dim + "_" + n, s, n, dim) for dim, entries in
            case["globals"] for n, s in entries]
    wrong_global = wrong and not rates_
    config = {"global_fit_parameters" if not wrong_global or wrong != "key"
              else "fit_parameters": order(
                  (dim, order((n, dict(s)) for n, s in entries))
                  for dim, entries in case["globals"])}
    if wrong_global and wrong == "unknown":
        config["global_fit_parameters"][case["globals"][0][0]][
            ["tilt", "resolution_rs", "Scale", "shift2"][case["unknown"]]] = \
            dict(case["globals"][0][1][0][1])
    args = [config] + ([spectral] if kind == "both" else [])
    if wrong:
        raises(rec, error, lambda: GlobalFitConfig.load(*args),
               "a wrong dictionary")
    else:
        compare_global(rec, GlobalFitConfig.load(*args), pars, rates_,
                       "loaded", ordered=True)


@prop.facet(histories(), quick=200, rule="something was added")
def in_turn(case, rec):
    """ Parameters are added and fitted: what is dumped is what is there. """
    from echidna.core.config import (GlobalFitConfig, SpectraConfig,
                                     SpectraFitConfig)
    rec.hit(any(kind != "reach" for kind, _ in case["steps"]))
    kept = []
    for made, axs, rates_, pars, what in history(case):
        compare_spectra_config(rec, made[0], axs, what)
        compare_rates(rec, made[1], rates_, what)
        compare_global(rec, made[2], pars, rates_, what)
        first, second = made[2].dump()
        kept.append([
            SpectraConfig.load(through(made[0].dump(), "json")),
            SpectraFitConfig.load(through(made[1].dump(), "json"), "B8"),
            GlobalFitConfig.load(through(first, "json"),
                                 spectral_config=through(second, "json")),
            list(axs), list(rates_), list(pars)])
    for number, (one, two, three, axs, rates_, pars) in enumerate(kept):
        what = "dumped after step %d" % (number - 1)
        compare_spectra_config(rec, one, axs, what)
        compare_rates(rec, two, rates_, what)
        compare_global(rec, three, pars, rates_, what)
