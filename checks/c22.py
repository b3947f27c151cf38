""" C22 - a stored spectrum is loaded as it was. """
import os

from hypothesis import strategies as st

from checks._configs import *  # noqa
from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C22")
STYLES = st.sampled_from([None, {"color": "red"}, {"color": "blue", "lw": 2},
                          "b-", {"color": "red", "linestyle": "--"}])
NAMES = st.sampled_from(["B8_mc", "Te130_0n2b_reco_smeared", "x", "a:b;c,d",
                         "Tl208 mix"])
COUNTS = st.one_of(st.just(0.), dyadic(0, 1000), st.floats(0, 1e12),
                   st.sampled_from([1e-300, 1. / 3., 2.**60]))


@st.composite
def stored(draw, max_cells=60):
    axs = draw(axes(max_dims=3, max_cells=max_cells))
    n = cells_of(axs)
    seed = draw(st.lists(COUNTS, min_size=1, max_size=8))
    stride = draw(st.integers(1, 97))
    case = {"axes": axs, "values": [seed[(i * stride + i // 7) % len(seed)]
                                    for i in range(n)],
            "num_decays": draw(st.one_of(st.just(0.), positives(0.1, 1e6),
                                         st.just(1e22))),
            "name": draw(NAMES), "background": draw(st.sampled_from(
                ["B8", "2n2b", "a_b"])), "config_name": draw(
                st.sampled_from(["config", "my config"])),
            "raw": draw(st.integers(0, 10 ** 9)),
            "bipo": draw(st.sampled_from([0, 0, 1])), "style": draw(STYLES),
            "fit": draw(st.one_of(st.none(), rate_pars(2, 1))),
            "roi": None}
    if draw(st.integers(0, 2)) == 0:
        which = draw(st.integers(0, len(axs) - 1))
        first = draw(st.integers(0, axs[which]["bins"] - 1))
        case["roi"] = [which, first, draw(st.integers(
            first + 1, axs[which]["bins"]))]
    return case


def build(case):
    from echidna.core.spectra import Spectra
    fit_config = None
    if case["fit"] is not None:
        fit_config = spectra_fit_config(case["fit"], "own rates",
                                        case["name"])
    spec = Spectra(case["name"], case["num_decays"],
                   make_config(case["axes"], case["config_name"]),
                   fit_config=fit_config, background_name=case["background"])
    put_data(spec, numpy.array(case["values"]).reshape(
        tuple(ax["bins"] for ax in case["axes"])))
    spec._raw_events = case["raw"]
    spec._bipo = case["bipo"]
    if case["style"] is not None:
        spec.set_style(case["style"])
    if case["roi"] and spec.sum() > 0.:
        which, first, last = case["roi"]
        ax = case["axes"][which]
        width = (ax["high"] - ax["low"]) / ax["bins"]
        spec.shrink_to_roi(ax["low"] + first * width,
                           ax["low"] + last * width, ax["name"])
    return spec


def state(spec):
    """ All there is to a spectrum. """
    style = spec.get_style()
    found = {"axes": axes_of(spec), "num_decays": spec.get_num_decays(),
             "name": spec.get_name(), "raw": spec._raw_events,
             "background": spec.get_background_name(),
             "config": spec.get_config().get_name(),
             "bipo": spec.get_bipo(), "rois": {
                 k: dict(v) for k, v in spec._rois.items()},
             "style": dict(style) if isinstance(style, dict) else style}
    return found, numpy.array(spec.get_data(), copy=True)


def same_state(rec, found, wanted, what):
    for key in wanted[0]:
        rec.check(found[0][key] == wanted[0][key], "%s: %s is %r, expected "
                  "%r", what, key, found[0][key], wanted[0][key])
    rec.check(found[1].shape == wanted[1].shape and
              numpy.array_equal(found[1], wanted[1]), "%s: contents %s, "
              "expected %s", what, found[1], wanted[1])


def same_fit_config(rec, spec, case, what):
    made = spec.get_fit_config()
    if case["fit"] is None:
        rec.check(made is None, "%s: has a fit config", what)
        return
    rec.check(made is not None, "%s: lost its fit config", what)
    compare_rates(rec, made, case["fit"], what)
    rec.check(made.get_name() == "own rates" and
              made._spectra_name == case["name"], "%s: fit config %s of %s",
              what, made.get_name(), made._spectra_name)


@prop.facet(st.fixed_dictionaries({
    "spec": stored(), "group": st.sampled_from([None, None, "data"])}),
    quick=500, rule="a region of interest, fit config or several dimensions")
def round_trip(case, rec):
    """ Everything about one spectrum. """
    from echidna.output import store
    group, case = case["group"], case["spec"]
    spec = build(case)
    before = state(spec)
    path = os.path.join(rec.tmp(), "spec.hdf5")
    kwargs = {"group_name": group} if group else {}
    rec.hit(case["fit"] or before[0]["rois"] or len(case["axes"]) > 1)
    store.dump(path, spec, **kwargs)
    same_state(rec, state(spec), before, "the spectrum after storing")
    for _ in (0, 1):
        loaded = store.load(path, **kwargs)
        same_state(rec, state(loaded), before, "loaded")
        same_fit_config(rec, loaded, case, "loaded")
        rec.check(loaded._location == path, "location %s", loaded._location)
        # what is loaded can be changed and stored again
        if before[0]["num_decays"] > 0.:
            loaded.scale(loaded.get_num_decays() * 2. + 1.)
    if before[0]["num_decays"] > 0.:
        again = os.path.join(rec.tmp(), "again.hdf5")
        scaled = state(loaded)
        expect_close(rec, scaled[1], before[1] * (
            (2. * before[0]["num_decays"] + 1.) / before[0]["num_decays"]),
            "loaded and scaled", 1e-9, 0.)
        store.dump(again, loaded)
        same_state(rec, state(store.load(again)), scaled, "stored again")


GROUPS = ["spectrum", "data", "data", "signal", "data_2", "data_22",
          "spectrum2", "a.b"]


@st.composite
def histories(draw):
    specs = draw(st.lists(stored(8), min_size=1, max_size=3))
    steps = []
    for _ in range(draw(st.integers(1, 8))):
        steps.append({"spec": draw(st.integers(0, len(specs) - 1)),
                      "group": draw(st.sampled_from(
                          GROUPS)),
                      "append": draw(st.sampled_from([True, True, False])),
                      "overwrite": draw(st.booleans()),
                      "defaults": draw(st.booleans())})
    return {"specs": specs, "steps": steps}


@prop.facet(histories(), quick=300, rule="several spectra are in the file")
def files(case, rec):
    """ Appending, overwriting and replacing: a model of the file. """
    from echidna.output import store
    path = os.path.join(rec.tmp(), "many.hdf5")
    specs = [build(s) for s in case["specs"]]
    states = [state(s) for s in specs]
    model = {}
    for step in case["steps"]:
        kwargs = {"append": step["append"], "overwrite": step["overwrite"],
                  "group_name": step["group"]}
        if step["defaults"]:
            kwargs = dict((k, v) for k, v in kwargs.items()
                          if v is not False and v != "spectrum")
        if not step["append"]:
            model = {}
        spec = specs[step["spec"]]
        if step["group"] in model and not step["overwrite"]:
            rec.label("group exists")
            raises(rec, ValueError, lambda: store.dump(path, spec, **kwargs),
                   "storing in a group which exists")
        else:
            store.dump(path, spec, **kwargs)
            model[step["group"]] = step["spec"]
        rec.hit(len(model) > 1)
        for group, number in model.items():
            loaded = store.load(path, group_name=group)
            same_state(rec, state(loaded), states[number], "group " + group)
            same_fit_config(rec, loaded, case["specs"][number], group)
    for group in sorted(set(GROUPS)):
        if group not in model:
            raises(rec, KeyError, lambda: store.load(path, group_name=group),
                   "loading the group %s, which is not in the file" % group)


@prop.facet(st.fixed_dictionaries({
    "axes": axes(max_dims=3, max_cells=40), "contents": st.lists(
        COUNTS, min_size=40, max_size=40), "num_decays": positives(0.1, 1e5),
    "raw": st.integers(0, 10 ** 6), "bipo": st.sampled_from([None, 0, 1]),
    "style": st.sampled_from(["", "color:red;str", "color:blue;str,lw:2;int"]),
    }), quick=200, rule="several dimensions")
def old_files(case, rec):
    """ Files of the first format: attributes pars:<name>:<low|high|bins>. """
    import h5py
    from echidna.output import store
    axs = sorted(case["axes"], key=lambda ax: ax["name"])
    rec.hit(len(axs) > 1)
    path = os.path.join(rec.tmp(), "old.hdf5")
    shape = tuple(ax["bins"] for ax in axs)
    data = numpy.array(case["contents"][:cells_of(axs)]).reshape(shape)
    with h5py.File(path, "w") as out:
        out.attrs["name"] = "old"
        for ax in axs:
            for key in ("low", "high", "bins"):
                out.attrs["pars:%s:%s" % (ax["name"], key)] = ax[key]
        out.attrs["num_decays"] = case["num_decays"]
        out.attrs["raw_events"] = case["raw"]
        if case["bipo"] is not None:
            out.attrs["bipo"] = case["bipo"]
        out.attrs["style"] = case["style"]
        out.attrs["rois"] = ""
        out.create_dataset("data", data=data, compression="gzip")
    loaded = store.load(path)
    rec.check(axes_of(loaded) == [(a["name"], a["low"], a["high"], a["bins"])
                                  for a in axs], "dimensions %s, expected %s",
              axes_of(loaded), axs)
    rec.check(numpy.array_equal(loaded.get_data(), data), "other contents")
    rec.check(loaded.get_name() == "old" and
              loaded.get_num_decays() == case["num_decays"] and
              loaded._raw_events == case["raw"] and
              loaded.get_bipo() == (case["bipo"] or 0), "other attributes")
    if case["style"]:
        rec.check(dict(loaded.get_style()) == {
            "color:red;str": {"color": "red"},
            "color:blue;str,lw:2;int": {"color": "blue", "lw": 2}}[
                case["style"]], "style %s", loaded.get_style())


@prop.facet(st.fixed_dictionaries({
    "spec": stored(20), "without": st.lists(st.sampled_from(
        ["background_name", "bipo", "fit_config_name", "fit_config"]),
        min_size=1, unique=True),
    "name": st.sampled_from(["Te130_mc", "B8_reco", "U_mix_v1"])}), quick=150,
    rule="every case")
def incomplete(case, rec):
    """ Files from before there were background names, cuts, or fits. """
    import h5py
    from echidna.output import store
    one = dict(case["spec"], name=case["name"])
    spec = build(one)
    rec.hit()
    path = os.path.join(rec.tmp(), "older.hdf5")
    store.dump(path, spec)
    wanted = state(spec)
    with h5py.File(path, "a") as file_:
        for name in case["without"]:
            if name in file_["spectrum"].attrs:
                del file_["spectrum"].attrs[name]
    if "background_name" in case["without"]:
        wanted[0]["background"] = case["name"].split("_")[0]
    if "bipo" in case["without"]:
        wanted[0]["bipo"] = 0
    loaded = store.load(path)
    same_state(rec, state(loaded), wanted, "loaded")
    if [n for n in case["without"] if n.startswith("fit_config")]:
        one["fit"] = None
    same_fit_config(rec, loaded, one, "loaded")


PLAIN = st.text("abcXYZ019_ .-", max_size=8)


@prop.facet(st.dictionaries(PLAIN.filter(bool), st.one_of(
    PLAIN, st.integers(-10 ** 9, 10 ** 9), dyadic(-100, 100),
    decimals(-5, 5, 3)), min_size=1, max_size=5), quick=400,
    rule="entries of several types")
def flat(case, rec):
    """ dict_to_string and back (for values without : ; and ,). """
    from echidna.output import store
    rec.hit(len(set(type(v) for v in case.values())) > 1)
    text = store.dict_to_string(case)
    found = store.string_to_dict(text)
    rec.check(found == case and all(type(found[k]) is type(case[k])
                                    for k in case), "%s became %s", case,
              found)
    for wrong in (None, [1], (1,), {}):
        raises(rec, TypeError, lambda: store.dict_to_string(
            dict(case, zz=wrong)), "a value %r" % (wrong,))
    raises(rec, TypeError, lambda: store.string_to_dict(text + ",a:1;bool"),
           "an unknown type")


BASES = st.text("B8Tle_2nX", min_size=1, max_size=6)


@prop.facet(st.fixed_dictionaries({
    "base": BASES, "sep": st.sampled_from(["_", "-", " "]),
    "kind": st.sampled_from(["mc", "mix", "reco", "truth"]),
    "rest": st.sampled_from(["", "_smeared", "_200ly_mc"]),
    "given": st.sampled_from([None, None, "set", "later"])}), quick=200,
    rule="the name is derived")
def background_names(case, rec):
    """ The background name, if not given, is the name up to its type. """
    from echidna.core.spectra import Spectra
    if case["kind"] == "truth" and case["rest"].endswith("mc"):
        return
    name = case["base"] + case["sep"] + case["kind"] + case["rest"]
    config = make_config([{"name": "energy_mc", "low": 0., "high": 1.,
                           "bins": 2}])
    spec = Spectra(name, 1., config, **(
        {"background_name": "own"} if case["given"] == "set" else {}))
    if case["given"] == "later":
        spec.set_background_name("own")
    if case["given"]:
        rec.check(spec.get_background_name() == "own", "it is %s",
                  spec.get_background_name())
    elif case["kind"] == "truth":
        raises(rec, ValueError, spec.get_background_name, "a name without "
               "a type")
    elif case["kind"] != "mc" and "mc" in case["rest"]:
        return
    else:
        rec.hit()
        for _ in (0, 1):
            rec.check(spec.get_background_name() == case["base"], "%s for %s",
                      spec.get_background_name(), name)
