""" C13 - a fit parameter applies its systematic with its current value. """
import numpy
from hypothesis import strategies as st

from checks import c09
from checks._convolve import judge_moved
from checks.c07 import with_axis
from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C13")


def parameter(kind, dimension, value, sigma=None):
    from echidna.core import parameter as module
    if kind == "rate":
        par = module.RateParameter("rate", 1., sigma, 0., 2., 3)
    else:
        par = {"resolution": module.ResolutionParameter,
               "scale": module.ScaleParameter,
               "shift": module.ShiftParameter}[kind](
                   dimension + "_" + kind, 1., sigma, 0., 2., 3, dimension)
    if value is not None:
        par.set_current_value(value)
    return par


@prop.facet(st.fixed_dictionaries({
    "spec": spectrum(max_cells=40), "values": st.lists(
        positives(0.01, 1000.), min_size=1, max_size=3),
    "zero": st.integers(0, 3).map(lambda n: n == 0)}), quick=480,
    rule="there are contents to scale")
def rate(case, rec):
    """ The spectrum becomes one of that number of decays. """
    spec = make_spectrum(case["spec"])
    base = data_array(case["spec"])
    for value in case["values"] + [0.] * case["zero"]:
        result = parameter("rate", None, value).apply_to(spec)
        expect_close(rec, result.get_data(),
                     base * (value / case["spec"]["num_decays"]),
                     "contents at rate %s" % value,
                     atol=1e-12 * (1. + base.max() * value))
        rec.check(result.get_num_decays() == value, "decays %s at rate %s",
                  result.get_num_decays(), value)
        spec = result
    rec.hit(base.any())


@st.composite
def resolutions(draw):
    case = draw(c09.smearable(max_bins=8).filter(
        lambda c: c["kind"].endswith("poisson")))
    if draw(st.integers(0, 3)) == 0:    # around the border between the two
        case["resolution"] = draw(st.sampled_from([10.5, 11., 12., 20.]))
    # the kind follows from the value alone
    value = case["resolution"]
    case["kind"] = "ly_poisson" if value > 10. else "res_poisson"
    case["sigmas"] = None
    return case


@prop.facet(resolutions().filter(lambda c: c["resolution"] > 10. or
                                 c["resolution"] < 1.), quick=800,
            rule="some bin visibly changes")
def resolution(case, rec):
    """ Poisson smearing, by light yield above 10, else by resolution. """
    spec = make_spectrum(case)
    spec._bipo, spec._raw_events = case["bipo"], 17
    before = snapshot(spec)
    par = parameter("resolution", case["axes"][case["at"]]["name"],
                    case["resolution"])
    rec.label(case["kind"])
    result = par.apply_to(spec)
    rec.hit(c09.judge_smeared(case, rec, spec, before, snapshot(result)))
    unchanged(rec, before, spec, "applying a resolution")
    rec.check(par.get_current_value() == case["resolution"],
              "applying changed the value")


@prop.facet(st.fixed_dictionaries({
    "spec": with_axis(min_bins=4, max_bins=10),
    "kind": st.sampled_from(["scale", "shift"]), "factor": st.one_of(
        st.sampled_from([1.1, 0.9, 1.5, 0.7]), st.floats(0.5, 2.)),
    "bins": st.floats(-2.5, 2.5)}), quick=800,
    rule="something remains in range and moved")
def moved(case, rec):
    """ The dimension of the parameter is scaled or shifted. """
    spec = make_spectrum(case["spec"])
    before = snapshot(spec)
    at = case["spec"]["at"]
    ax = case["spec"]["axes"][at]
    step = (ax["high"] - ax["low"]) / ax["bins"]
    if case["kind"] == "scale":
        value, source = case["factor"], lambda x: x / case["factor"]
        still = value == 1.
    else:
        value = case["bins"] * step
        source = lambda x: x - value    # noqa
        nearest = round(case["bins"])
        still = nearest == 0
        if abs(case["bins"] - nearest) < 1e-3:
            rec.label("whole bins")     # C07
            return
    result = parameter(case["kind"], ax["name"], value).apply_to(spec)
    after = snapshot(result)
    rec.label(case["kind"])
    rec.hit(judge_moved(rec, before, after, ax, at, source, 3) and not still)
    unchanged(rec, before, spec, "applying a " + case["kind"])


@prop.facet(st.fixed_dictionaries({
    "spec": spectrum(max_cells=20, max_dims=1, min_bins=4,
                     names=["energy_mc"]),
    "kind": st.sampled_from(["rate", "resolution", "scale", "shift"])}),
    quick=100, rule="every case")
def unset(case, rec):
    """ Without a current value there is nothing to apply. """
    spec = make_spectrum(case["spec"])
    before = snapshot(spec)
    par = parameter(case["kind"], "energy_mc", None)
    rec.hit()
    raises(rec, ValueError, lambda: par.apply_to(spec),
           "applying a %s without a value" % case["kind"])
    if case["kind"] != "rate":
        raises(rec, ValueError, lambda: par.get_pre_convolved(
            "dir/energy_mc/", "a_b.hdf5"), "a file name without a value")
    unchanged(rec, before, spec, "applying a parameter without a value")


@prop.facet(st.fixed_dictionaries({
    "spec": spectrum(max_cells=20, max_dims=1, min_bins=4,
                     names=["energy_mc"]),
    "value": st.one_of(st.sampled_from([10., 1., 5., 0.]),
                       st.floats(1., 10.), st.floats(-5., 0.))}), quick=100,
    rule="every case")
def no_resolution(case, rec):
    """ Values up to 10 are energy resolutions: below 1, or refused. """
    spec = make_spectrum(case["spec"])
    before = snapshot(spec)
    rec.hit()
    raises(rec, ValueError, lambda: parameter(
        "resolution", "energy_mc", case["value"]).apply_to(spec),
        "applying an energy resolution of %s" % case["value"])
    unchanged(rec, before, spec, "applying a resolution which is refused")


# ------------------------------------------------------ pre-made file names
FOLDER = {"resolution": "smear", "scale": "scale", "shift": "shift"}
WORDS = ["Te130", "0n2b", "mc", "reco", "Tl208", "a", "1000", "ext", "2.5"]


def suffix(kind, value):
    if kind == "resolution":
        return "ly" if value > 10. else "rs"
    return {"scale": "sc", "shift": "sh"}[kind]


VALUES = st.one_of(
    st.sampled_from([200., 100., 10., 0.05, 0.1, 1., 1.05, 0., 1000., 10.5,
                     0.001, 1.e-5, 2.5e-7, 1.e16, 1.25e20, 20., 300.5]),
    decimals(0, 300, 3), decimals(0, 2, 6))


def text(value):
    """ A value as it appears in a name: without needless zeros. """
    result = repr(float(value))
    return result[:-2] if result.endswith(".0") else result


@st.composite
def names(draw):
    dims = draw(st.permutations(["energy_mc", "radial_mc", "energy_reco"]))
    steps = []
    for dim in dims[:draw(st.integers(1, 3))]:
        kinds = draw(st.permutations(["resolution", "scale", "shift"]))
        for kind in kinds[:draw(st.integers(1, 3))]:
            steps.append([dim, kind, draw(VALUES), draw(VALUES)])
    return {"steps": steps, "slash": draw(st.booleans()),
            "again": draw(st.integers(0, 5)),
            "words": draw(st.lists(st.sampled_from(WORDS), min_size=1,
                                   max_size=4)),
            "base": draw(st.sampled_from(["", "data/", "/a/smear/b/",
                                          "../scale/", "x_energy_mc/"]))}


@prop.facet(names(), quick=800, rule="more than one systematic")
def pre_made(case, rec):
    """ Directory and name tell dimension, systematics and their values. """
    directory, filename = case["base"], "_".join(case["words"]) + ".hdf5"
    folders, parts = case["base"], list(case["words"])
    dims = []
    for dim, kind, value, _ in case["steps"]:
        par = parameter(kind, dim, value)
        added = dim not in dims
        if added:
            dims.append(dim)
            directory += dim if case["slash"] else dim + "/"
            folders += dim + "/"
            last = []
        if FOLDER[kind] not in last:
            folders += FOLDER[kind] + "/"
            last.append(FOLDER[kind])
        new = text(value) + suffix(kind, value)
        old = [i for i, part in enumerate(parts)
               if i >= len(case["words"]) and
               part.endswith(suffix(kind, value))]
        for i in old:
            parts[i] = new
        if not old:
            parts.append(new)
        directory, filename = par.get_pre_convolved(directory, filename,
                                                    added)
        rec.check(directory == folders, "directory %s after %s of %s, "
                  "expected %s", directory, kind, dim, folders)
        expected = "_".join(parts) + ".hdf5"
        rec.check(filename == expected, "file name %s after %s of %s, "
                  "expected %s", filename, kind, value, expected)
    rec.hit(len(case["steps"]) > 1)
    # another value of a systematic of the last dimension: same place
    same = [step for step in case["steps"] if step[0] == dim]
    dim, kind, _, value = same[case["again"] % len(same)]
    again = parameter(kind, dim, value)
    where, name = again.get_pre_convolved(directory, filename)
    ext = suffix(kind, value)
    old = [i for i, part in enumerate(parts)
           if i >= len(case["words"]) and part.endswith(ext)]
    for i in old:
        parts[i] = text(value) + ext
    if not old:
        parts.append(text(value) + ext)
    rec.check(where == directory, "the directory of another value is %s",
              where)
    rec.check(name == "_".join(parts) + ".hdf5", "the name for another value "
              "is %s, expected %s", name, "_".join(parts) + ".hdf5")


# --------------------------------------------- one parameter, used repeatedly
PLACES = {
    "rate": positives(0.01, 1000.),
    "resolution": st.one_of(st.floats(50., 400.), st.floats(0.02, 0.3)),
    "scale": st.floats(0.6, 1.6),
    "shift": st.floats(-2., 2.).filter(
        lambda bins: abs(bins - round(bins)) > 1e-2)}


@st.composite
def uses(draw):
    kind = draw(st.sampled_from(sorted(PLACES)))
    spec = draw(with_axis(min_bins=4, max_bins=8))
    if kind == "resolution":            # energies and radii are positive
        axis = spec["axes"][spec["at"]]
        axis["low"] = 0.5
        axis["high"] = 0.5 + axis["bins"] * draw(st.sampled_from([0.05, 0.1,
                                                                  0.25]))
    spec["data"][len(spec["data"]) // 2] += 40
    return {"spec": spec, "kind": kind,
            "values": draw(st.lists(PLACES[kind], min_size=1, max_size=3)),
            "steps": draw(st.lists(st.tuples(
                st.sampled_from(["apply", "apply", "contents", "value",
                                 "other", "name"]),
                st.integers(0, 20)).map(list), min_size=3, max_size=8))}


@prop.facet(uses(), quick=400,
            rule="applied more than once, with changes in between")
def repeatedly(case, rec):
    """ One parameter object applied over and over: each time as one newly
    made, with the present value and to the present contents. """
    axis = case["spec"]["axes"][case["spec"]["at"]]
    step = (axis["high"] - axis["low"]) / axis["bins"]
    values = [value * step if case["kind"] == "shift" else value
              for value in case["values"]]
    par = parameter(case["kind"], axis["name"], values[0])
    value, applied, changes = values[0], 0, 0
    spec = make_spectrum(case["spec"])
    rec.label(case["kind"])
    for what, number in case["steps"] + [["apply", 0], ["value", 1],
                                          ["apply", 0]]:
        if what == "value":
            value = values[number % len(values)]
            par.set_current_value(value)
            changes += applied > 0
        elif what == "contents":
            changes += applied > 0
            spec._data = numpy.roll(spec._data, 1 + number) + number % 3
        elif what == "other":
            spec = make_spectrum(case["spec"])
            spec._data = spec._data * (1. + number)
        elif what == "name" and case["kind"] != "rate":
            new = parameter(case["kind"], axis["name"], value)
            got = [p.get_pre_convolved(axis["name"] + "/", "a_b.hdf5", True)
                   for p in [par, new]]
            rec.check(got[0] == got[1], "place and name %s from the value %s, "
                      "%s when new", got[0], value, got[1])
            again = [p.get_pre_convolved(*got[1]) for p in [par, new]]
            rec.check(again[0] == again[1] == got[1], "the same name again "
                      "gives %s", again[0])
        elif what == "apply":
            twin = make_spectrum(case["spec"])
            twin._data = spec._data.copy()
            twin._num_decays = spec._num_decays
            want = parameter(case["kind"], axis["name"], value).apply_to(twin)
            result = par.apply_to(spec)
            expect_close(rec, result.get_data(), want.get_data(),
                         "contents with %s %s" % (case["kind"], value))
            rec.check(close(result.get_num_decays(), want.get_num_decays(),
                            1e-9), "%s decays with %s %s, %s when new",
                      result.get_num_decays(), case["kind"], value,
                      want.get_num_decays())
            rec.check(par.get_current_value() == value,
                      "applying changed the value")
            applied += 1
    rec.hit(applied > 1 and changes)
