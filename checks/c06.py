""" C06 - scaling to a number of decays and adding spectra. """
import numpy
from hypothesis import strategies as st

from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C06")

DECAYS = st.one_of(st.sampled_from([1., 2., 100., 0.5, 1.e6, 1.e-3]),
                   st.floats(1e-3, 1e6),
                   st.sampled_from([1.e13, 6.022e25, 1.e-9, 1. / 3.]))


@st.composite
def scalings(draw):
    spec = draw(spectrum(max_dims=3, max_cells=60, negative=True,
                         num_decays=DECAYS))
    to = draw(st.lists(DECAYS, min_size=1, max_size=4))
    if draw(st.integers(0, 3)) == 0:
        # hardly another number
        to.insert(0, spec["num_decays"] * (1. + draw(st.sampled_from(
            [1e-6, -1e-6, 1e-7, 3e-5]))))
    return {"spec": spec, "to": to, "shrink": draw(st.booleans())}


@prop.facet(scalings(), quick=1600,
            rule="the spectrum has content and its num_decays changes")
def scale(case, rec):
    spec = make_spectrum(case["spec"])
    first = snapshot(spec)
    full = first["data"]
    if case["shrink"]:
        # scaling refers to the full spectrum, also once it is shrunk
        ax = max(case["spec"]["axes"], key=lambda a: a["bins"])
        axis_ = [a["name"] for a in case["spec"]["axes"]].index(ax["name"])
        cut = max(1, ax["bins"] // 2)
        spec.shrink(**{ax["name"] + "_high": edges(ax)[cut]})
        index = [slice(None)] * full.ndim
        index[axis_] = slice(0, cut)
        full = full[tuple(index)]
    before = snapshot(spec)
    for value in case["to"]:
        spec.scale(value)
        expect_close(rec, spec.get_num_decays(), value, "num_decays",
                     rtol=1e-12)
        expect_close(rec, spec.get_data(),
                     full * (value / first["num_decays"]),
                     "contents scaled to %s" % value, rtol=1e-9,
                     atol=1e-9 * value / first["num_decays"])
        rec.check(axes_of(spec) == before["axes"], "scale changed the axes")
    rec.hit(full.any() and case["to"][-1] != first["num_decays"])
    spec.scale(first["num_decays"])
    expect_close(rec, spec.get_data(), full, "contents scaled back")
    spec.scale(0)
    rec.check(spec.get_num_decays() == 0. and not spec.get_data().any(),
              "scaled to nothing there are %s decays and %s",
              spec.get_num_decays(), spec.get_data())


@st.composite
def sums(draw):
    one = draw(spectrum(max_dims=3, max_cells=60, negative=True))
    n = len(one["data"])
    types = ["mc", "reco", "truth"]
    names = []
    dims = draw(st.permutations(["energy", "radial", "time", "z"]))
    if draw(st.integers(0, 3)) == 0:    # a cube
        bins = draw(st.integers(1, 3))
        for ax in one["axes"]:
            ax["bins"] = bins
        n = bins ** len(one["axes"])
        one["data"] = draw(contents(n))
    for ax, dim in zip(one["axes"], dims):
        names.append(dim)
        ax["name"] = dim + "_" + draw(st.sampled_from(types))
    two = {"axes": [dict(ax) for ax in one["axes"]],
           "data": draw(contents(n)), "num_decays": draw(DECAYS)}
    for ax, dim in zip(two["axes"], names):
        if draw(st.booleans()):
            ax["name"] = dim + "_" + draw(st.sampled_from(types))
    return {"one": one, "two": two,
            "raw": [draw(st.sampled_from([7, 0, 2 * 10 ** 7])),
                    draw(st.sampled_from([11, 0, 7, 3 * 10 ** 9]))],
            "swap": draw(st.booleans()),
            "order": draw(st.permutations(range(len(one["axes"]))))}


@prop.facet(sums(), quick=1600, rule="both spectra have content")
def add(case, rec):
    one, two = make_spectrum(case["one"]), make_spectrum(case["two"])
    one._raw_events, two._raw_events = case["raw"]
    data = data_array(case["two"])
    if case["swap"]:
        # the same spectrum with its dimensions in another order
        axs = [case["two"]["axes"][i] for i in case["order"]]
        two = make_spectrum({"axes": axs, "num_decays":
                             case["two"]["num_decays"],
                             "data": [0] * len(case["two"]["data"])})
        put_data(two, data.transpose(case["order"]))
        two._raw_events = case["raw"][1]
        if two.get_data().shape != one.get_data().shape:
            rec.label("other shape")
            before = snapshot(one)
            try:
                one.add(two)
            except ValueError:
                unchanged(rec, before, one, "a rejected add")
                return
        else:
            one.add(two)
        rec.label("other order" if case["order"] != sorted(case["order"])
                      else "same order")
    else:
        one.add(two)
    rec.hit(any(case["one"]["data"]) and any(case["two"]["data"]))
    second = snapshot(two)
    expect_close(rec, one.get_data(), data_array(case["one"]) + data,
                 "contents of the sum")
    expect_close(rec, one.get_num_decays(),
                 case["one"]["num_decays"] + case["two"]["num_decays"],
                 "num_decays of the sum")
    rec.check(one._raw_events == sum(case["raw"]), "raw events of the sum: %s",
              one._raw_events)
    rec.check([(a["name"], a["low"], a["high"], a["bins"])
               for a in case["one"]["axes"]] == axes_of(one),
              "add changed the axes")
    one.scale(2.)
    one.get_data()[...] = -1.
    unchanged(rec, second, two, "changing the sum")


@st.composite
def bad_sums(draw):
    case = draw(sums())
    case["target"] = draw(st.integers(0, 2))
    case["kind"] = draw(st.sampled_from(["low", "high", "bins", "dimension",
                                         "rank"]))
    case["by"] = draw(st.sampled_from([0.5, 1., 0.25]))
    case["sign"] = draw(st.sampled_from([-1., 1.]))
    return case


@prop.facet(bad_sums(), quick=1000, rule="every rejected sum")
def add_rejected(case, rec):
    two = case["two"]
    ax = two["axes"][case["target"] % len(two["axes"])]
    span = ax["high"] - ax["low"]
    big = max(abs(ax["high"]), abs(ax["low"]), span)
    kinds = ValueError
    if case["kind"] == "low":
        ax["low"] -= case["by"] * big
    elif case["kind"] == "high":
        ax["high"] += case["by"] * big
    elif case["kind"] == "bins":
        old = ax["bins"]
        ax["bins"] += 1
        two["data"] = [4] * (len(two["data"]) // old * (old + 1))
    elif case["kind"] == "dimension":
        ax["name"] = "other_mc"
        kinds = IndexError
    else:
        two["axes"].append({"name": "other_mc", "low": 0., "high": 1.,
                            "bins": 1})
        kinds = (ValueError, IndexError)
    one, two = make_spectrum(case["one"]), make_spectrum(two)
    before, second = snapshot(one), snapshot(two)
    rec.hit()
    rec.label(case["kind"])
    raises(rec, kinds, lambda: one.add(two), "adding spectra with different "
           "%s" % case["kind"])
    unchanged(rec, before, one, "a rejected add")
    unchanged(rec, second, two, "a rejected add")
