""" C01 - filling puts the whole weight into the bin containing the value. """
import math

import numpy
from hypothesis import strategies as st

from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C01")

WEIGHTS = st.one_of(st.just(1.), dyadic(0, 8), decimals(0, 3),
                    dyadic(-4, 4), st.just(1.e-3))
#: where a value lies along an axis
PLACES = st.one_of(
    st.tuples(st.just("in"), st.integers(0, 30),
              st.sampled_from([0.5, 0.25, 0.05, 0.95, 0.7])),
    st.tuples(st.just("in"), st.integers(0, 30),
              st.floats(0.001, 0.999)),
    st.tuples(st.just("edge"), st.integers(0, 30), st.just(0)),
    st.tuples(st.just("below_high"), st.just(0), st.just(0)))
BAD = st.one_of(
    st.tuples(st.just("low_minus"), st.just(0),
              st.sampled_from([0., 0.001, 1., 1e6])),
    st.tuples(st.just("high_plus"), st.just(0),
              st.sampled_from([0., 0.001, 1., 1e6])),
    st.tuples(st.just("special"), st.integers(0, 2), st.just(0)))


def place(ax, spot):
    """ (value, set of acceptable bins); an empty set means out of range. """
    kind, index, extra = spot
    low, high, bins = ax["low"], ax["high"], ax["bins"]
    width = (high - low) / bins
    if kind == "in":
        index %= bins
        return low + (index + extra) * width, {index}
    if kind == "edge":
        index %= bins
        value = low + index * width
        value = min(max(value, low), numpy.nextafter(high, -numpy.inf))
        if value == low:
            return value, {0}
        exact = all(float(x * 8).is_integer() for x in (low, high, width))
        return float(value), ({index} if exact else {index - 1, index})
    if kind == "below_high":
        return float(numpy.nextafter(high, -numpy.inf)), {bins - 1}
    if kind == "low_minus":
        value = low - extra if extra else numpy.nextafter(low, -numpy.inf)
        return float(value), set()
    if kind == "high_plus":
        return high + extra, set()
    return [float("nan"), float("inf"), -float("inf")][index], set()


@st.composite
def one_fill(draw):
    spec = draw(spectrum(max_dims=4, max_cells=60, negative=True))
    spots = [draw(PLACES) for _ in spec["axes"]]
    mode = draw(st.sampled_from(["ok", "ok", "ok", "bad", "missing",
                                 "unknown"]))
    target = draw(st.integers(0, len(spots) - 1))
    if mode == "bad":
        spots[target] = draw(BAD)
    return {"spec": spec, "spots": spots, "mode": mode, "target": target,
            "weight": draw(WEIGHTS)}


@prop.facet(one_fill(), quick=2400,
            rule="a fill of a spectrum with several bins, or a rejected one")
def single_fill(case, rec):
    spec = make_spectrum(case["spec"])
    axs = case["spec"]["axes"]
    values, wanted = {}, []
    for ax, spot in zip(axs, case["spots"]):
        value, accepted = place(ax, spot)
        values[ax["name"]] = value
        wanted.append(accepted)
    before = snapshot(spec)
    rec.label(case["mode"])
    if case["mode"] == "missing":
        del values[axs[case["target"]]["name"]]
    elif case["mode"] == "unknown":
        values["energy_unknown"] = values[axs[0]["name"]]
        if case["target"] == 0:     # named before the others
            values = dict(list(values.items())[::-1])
    if case["mode"] in ("missing", "unknown"):
        rec.hit()
        raises(rec, Exception, lambda: spec.fill(weight=case["weight"],
                                                 **values),
               "filling with a %s parameter" % case["mode"])
        unchanged(rec, before, spec, "a rejected fill")
        return
    if not all(wanted):
        rec.hit()
        raises(rec, ValueError, lambda: spec.fill(weight=case["weight"],
                                                  **values),
               "filling out of range values %s" % values)
        unchanged(rec, before, spec, "a rejected fill")
        return
    rec.hit(before["data"].size > 1 and case["weight"] != 0)
    rec.label(*[spot[0] for spot in case["spots"]])
    spec.fill(weight=case["weight"], **values)
    after = snapshot(spec)
    delta = after["data"] - before["data"]
    rec.check(after["data"].shape == before["data"].shape,
              "fill changed the shape to %s", after["data"].shape)
    changed = [tuple(int(i) for i in index)
               for index in numpy.argwhere(delta != 0)]
    if case["weight"] == 0:
        rec.check(not changed, "filling with weight 0 changed bins %s",
                  changed)
    else:
        rec.check(len(changed) == 1, "fill of %s changed the bins %s", values,
                  changed)
        rec.check(all(index in accepted for index, accepted in
                      zip(changed[0], wanted)),
                  "fill of %s went to bin %s, expected one of %s", values,
                  changed[0], wanted)
        expect_close(rec, delta[changed[0]], case["weight"],
                     "weight added to the bin")
    after["data"] = before["data"]
    key = same_snapshot(before, after)
    if key not in (None, "raw_events"):
        rec.fail("fill changed %s", key)


@st.composite
def fills(draw):
    axs = draw(axes(max_dims=3, max_cells=60))
    n = draw(st.integers(1, 25))
    return {"axes": axs, "num_decays": draw(st.sampled_from([1., 50.])),
            "data": [0] * cells_of(axs),
            "fills": [[draw(WEIGHTS),
                       [draw(st.one_of(PLACES, PLACES, PLACES, BAD))
                        for _ in axs]]
                      for _ in range(n)],
            "order": draw(st.permutations(list(range(n))))}


@prop.facet(fills(), quick=640,
            rule="a history with at least three accepted fills")
def fill_history(case, rec):
    one, two = make_spectrum(case), make_spectrum(case)
    accepted = []
    points = []
    for weight, spots in case["fills"]:
        placed = [place(ax, s) for ax, s in zip(case["axes"], spots)]
        values = {ax["name"]: v for ax, (v, _) in zip(case["axes"], placed)}
        points.append((weight, values))
        try:
            one.fill(weight=weight, **values)
            ok = True
        except ValueError:
            ok = False
        rec.check(ok == all(bins for _, bins in placed),
                  "fill of %s was %s", values,
                  "accepted" if ok else "rejected")
        if ok:
            accepted.append((weight, placed))
    rec.hit(len(accepted) > 2)
    expect_close(rec, one.sum(), sum(w for w, _ in accepted),
                 "sum after the fills")
    # content, for the fills which have exactly one possible bin
    if all(len(bins) == 1 for _, placed in accepted for _, bins in placed):
        expected = numpy.zeros([ax["bins"] for ax in case["axes"]])
        for weight, placed in accepted:
            expected[tuple(min(bins) for _, bins in placed)] += weight
        expect_close(rec, one.get_data(), expected, "contents")
        rec.label("contents compared")
    # the order of filling does not matter
    for index in case["order"]:
        weight, values = points[index]
        try:
            two.fill(weight=weight, **values)
        except ValueError:
            pass
    expect_close(rec, two.get_data(), one.get_data(),
                 "contents after filling in another order")


SIZED = st.sampled_from([1., 0.1, 1. / 3., 1e-9, 1e-14, 1e12, 0.7, 123456.789])


@st.composite
def large(draw):
    n = draw(st.sampled_from([1, 1, 1, 2, 2, 5, 6]))
    names = draw(st.permutations(DIMS))[:n]
    top = {1: 6000, 2: 300, 5: 4, 6: 3}[n]
    axs = [draw(axis(name, max_bins=top, min_bins=1)) for name in names]
    if n == 1 and draw(st.booleans()):
        width = (axs[0]["high"] - axs[0]["low"]) / axs[0]["bins"]
        axs[0]["bins"] = draw(st.integers(1000, top))
        axs[0]["high"] = axs[0]["low"] + width * axs[0]["bins"]
    spot = st.tuples(st.just("in"), st.integers(0, 10 ** 6),
                     st.sampled_from([0.5, 0.3, 0.9]))
    return {"axes": axs, "num_decays": 1., "fills": [
        [draw(SIZED), [draw(spot) for _ in axs]]
        for _ in range(draw(st.integers(1, 12)))]}


@prop.facet(large(), quick=400, rule="over 100 bins, or over 4 dimensions")
def sizes(case, rec):
    """ Fine and many axes, and weights of any size, lose nothing. """
    from echidna.core.spectra import Spectra
    spec = Spectra("spec", 1., make_config(case["axes"]))
    expected = numpy.zeros([ax["bins"] for ax in case["axes"]])
    for weight, spots in case["fills"]:
        placed = [place(ax, s) for ax, s in zip(case["axes"], spots)]
        spec.fill(weight=weight, **{ax["name"]: v for ax, (v, _) in
                                    zip(case["axes"], placed)})
        expected[tuple(min(bins) for _, bins in placed)] += weight
        expect_close(rec, spec.get_data(), expected, "contents", 1e-12, 0.)
    rec.hit(expected.size > 100 or expected.ndim > 4)
    rec.label("%d-d" % expected.ndim)
    expect_close(rec, spec.sum(), sum(w for w, _ in case["fills"]), "sum",
                 1e-12, 0.)
