""" C03 - shrinking keeps exactly the bins of the requested range. """
import numpy
from hypothesis import strategies as st

from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C03")

LIMIT = st.tuples(st.integers(0, 20),
                  st.one_of(st.just(0.), st.just(0.),
                            st.sampled_from([0.5, 0.1, 0.9, 0.02, 0.985]),
                            st.floats(0.02, 0.985)))


@st.composite
def shrinks(draw, nonempty=False):
    spec = draw(spectrum(max_dims=4, max_cells=150, negative=True, max_bins=12,
                         nonempty=nonempty))
    return {"spec": spec,
            "limits": [draw(st.tuples(LIMIT, LIMIT,
                                      st.sampled_from(["both", "low", "high",
                                                       "none", "both"])))
                       for _ in spec["axes"]],
            # limits on edges may be off by rounding
            "off": draw(st.sampled_from([0., 0., 1e-14, -1e-14]))}


def requested(case):
    """ kwargs for shrink and the slice of bins that should remain. """
    kwargs, keep = {}, []
    for ax, (one, two, which) in zip(case["spec"]["axes"], case["limits"]):
        bins = ax["bins"]
        width = (ax["high"] - ax["low"]) / bins
        a = one[0] % bins + one[1]
        b = two[0] % bins + two[1]
        a, b = min(a, b), max(a, b)
        if b - a < 1e-9:                        # an empty range: widen it
            b = min(int(a) + 1., bins)
        lo, hi = 0, bins
        off = case["off"] * (abs(ax["low"]) + abs(ax["high"])) / width
        if which in ("both", "low"):
            kwargs[ax["name"] + "_low"] = ax["low"] + (
                a if a % 1. else a + off) * width
            lo = int(numpy.floor(a))
        if which in ("both", "high"):
            kwargs[ax["name"] + "_high"] = ax["low"] + (
                b if b % 1. else b + off) * width
            hi = int(numpy.ceil(b))
        keep.append((lo, hi))
    return kwargs, keep


def check_kept(rec, case, spec, keep, before):
    data = before["data"][tuple(slice(lo, hi) for lo, hi in keep)]
    expect_close(rec, spec.get_data(), data, "contents after shrinking",
                 rtol=0, atol=0)
    for ax, (lo, hi), (name, low, high, bins) in zip(
            case["spec"]["axes"], keep, axes_of(spec)):
        all_edges = edges(ax)
        tol = 1e-9 * (abs(ax["low"]) + abs(ax["high"]))
        rec.check(name == ax["name"] and bins == hi - lo,
                  "%s has %s bins, expected %d", name, bins, hi - lo)
        expect_close(rec, [low, high], [all_edges[lo], all_edges[hi]],
                     "bounds of %s" % name, rtol=0, atol=tol)
    return data


@prop.facet(shrinks(), quick=900,
            rule="at least one axis loses bins and at least one bin remains")
def shrink(case, rec):
    spec = make_spectrum(case["spec"])
    before = snapshot(spec)
    kwargs, keep = requested(case)
    spec.shrink(**dict(kwargs))
    data = check_kept(rec, case, spec, keep, before)
    rec.check(spec.get_num_decays() == before["num_decays"],
              "shrink changed num_decays to %s", spec.get_num_decays())
    rec.hit(data.size < before["data"].size)
    rec.label("%d-d" % data.ndim)
    # shrinking to the same range again changes nothing
    again = snapshot(spec)
    spec.shrink(**dict(kwargs)) if all(
        v[0][1] == 0 and v[1][1] == 0 for v in case["limits"]) else None
    rec.check(numpy.array_equal(again["data"], spec.get_data()),
              "shrinking twice to the same range removed bins")


@prop.facet(shrinks(nonempty=True), quick=500,
            rule="at least one axis loses bins which had content")
def cut(case, rec):
    spec = make_spectrum(case["spec"])
    before = snapshot(spec)
    kwargs, keep = requested(case)
    spec.cut(**dict(kwargs))
    data = check_kept(rec, case, spec, keep, before)
    fraction = data.sum() / before["data"].sum()
    expect_close(rec, spec.get_num_decays(), before["num_decays"] * fraction,
                 "num_decays after cut")
    rec.hit(0 < fraction < 1)
    if fraction > 0:
        # the cut spectrum is the new full spectrum
        spec.scale(before["num_decays"])
        expect_close(rec, spec.sum(), before["data"].sum(),
                     "sum of the cut spectrum scaled to the old num_decays",
                     rtol=1e-9)


@prop.facet(st.fixed_dictionaries({
    "start": st.sampled_from([5990., -6000., 100., -1e5, 2.4, 1.]),
    "width": st.sampled_from([0.1, 0.01, 0.5, 0.001, 2.]),
    "bins": st.integers(1, 40), "seed": st.integers(1, 9),
    "ends": st.tuples(st.floats(-0.9, 0.9), st.floats(-0.9, 0.9)),
    "inner": st.tuples(st.integers(0, 40), st.integers(0, 40)),
    "which": st.sampled_from(["low", "high", "both", "low, inner",
                              "high, inner"])}),
    quick=500, rule="a bound was requested outside the range")
def far(case, rec):
    """ Bounds which are those of the range but for (larger) rounding. """
    low, bins, which = case["start"], case["bins"], case["which"]
    high = low + bins * case["width"]
    ax = {"name": "radial_mc", "low": low, "high": high, "bins": bins}
    spec = make_spectrum({"axes": [ax], "num_decays": 7., "data": [
        float(i * case["seed"] % 11 + 1) for i in range(bins)]})
    before = snapshot(spec)
    # outside is outside by up to what is taken to be the same
    below, above = [min(1e-8 + 1e-5 * abs(x), 1e6) * end for x, end in
                    zip((low, high), case["ends"])]
    below, above = min(below, 0.), max(above, 0.)
    keep, kwargs = [0, bins], {}
    if which in ("low", "both", "low, inner"):
        kwargs["radial_mc_low"] = low + below
    if which in ("high", "both", "high, inner"):
        kwargs["radial_mc_high"] = high + above
    if "inner" in which:
        at = case["inner"][0] % bins
        if which[0] == "l":
            keep[1] = at + 1
            kwargs["radial_mc_high"] = low + (at + 0.5) * case["width"]
        else:
            keep[0] = at
            kwargs["radial_mc_low"] = low + (at + 0.5) * case["width"]
    spec.shrink(**dict(kwargs))
    check_kept(rec, {"spec": {"axes": [ax]}}, spec, [keep], before)
    rec.check(spec.get_data().shape == (keep[1] - keep[0],) and
              spec.get_config().get_shape() == spec.get_data().shape,
              "shape %s", spec.get_data().shape)
    rec.hit(kwargs.get("radial_mc_low", low) < low or
            kwargs.get("radial_mc_high", high) > high)


@st.composite
def rois(draw):
    case = draw(shrinks(nonempty=True))
    # the regions are taken one after the other, none for some dimensions
    order = list(draw(st.permutations(range(len(case["limits"])))))
    case["order"] = order[:draw(st.integers(1, len(order)))]
    case["limits"] = [(one, two, "both" if i in case["order"] else "none")
                      for i, (one, two, _) in enumerate(case["limits"])]
    return case


@prop.facet(rois(), quick=500, rule="the ROI loses some of the contents")
def roi(case, rec):
    spec = make_spectrum(case["spec"])
    start = snapshot(spec)
    kwargs, keep = requested(case)
    wanted, left = {}, [(0, ax["bins"]) for ax in case["spec"]["axes"]]
    total = start["data"].sum()
    for at in case["order"]:
        name = case["spec"]["axes"][at]["name"]
        before = snapshot(spec)
        limits = kwargs[name + "_low"], kwargs[name + "_high"], name
        if not before["data"].sum():
            raises(rec, ValueError, lambda: spec.shrink_to_roi(*limits),
                   "a region of an empty spectrum")
            unchanged(rec, before, spec, "a rejected region")
            break
        spec.shrink_to_roi(*limits)
        left[at] = keep[at]
        data = check_kept(rec, case, spec, left, start)
        wanted[name] = list(axes_of(spec)[at][1:3]) + [
            data.sum() / before["data"].sum()]
        rec.check(spec.get_num_decays() == start["num_decays"],
                  "shrink_to_roi changed num_decays")
    rec.label("%d regions" % len(wanted))
    # earlier regions are still known
    for name, (low, high, efficiency) in wanted.items():
        found = spec.get_roi(name)
        rec.check(found["low"] == low and found["high"] == high,
                  "ROI bounds %s differ from the axis %s", found, (low, high))
        expect_close(rec, found["efficiency"], efficiency, "ROI efficiency")
    rec.hit(0 < spec.sum() < total)


@st.composite
def bad_shrinks(draw):
    case = draw(shrinks())
    case["bad"] = draw(st.sampled_from(["below", "above", "name", "suffix",
                                        "no bins", "beyond"]))
    case["margin"] = draw(st.sampled_from([0.1, 1., 100.]))
    case["target"] = draw(st.integers(0, len(case["limits"]) - 1))
    return case


@prop.facet(bad_shrinks(), quick=400, rule="every rejected request")
def shrink_rejected(case, rec):
    spec = make_spectrum(case["spec"])
    before = snapshot(spec)
    kwargs, _ = requested(case)
    ax = case["spec"]["axes"][case["target"]]
    margin = case["margin"] * (ax["high"] - ax["low"]) + \
        0.01 * max(abs(ax["low"]), abs(ax["high"]))
    kind = ValueError
    if case["bad"] == "below":
        kwargs[ax["name"] + "_low"] = ax["low"] - margin
    elif case["bad"] == "above":
        kwargs[ax["name"] + "_high"] = ax["high"] + margin
    elif case["bad"] == "no bins":      # upside down or nothing
        width = (ax["high"] - ax["low"]) / ax["bins"]
        one, two = sorted(v[0] % (ax["bins"] + 1)
                          for v in case["limits"][case["target"]][:2])
        kwargs[ax["name"] + "_low"] = ax["low"] + two * width
        kwargs[ax["name"] + "_high"] = ax["low"] + one * width
    elif case["bad"] == "beyond":       # the other bound is far outside
        kwargs.pop(ax["name"] + "_low", None)
        kwargs.pop(ax["name"] + "_high", None)
        if case["limits"][0][0][0] % 2:
            kwargs[ax["name"] + "_low"] = ax["high"] + margin
        else:
            kwargs[ax["name"] + "_high"] = ax["low"] - margin
    elif case["bad"] == "name":
        kwargs["absent_mc_low"] = ax["low"]
        kind = IndexError
    else:
        kwargs[ax["name"] + "_middle"] = ax["low"]
        kind = IndexError
    rec.hit()
    rec.label(case["bad"])
    raises(rec, kind, lambda: spec.shrink(**dict(kwargs)),
           "shrink(%s)" % kwargs)
    unchanged(rec, before, spec, "a rejected shrink")
