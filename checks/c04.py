""" C04 - rebinning merges whole groups of bins and loses nothing. """
import numpy
from hypothesis import strategies as st

from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C04")


@st.composite
def rebins(draw):
    n = draw(st.integers(1, 4))
    most, cells = 5, 300
    if draw(st.integers(0, 7)) == 7:    # large
        n, most, cells = draw(st.sampled_from([(1, 1000, 3000), (2, 60, 3000),
                                               (5, 3, 1000), (6, 3, 1000)]))
    names = draw(st.permutations(DIMS))[:n]
    axs, factors, total = [], [], 1
    for name in names:
        new = draw(st.integers(1, 4 if n < 5 else 2))
        limit = max(1, min(most, cells // (total * new)))
        factor = draw(st.integers(1, limit))
        ax = draw(axis(name, max_bins=1))
        width = ax["high"] - ax["low"]
        bins = new * factor
        ax.update({"bins": bins, "high": ax["low"] + bins * width})
        total *= bins
        axs.append(ax)
        factors.append(factor)
    less = draw(st.sampled_from([0, 0, 0, 60]))
    return {"spec": {"axes": axs,
                     "data": ([v - less for v in draw(contents(
                         min(total, 400)))] * (total // 400 + 1))[:total],
                     "num_decays": draw(st.sampled_from([1., 33.3]))},
            "factors": factors,
            "second": draw(st.lists(st.integers(0, 3), min_size=n,
                                    max_size=n))}


def block_sum(data, factors):
    for axis_, factor in enumerate(factors):
        index = numpy.arange(0, data.shape[axis_], factor)
        data = numpy.add.reduceat(data, index, axis=axis_)
    return data


@prop.facet(rebins(), quick=2250, rule="bins of at least one axis are merged")
def rebin(case, rec):
    spec = make_spectrum(case["spec"])
    before = snapshot(spec)
    axs = case["spec"]["axes"]
    new_bins = tuple(ax["bins"] // f for ax, f in zip(axs, case["factors"]))
    spec.rebin(new_bins)
    expected = block_sum(before["data"], case["factors"])
    expect_close(rec, spec.get_data(), expected, "contents after rebin")
    for (name, low, high, bins), ax, n in zip(axes_of(spec), axs, new_bins):
        rec.check((name, low, high) == (ax["name"], ax["low"], ax["high"]),
                  "rebin changed the range of %s to %s", name, (low, high))
        rec.check(bins == n, "%s has %s bins, expected %s", name, bins, n)
    rec.check(spec.get_num_decays() == before["num_decays"],
              "rebin changed num_decays")
    rec.hit(any(f > 1 for f in case["factors"]))
    rec.label("%d-d" % len(axs))
    # in two steps, or filling after it: the same
    target = []
    for n, pick in zip(new_bins, case["second"]):
        choice = [d for d in range(1, n + 1) if n % d == 0]
        target.append(choice[pick % len(choice)])
    other = make_spectrum(case["spec"])
    spec.rebin(tuple(target))
    other.rebin(tuple(target))
    expect_close(rec, spec.get_data(), other.get_data(),
                 "rebinning in two steps")
    values = {ax["name"]: ax["high"] - 0.01 * (ax["high"] - ax["low"]) /
              ax["bins"] for ax in axs}
    last = float(spec.get_data()[(-1,) * len(axs)])
    spec.fill(**values)
    expect_close(rec, spec.get_data()[(-1,) * len(axs)], last + 1.,
                 "last bin after filling the rebinned spectrum")


@st.composite
def bad_rebins(draw):
    case = draw(rebins())
    case["kind"] = draw(st.sampled_from(["factor", "factor", "more", "less",
                                         "negative", "fraction", "zero"]))
    case["target"] = draw(st.integers(0, 3))
    case["extra"] = draw(st.integers(1, 3))
    return case


@prop.facet(bad_rebins(), quick=1250, rule="every rejected request")
def rebin_rejected(case, rec):
    spec = make_spectrum(case["spec"])
    before = snapshot(spec)
    axs = case["spec"]["axes"]
    new_bins = [ax["bins"] // f for ax, f in zip(axs, case["factors"])]
    if case["kind"] == "more":
        new_bins.append(1)
    elif case["kind"] == "less":
        new_bins.pop()
    elif case["kind"] in ("negative", "fraction", "zero"):
        target = case["target"] % len(axs)
        new_bins[target] = {"negative": -new_bins[target], "zero": 0,
                            "fraction": axs[target]["bins"] /
                            (axs[target]["bins"] + 0.5)}[case["kind"]]
        if case["kind"] == "fraction" and axs[target]["bins"] > 1:
            new_bins[target] = axs[target]["bins"] / 2. \
                if axs[target]["bins"] % 2 else 0.5
    else:
        target = case["target"] % len(axs)
        bins = axs[target]["bins"]
        wrong = [n for n in range(2, bins) if bins % n] or \
            [bins + case["extra"]]
        new_bins[target] = wrong[case["extra"] % len(wrong)]
    rec.hit()
    rec.label(case["kind"])
    raises(rec, ValueError, lambda: spec.rebin(tuple(new_bins)),
           "rebin(%s) of shape %s" % (new_bins, before["data"].shape))
    unchanged(rec, before, spec, "a rejected rebin")
