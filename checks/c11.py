""" C11 - the bins of a spectral axis tile its range. """
import bisect

import numpy
from hypothesis import strategies as st

from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C11")


@st.composite
def axes_and_values(draw):
    ax = draw(axis("energy_mc", max_bins=40))
    kind = draw(st.integers(0, 11))
    if kind > 9:        # fine
        ax["bins"] = draw(st.integers(41, 1500))
    elif kind == 9:
        ax["bins"] = draw(st.sampled_from([10000, 16384, 20000, 33333]))
    elif kind == 8:     # narrow or wide
        size = draw(st.sampled_from([1e-7, 1e-12, 1e6, 1e12]))
        ax["low"] *= size
        ax["high"] *= size
    return {"axis": ax,
            "values": draw(st.lists(st.floats(0., 1.), min_size=1,
                                    max_size=8)),
            "out": draw(st.sampled_from([0.01, 1., 100.])),
            "set": draw(st.dictionaries(
                st.sampled_from(["low", "high", "bins"]),
                st.integers(1, 50), max_size=3)),
            # to another range altogether, its ends set in either order
            "far": draw(st.sampled_from([0, 0, 1, -1])),
            "order": draw(st.permutations(["low", "high", "bins"]))}


def make(ax):
    from echidna.core.parameter import SpectraParameter
    return SpectraParameter(ax["name"], ax["low"], ax["high"], ax["bins"])


def judge(rec, par, ax, values, out):
    low, high, bins = ax["low"], ax["high"], ax["bins"]
    width = (high - low) / float(bins)
    tol = 1e-9 * max(abs(low), abs(high), width)
    e = edges(ax)
    expect_close(rec, par.get_width(), width, "width", atol=tol)
    expect_close(rec, par.get_bin_boundaries(), e, "boundaries", rtol=0,
                 atol=tol)
    centres = [0.5 * (a + b) for a, b in zip(e, e[1:])]
    expect_close(rec, par.get_bin_centres(), centres, "centres", rtol=0,
                 atol=tol)
    rec.check(par.get_bins() == bins and par.get_low() == low and
              par.get_high() == high, "bounds are %s, %s, %s",
              par.get_low(), par.get_high(), par.get_bins())
    for i in range(bins) if bins < 60 else (0, 1, bins // 3, bins // 2,
                                            bins - 2, bins - 1):
        expect_close(rec, par.get_bin_centre(i), centres[i],
                     "centre of bin %d" % i, rtol=0, atol=tol)
        rec.check(par.get_bin(centres[i]) == i, "bin of the centre of bin %d "
                  "is %s", i, par.get_bin(centres[i]))
    for bad in (-1, bins, bins + 3):
        raises(rec, ValueError, lambda: par.get_bin_centre(bad),
               "centre of bin %d of %d" % (bad, bins))
    raises(rec, TypeError, lambda: par.get_bin_centre(0.5),
           "centre of bin 0.5")
    for fraction in values:
        value = min(low + fraction * (high - low), high)
        index = par.get_bin(value)
        rec.check(0 <= index < bins and isinstance(
            index, (int, numpy.integer)), "bin of %s is %r of %d", value,
            index, bins)
        rec.check(e[index] - tol <= value <= e[index + 1] + tol,
                  "%s is not in bin %d from %s to %s", value, index, e[index],
                  e[index + 1])
        near = par.round(value)
        distance = min(abs(value - edge) for edge in e)
        rec.check(abs(abs(near - value) - distance) <= tol and
                  min(abs(near - edge) for edge in e) <= tol,
                  "%s rounded to %s, edges are %s", value, near, e)
    span = out * (high - low)
    raises(rec, ValueError, lambda: par.get_bin(low - span),
           "bin of a value below the range")
    raises(rec, ValueError, lambda: par.get_bin(high + span),
           "bin of a value above the range")


@prop.facet(axes_and_values(), quick=2400, rule="more than one bin")
def binning(case, rec):
    ax = case["axis"]
    par = make(ax)
    judge(rec, par, ax, case["values"], case["out"])
    rec.hit(ax["bins"] > 1)
    # and after changing it
    new = dict(ax)
    kwargs = {}
    if "low" in case["set"]:
        kwargs["low"] = ax["low"] - 0.25 * case["set"]["low"]
    if "high" in case["set"]:
        kwargs["high"] = ax["high"] + 0.5 * case["set"]["high"]
    if "bins" in case["set"]:
        kwargs["bins"] = case["set"]["bins"]
    if case["far"]:
        far = case["far"] * 3. * (ax["high"] - ax["low"])
        kwargs["low"], kwargs["high"] = ax["low"] + far, ax["high"] + far
    kwargs = {k: kwargs[k] for k in case["order"] if k in kwargs}
    new.update(kwargs)
    par.set_par(**kwargs)
    judge(rec, par, new, case["values"], case["out"])
    raises(rec, TypeError, lambda: par.set_par(middle=1.),
           "setting an unknown property")
    # the dictionary describes the axis
    described = par.to_dict()
    rec.check(described == {"low": new["low"], "high": new["high"],
                            "bins": new["bins"]}, "to_dict gives %s",
              described)
