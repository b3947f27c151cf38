""" C08 - scaling a dimension moves its contents by the factor. """
import numpy
from hypothesis import strategies as st

from checks._convolve import judge_moved, lower_share, sloped
from checks.c07 import in_unit, isolated, per_unit, with_axis
from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C08")


def scaler(value):
    from echidna.core.scale import Scale
    result = Scale()
    result.set_scale_factor(value)
    return result


FACTORS = st.one_of(st.sampled_from([1.1, 0.9, 1.5, 0.5, 2., 1.01, 0.99, 3.]),
                    st.floats(0.3, 3.), st.floats(0.9, 1.1),
                    st.sampled_from([0.01, 100.]))


@st.composite
def scalings(draw, flat=False):
    return {"spec": draw(with_axis(min_bins=4, max_bins=10, flat=flat)),
            "factor": draw(FACTORS),
            "k": draw(st.sampled_from([3, 3, None, 1, 2]))}


@prop.facet(scalings(), quick=2250, rule="something remains in range and the "
            "factor is not one")
def scale(case, rec):
    spec = in_unit(case["spec"])
    before = snapshot(spec)
    at = case["spec"]["at"]
    ax = case["spec"]["axes"][at]
    factor = case["factor"]
    kwargs = {} if case["k"] is None else {"k": case["k"]}
    tool = scaler(factor)
    rec.check(tool.get_scale_factor() == factor, "factor set to %s is %s",
              factor, tool.get_scale_factor())
    result = tool.scale(spec, ax["name"], **kwargs)
    after = snapshot(result)
    rec.check(after["axes"] == before["axes"] and
              after["num_decays"] == before["num_decays"],
              "scale changed the axes or num_decays")
    rec.hit(judge_moved(rec, per_unit(before, case["spec"]), per_unit(
        after, case["spec"]), ax, at, lambda x: x / factor,
        case["k"] or 3) and factor != 1.)
    isolated(rec, before, spec, result, "scaling")


@prop.facet(with_axis(min_bins=4, max_bins=10), quick=750,
            rule="the spectrum has content")
def identity(case, rec):
    spec = make_spectrum(case)
    before = snapshot(spec)
    ax = case["axes"][case["at"]]
    # the code stays 1e-6 below the centre of the last bin
    width = (ax["high"] - ax["low"]) / ax["bins"]
    fuzz = 1e-6 + before["data"].max() * ax["bins"] * (1e-5 / width + 1e-6)
    for tool in (scaler(1.), scaler(1)):
        result = tool.scale(spec, ax["name"])
        expect_close(rec, result.get_data(), before["data"],
                     "contents scaled by one", rtol=1e-4, atol=fuzz)
    from echidna.core.scale import Scale
    expect_close(rec, Scale().scale(spec, ax["name"]).get_data(),
                 before["data"], "contents for the default factor",
                 rtol=1e-4, atol=fuzz)
    rec.hit(before["data"].any())
    unchanged(rec, before, spec, "scaling")


@prop.facet(scalings(flat=True), quick=1000, rule="at least one bin shares two "
            "different bins")
def overlap(case, rec):
    """ Bins share what a bin width around the source has of them. """
    spec = make_spectrum(case["spec"])
    put_data(spec, sloped(case["spec"]))
    before = snapshot(spec)
    at = case["spec"]["at"]
    ax = case["spec"]["axes"][at]
    factor = case["factor"]
    result = scaler(factor).scale(spec, ax["name"])

    def share(b, found, position, lower):
        wanted = lower_share(position, lower, case["spec"]["slope"])
        rec.hit()
        rec.check(abs(found - wanted) < 2e-3, "bin %d has a fraction of %s of "
                  "the lower bin, expected %s", b, found, wanted)
    judge_moved(rec, before, snapshot(result), ax, at, lambda x: x / factor,
                3, overlap=share)


@prop.facet(st.fixed_dictionaries({
    "good": FACTORS, "bad": st.one_of(st.just(0.), st.floats(-10., 0.),
                                      st.just(-1), st.just(0))}),
    quick=500, rule="every case")
def factors(case, rec):
    tool = scaler(case["good"])
    raises(rec, ValueError, lambda: tool.set_scale_factor(case["bad"]),
           "a scale factor of %s" % case["bad"])
    rec.check(tool.get_scale_factor() == case["good"],
              "a rejected scale factor was kept")
    rec.hit()
