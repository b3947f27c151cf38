""" C07 - shifting a dimension moves its contents by the shift. """
import numpy
from hypothesis import strategies as st

from checks._convolve import judge_moved, lower_share, sloped
from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C07")


@st.composite
def with_axis(draw, min_bins=1, max_bins=10, flat=False):
    """ A spectrum with a distinguished axis. """
    others = draw(axes(max_dims=3 if not flat else 2,
                       min_dims=1 if flat else 0, max_cells=12,
                       names=["radial_mc", "time_mc", "energy_reco"]))
    ax = draw(axis("energy_mc", min_bins=min_bins, max_bins=max_bins))
    at = draw(st.integers(0, len(others)))
    axs = others[:at] + [ax] + others[at:]
    data = draw(contents(cells_of(axs)))
    return {"axes": axs, "data": data, "num_decays":
            draw(st.sampled_from([1., 100., 0.3])), "at": at,
            # contents may be small, like those of a normalised spectrum
            "unit": 1. if flat else draw(st.sampled_from(
                [1., 1., 2. ** -14, 2. ** -40, 2. ** 30])),
            "slope": draw(st.sampled_from([0., 0.1, 0.5, 2.]))
            if flat else 0.}


def untouched(rec, before, tool, spec, name):
    """ A shift by nothing. """
    rec.check(tool.get_shift() == 0., "default shift is %s", tool.get_shift())
    expect_close(rec, tool.shift(spec, name).get_data(), before["data"],
                 "contents for the default shift", rtol=0., atol=0.)


def in_unit(case):
    """ The spectrum with contents in units of case["unit"]. """
    spec = make_spectrum(case)
    put_data(spec, spec.get_data() * case["unit"])
    return spec


def per_unit(shot, case):
    return dict(shot, data=shot["data"] / case["unit"])


def shifter(value):
    from echidna.core.shift import Shift
    result = Shift()
    result.set_shift(value)
    return result


def isolated(rec, before, spec, result, what):
    """ The result is independent of the spectrum. """
    unchanged(rec, before, spec, what)
    ax = axes_of(result)[0]
    result.get_data()[...] = -5.
    result.shrink(**{ax[0] + "_high": ax[1] + (ax[2] - ax[1]) / ax[3]})
    unchanged(rec, before, spec, "changing the result of %s" % what)


@st.composite
def whole(draw):
    spec = draw(with_axis(max_bins=9))
    bins = spec["axes"][spec["at"]]["bins"]
    return {"spec": spec, "by": draw(st.integers(-bins - 2, bins + 2)),
            "digits": draw(st.sampled_from([None, 6])),
            "direct": draw(st.booleans())}


@prop.facet(whole(), quick=1440, rule="a non-zero shift which leaves content")
def whole_bins(case, rec):
    spec = in_unit(case["spec"])
    before = snapshot(spec)
    at, by = case["spec"]["at"], case["by"]
    ax = case["spec"]["axes"][at]
    width = (ax["high"] - ax["low"]) / ax["bins"]
    value = by * width
    if case["digits"] is not None and \
            abs(round(value, 6) - value) < 1e-12 * (1 + abs(value)):
        value = round(value, 6)
    tool = shifter(value)
    rec.check(tool.get_shift() == value, "shift set to %s is %s", value,
              tool.get_shift())
    result = (tool.shift_by_bin if case["direct"] else tool.shift)(
        spec, ax["name"])
    after = snapshot(result)
    expected = numpy.zeros(before["data"].shape)
    source = numpy.moveaxis(before["data"], at, 0)
    target = numpy.moveaxis(expected, at, 0)
    for b in range(ax["bins"]):
        if 0 <= b - by < ax["bins"]:
            target[b] = source[b - by]
    expect_close(rec, after["data"], expected,
                 "contents shifted by %d bins" % by, rtol=1e-9, atol=0.)
    rec.check(after["axes"] == before["axes"], "shift changed the axes")
    rec.check(after["num_decays"] == before["num_decays"],
              "shift changed num_decays")
    rec.hit(by != 0 and expected.any())
    from echidna.core.shift import Shift
    untouched(rec, before, Shift(), spec, ax["name"])
    isolated(rec, before, spec, result, "shifting")


@st.composite
def partial(draw, flat=False):
    spec = draw(with_axis(min_bins=4, max_bins=10, flat=flat))
    bins = spec["axes"][spec["at"]]["bins"]
    return {"spec": spec,
            "by": draw(st.integers(-bins, bins) if draw(st.booleans())
                       else st.integers(-2, 1)) +
            draw(st.one_of(st.floats(0.03, 0.45), st.floats(0.55, 0.97))),
            "k": draw(st.sampled_from([3, 3, None, 1, 2]))}


@prop.facet(partial(), quick=1440, rule="something remains in range, not only "
            "in the bins it was")
def interpolated(case, rec):
    spec = in_unit(case["spec"])
    before = snapshot(spec)
    at = case["spec"]["at"]
    ax = case["spec"]["axes"][at]
    value = case["by"] * (ax["high"] - ax["low"]) / ax["bins"]
    kwargs = {} if case["k"] is None else {"k": case["k"]}
    raises(rec, ValueError,
           lambda: shifter(value).shift_by_bin(spec, ax["name"]),
           "shift_by_bin with a shift of %s bins" % case["by"])
    result = shifter(value).shift(spec, ax["name"], **kwargs)
    after = snapshot(result)
    rec.check(after["axes"] == before["axes"] and
              after["num_decays"] == before["num_decays"],
              "shift changed the axes or num_decays")
    rec.hit(judge_moved(rec, per_unit(before, case["spec"]), per_unit(
        after, case["spec"]), ax, at, lambda x: x - value, case["k"] or 3))
    isolated(rec, before, spec, result, "shifting")


@prop.facet(partial(flat=True), quick=800, rule="at least one bin shares two "
            "different bins")
def overlap(case, rec):
    """ Bins are shared in proportion to their overlap. """
    spec = make_spectrum(case["spec"])
    put_data(spec, sloped(case["spec"]))
    before = snapshot(spec)
    at = case["spec"]["at"]
    ax = case["spec"]["axes"][at]
    value = case["by"] * (ax["high"] - ax["low"]) / ax["bins"]
    result = shifter(value).shift(spec, ax["name"])

    def share(b, found, position, lower):
        wanted = lower_share(position, lower, case["spec"]["slope"])
        rec.hit()
        rec.check(abs(found - wanted) < 2e-3, "bin %d has a fraction of %s of "
                  "the lower bin, expected %s", b, found, wanted)
    judge_moved(rec, before, snapshot(result), ax, at, lambda x: x - value, 3,
                overlap=share)
