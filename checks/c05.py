""" C05 - projections are the sums over the other dimensions. """
import numpy
from hypothesis import strategies as st

from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C05")


@st.composite
def cases(draw):
    spec = draw(spectrum(max_dims=5, max_cells=400, negative=True, max_bins=6,
                         min_bins=1))
    n = len(spec["axes"])
    return {"spec": spec,
            "subset": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
            "pair": draw(st.permutations(list(range(n))))[:2]}


def reference(data, keep):
    """ Sum over all axes not in keep, by accumulation over the cells. """
    shape = [data.shape[i] for i in keep]
    result = numpy.zeros(shape)
    for index, value in numpy.ndenumerate(data):
        result[tuple(index[i] for i in keep)] += value
    return result


@prop.facet(cases(), quick=1750,
            rule="at least two dimensions with several bins and some content")
def project(case, rec):
    spec = make_spectrum(case["spec"])
    before = snapshot(spec)
    names = [ax["name"] for ax in case["spec"]["axes"]]
    data = before["data"]
    rec.hit(sum(n > 1 for n in data.shape) > 1 and data.any())
    rec.label("%d-d" % data.ndim)
    for i, name in enumerate(names):
        expected = reference(data, [i])
        expect_close(rec, spec.project(name), expected, "project(%s)" % name)
        rec.check(spec.get_config().get_index(name) == i,
                  "index of %s is %s", name,
                  spec.get_config().get_index(name))
    keep = [i for i, wanted in enumerate(case["subset"]) if wanted] or [0]
    result = spec.nd_project([names[i] for i in keep])
    expect_close(rec, result, reference(data, keep),
                 "nd_project(%s)" % [names[i] for i in keep])
    if len(names) > 1:
        one, two = case["pair"]
        surface = numpy.asarray(spec.surface(names[one], names[two]))
        expected = reference(data, sorted((one, two)))
        expect_close(rec, surface, expected, "surface(%s, %s)" %
                     (names[one], names[two]))
    raises(rec, IndexError, lambda: spec.project("absent_mc"),
           "projecting on an absent dimension")
    unchanged(rec, before, spec, "projecting")
    # what is returned is the caller's
    result += 1.
    spec.project(names[0])[...] = -1.
    unchanged(rec, before, spec, "changing a projection")


@st.composite
def splines(draw):
    axs = draw(axes(max_dims=3, max_cells=100, max_bins=6))
    axs[0] = draw(axis(axs[0]["name"], min_bins=6, max_bins=9))
    spec = {"axes": axs, "data": draw(contents(cells_of(axs))),
            "num_decays": 1.}
    return {"spec": spec, "k": draw(st.integers(1, 5)),
            "order": draw(st.permutations(list(range(len(axs)))))}


@prop.facet(splines(), quick=750, rule="the projection is not constant")
def interpolate(case, rec):
    """ the interpolation passes through the projection. """
    case["spec"]["axes"] = [case["spec"]["axes"][i] for i in case["order"]]
    spec = make_spectrum(case["spec"])
    ax = max(case["spec"]["axes"], key=lambda a: a["bins"])
    before = snapshot(spec)
    spline = spec.interpolate1d(ax["name"], k=case["k"])
    e = edges(ax)
    axis_ = [a["name"] for a in case["spec"]["axes"]].index(ax["name"])
    expected = reference(before["data"], [axis_])
    centres = [0.5 * (a + b) for a, b in zip(e, e[1:])]
    rec.hit(expected.std() > 0)
    expect_close(rec, [float(spline(x)) for x in centres], expected,
                 "interpolation at the bin centres", rtol=1e-6,
                 atol=1e-6 * (1. + expected.max()))
    if case["k"] == 1:
        middle = [float(spline(0.5 * (a + b)))
                  for a, b in zip(centres, centres[1:])]
        expect_close(rec, middle, 0.5 * (expected[1:] + expected[:-1]),
                     "linear interpolation between the bin centres",
                     rtol=1e-6, atol=1e-6 * (1. + expected.max()))
    unchanged(rec, before, spec, "interpolating")
