""" C02 - a spectrum and its binning stay consistent over any history. """
import copy

import numpy
from hypothesis import strategies as st

from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C02")

OPS = st.one_of(
    st.tuples(st.just("fill"), st.lists(st.floats(0.02, 0.98), min_size=4,
                                        max_size=4), dyadic(0.25, 4)),
    st.tuples(st.just("fill_bad"), st.integers(0, 3), st.booleans()),
    st.tuples(st.just("scale"), st.sampled_from([1., 2., 10., 0.5, 7.3]),
              st.just(0)),
    st.tuples(st.just("shrink"), st.integers(0, 3),
              st.tuples(st.integers(0, 9), st.integers(0, 9))),
    st.tuples(st.just("shrink_bad"), st.integers(0, 3), st.booleans()),
    st.tuples(st.just("cut"), st.integers(0, 3),
              st.tuples(st.integers(0, 9), st.integers(0, 9))),
    st.tuples(st.just("roi"), st.integers(0, 3),
              st.tuples(st.integers(0, 9), st.integers(0, 9))),
    st.tuples(st.just("rebin"), st.integers(0, 3), st.integers(0, 5)),
    st.tuples(st.just("rebin_bad"), st.integers(0, 3), st.integers(1, 5)),
    st.tuples(st.just("add"), st.just(0), st.just(0)),
    st.tuples(st.just("copy"), st.booleans(), st.just(0)),
    st.tuples(st.just("style"), st.sampled_from(["red", "green", "black"]),
              st.booleans()),
)


@st.composite
def histories(draw):
    spec = draw(spectrum(max_dims=3, max_cells=150, max_bins=12, min_bins=2,
                         nonempty=True))
    if draw(st.integers(0, 9)) == 0:
        spec["data"] = [0] * len(spec["data"])
    return {"spec": spec, "raw": draw(st.sampled_from([7, 0])),
            "ops": draw(st.lists(OPS, min_size=4,
                                               max_size=16))}


class Model(object):
    def __init__(self, case, raw):
        self.names = [ax["name"] for ax in case["axes"]]
        self.edges = [numpy.array(edges(ax)) for ax in case["axes"]]
        self.data = data_array(case)
        self.num_decays = float(case["num_decays"])
        self.raw_events = raw
        self.rois = {}      # by name: low, high and efficiency
        self.style = {"color": "blue"}

    def copy(self):
        return copy.deepcopy(self)


def compare(rec, model, spec, what):
    config = spec.get_config()
    data = numpy.asarray(spec.get_data())
    rec.check(list(config.get_pars()) == model.names,
              "after %s the parameters are %s", what, config.get_pars())
    rec.check(tuple(config.get_shape()) == tuple(data.shape),
              "after %s the config has shape %s, the data %s", what,
              config.get_shape(), data.shape)
    expect_close(rec, data, model.data, "contents after %s" % what,
                 rtol=1e-9)
    for name, expected in zip(model.names, model.edges):
        span = abs(expected).max() + (expected[-1] - expected[0])
        expect_close(rec, config.get_par(name).get_bin_boundaries(), expected,
                     "edges of %s after %s" % (name, what), rtol=0,
                     atol=1e-9 * span)
        expect_close(rec, config.get_par(name).get_bin_centres(),
                     0.5 * (expected[1:] + expected[:-1]),
                     "bin centres of %s after %s" % (name, what), rtol=0,
                     atol=1e-9 * span)
    expect_close(rec, spec.get_num_decays(), model.num_decays,
                 "num_decays after %s" % what)
    expect_close(rec, spec.sum(), model.data.sum(), "sum after %s" % what)
    rec.check(spec._raw_events == model.raw_events,
              "after %s there are %s raw events, %s expected", what,
              spec._raw_events, model.raw_events)
    rec.check(spec.get_style() == model.style,
              "after %s the style is %s, %s expected", what,
              spec.get_style(), model.style)
    for name, (low, high, efficiency) in model.rois.items():
        roi = spec.get_roi(name)
        atol = 1e-9 * (abs(low) + abs(high) + 1e-3)
        expect_close(rec, [roi["low"], roi["high"]], [low, high],
                     "ROI bounds of %s after %s" % (name, what), rtol=1e-9,
                     atol=atol)
        expect_close(rec, roi["efficiency"], efficiency,
                     "ROI efficiency of %s after %s" % (name, what))


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


@prop.facet(histories(), quick=1750,
            rule="at least two of shrink/cut/rebin/roi actually change the "
                 "binning")
def history(case, rec):
    spec = make_spectrum(case["spec"])
    spec._raw_events = case["raw"]
    model = Model(case["spec"], case["raw"])
    others = []     # (spectrum, model) which must not change any more
    changes = 0
    compare(rec, model, spec, "creation")
    for number, (op, a, b) in enumerate(case["ops"]):
        what = "step %d (%s)" % (number, op)
        n_dim = len(model.names)
        axis = a % n_dim if isinstance(a, int) else 0
        name = model.names[axis]
        if op == "fill":
            values, index = {}, []
            for i, par in enumerate(model.names):
                bins = len(model.edges[i]) - 1
                pos = a[i] * bins
                frac = pos - int(pos)
                # stay off the edges
                pos = int(pos) + min(max(frac, 0.01), 0.99)
                low, high = model.edges[i][0], model.edges[i][-1]
                values[par] = low + pos * (high - low) / bins
                index.append(int(pos))
            spec.fill(weight=b, **values)
            model.data[tuple(index)] += b
        elif op == "fill_bad":
            values = {par: 0.5 * (e[0] + e[-1]) for par, e in
                      zip(model.names, model.edges)}
            e = model.edges[axis]
            span = e[-1] - e[0]
            values[name] = e[0] - 0.1 * span if b else e[-1] + 0.1 * span
            raises(rec, ValueError, lambda: spec.fill(**values), what)
        elif op == "scale":
            spec.scale(a)
            model.data = model.data * (a / model.num_decays)
            model.num_decays = a
        elif op in ("shrink", "cut", "roi"):
            bins = len(model.edges[axis]) - 1
            lo, hi = sorted((b[0] % (bins + 1), b[1] % (bins + 1)))
            if lo == hi:
                lo, hi = (lo - 1, hi) if lo == bins else (lo, hi + 1)
            low, high = model.edges[axis][lo], model.edges[axis][hi]
            index = [slice(None)] * n_dim
            index[axis] = slice(lo, hi)
            before = model.data.sum()
            if before <= 0 and op != "shrink":
                func = spec.cut if op == "cut" else spec.shrink_to_roi
                args, kwargs = ((), {name + "_low": low, name + "_high": high}
                                ) if op == "cut" else ((low, high, name), {})
                raises(rec, Exception, lambda: func(*args, **kwargs),
                       what + " of an empty spectrum")
                compare(rec, model, spec, what + ", rejected")
                rec.label("empty")
                continue
            if op == "shrink":
                spec.shrink(**{name + "_low": low, name + "_high": high})
            elif op == "cut":
                spec.cut(**{name + "_low": low, name + "_high": high})
            else:
                spec.shrink_to_roi(low, high, name)
            model.data = model.data[tuple(index)].copy()
            model.edges[axis] = model.edges[axis][lo:hi + 1]
            if op == "cut":
                model.num_decays *= model.data.sum() / before
                if model.num_decays == 0:   # nothing left to scale
                    compare(rec, model, spec, what)
                    break
            elif op == "roi":
                model.rois[name] = (low, high, model.data.sum() / before)
            changes += hi - lo < bins
        elif op == "shrink_bad":
            e = model.edges[axis]
            margin = 0.3 * (e[-1] - e[0]) + 0.01 * abs(e).max()
            kwargs = {name + "_low": e[0] - margin} if b else \
                {name + "_high": e[-1] + margin}
            raises(rec, ValueError, lambda: spec.shrink(**kwargs), what)
        elif op in ("rebin", "rebin_bad"):
            new_bins = [len(e) - 1 for e in model.edges]
            if op == "rebin":
                choice = divisors(new_bins[axis])
                new_bins[axis] = choice[b % len(choice)]
                spec.rebin(tuple(new_bins))
                factor = (len(model.edges[axis]) - 1) // new_bins[axis]
                shape = list(model.data.shape)
                shape[axis:axis + 1] = [new_bins[axis], factor]
                model.data = model.data.reshape(shape).sum(axis + 1)
                model.edges[axis] = model.edges[axis][::factor]
                changes += factor > 1
            else:
                wrong = new_bins[axis] + b
                for i in range(axis):       # earlier axes: valid change
                    new_bins[i] = divisors(new_bins[i])[0]
                new_bins[axis] = wrong
                raises(rec, ValueError, lambda: spec.rebin(tuple(new_bins)),
                       what)
        elif op == "add":
            other = copy.copy(spec)
            other._raw_events += 3
            spec.add(other)
            model.data = model.data * 2
            model.num_decays *= 2
            model.raw_events = 2 * model.raw_events + 3
        elif op == "style":
            if b:       # in place
                spec.get_style()["color"] = a
            else:
                spec.set_style({"color": a})
            model.style = {"color": a}
        elif op == "copy":
            clone = copy.copy(spec)
            if a:       # go on with the copy, the original stays as it is
                others.append((spec, model.copy()))
                spec = clone
            else:
                others.append((clone, model.copy()))
        rec.label(op)
        compare(rec, model, spec, what)
        for other, expected in others:
            compare(rec, expected, other, "%s on a copy" % what)
    rec.hit(changes >= 2)
