""" Generators and helpers shared by the checks. """
import collections
import math

import numpy
from hypothesis import strategies as st

from vlib.runner import HarnessError, Violation  # noqa: F401

# ------------------------------------------------------------- generators
DIMS = ["energy_mc", "radial_mc", "time_mc", "energy_reco", "radial3_reco",
        "energy_truth"]


def dyadic(lo, hi, per=8):
    """ Multiples of 1/per: sums and products stay exact. """
    return st.integers(int(math.ceil(lo * per)),
                       int(math.floor(hi * per))).map(lambda n: n / float(per))


def decimals(lo, hi, places=2):
    scale = 10 ** places
    return st.integers(int(math.ceil(lo * scale)),
                       int(math.floor(hi * scale))).map(
        lambda n: round(n / float(scale), places))


def numbers(lo, hi):
    return st.one_of(dyadic(lo, hi), decimals(lo, hi),
                     st.floats(lo, hi, allow_nan=False, allow_infinity=False))


def positives(lo, hi):
    return numbers(lo, hi).filter(lambda x: x > 0)


LOWS = st.one_of(st.just(0.), st.just(0.), dyadic(-8, 16), decimals(-5, 10))
WIDTHS_EXACT = st.sampled_from([0.125, 0.25, 0.5, 1., 1.5, 2., 4., 100.])
WIDTHS = st.one_of(WIDTHS_EXACT, st.sampled_from(
    [0.1, 0.01, 0.2, 0.3, 0.7, 1. / 3., 55.0, 0.05, 2.6]))


@st.composite
def axis(draw, name, max_bins=8, min_bins=1, exact=False, lows=None):
    bins = draw(st.integers(min_bins, max_bins))
    if exact:
        low = draw(lows if lows is not None else dyadic(-8, 16, 4))
        width = draw(WIDTHS_EXACT)
    else:
        low = draw(lows if lows is not None else LOWS)
        width = draw(WIDTHS)
    return {"name": name, "low": low, "high": low + bins * width,
            "bins": bins}


@st.composite
def axes(draw, max_dims=3, min_dims=1, max_cells=120, max_bins=8, min_bins=1,
         exact=False, names=None, lows=None):
    n = draw(st.integers(min_dims, max_dims))
    chosen = draw(st.permutations(names or DIMS))[:n]
    result = []
    cells = 1
    for name in chosen:
        ax = draw(axis(name, max_bins=max(min_bins,
                                          min(max_bins, max_cells // cells)),
                       min_bins=min_bins, exact=exact, lows=lows))
        cells *= ax["bins"]
        result.append(ax)
    return result


def cells_of(axes_):
    n = 1
    for ax in axes_:
        n *= ax["bins"]
    return n


def contents(n):
    """ n bin contents as small integers (content = value / 4). """
    dense = st.binary(min_size=n, max_size=n).map(list)
    sparse = st.lists(st.tuples(st.integers(0, max(n - 1, 0)),
                                st.integers(1, 255)),
                      max_size=4).map(lambda ps: _scatter(n, ps))
    return st.one_of(dense, sparse) if n > 4 else dense


def _scatter(n, pairs):
    out = [0] * n
    for index, value in pairs:
        out[index] = value
    return out


@st.composite
def spectrum(draw, num_decays=None, nonempty=False, negative=False, **kwargs):
    axs = draw(axes(**kwargs))
    data = draw(contents(cells_of(axs)))
    if negative:
        # as of a difference of spectra
        less = draw(st.sampled_from([0, 0, 0, 0, 60]))
        data = [value - less for value in data]
    if nonempty and not any(data):
        data[draw(st.integers(0, len(data) - 1))] = 4
    return {"axes": axs, "data": data,
            "num_decays": draw(num_decays or st.sampled_from(
                [1., 10., 100., 12.5, 0.3, 1000., 1.e6]))}


# --------------------------------------------------------------- building
def make_config(axs, name="config"):
    from echidna.core.config import SpectraConfig
    from echidna.core.parameter import SpectraParameter
    pars = collections.OrderedDict()
    for ax in axs:
        pars[ax["name"]] = SpectraParameter(ax["name"], ax["low"], ax["high"],
                                            ax["bins"])
    return SpectraConfig(name, pars)


def data_array(case):
    return numpy.array(case["data"], dtype=float).reshape(
        tuple(ax["bins"] for ax in case["axes"])) / 4.


def make_spectrum(case, name="spec", fit_config=None):
    from echidna.core.spectra import Spectra
    spec = Spectra(name, case["num_decays"], make_config(case["axes"]),
                   fit_config=fit_config, background_name=name)
    put_data(spec, data_array(case))
    return spec


def put_data(spec, data):
    """ Sets the contents of a spectrum. """
    if spec._data.shape != data.shape:
        raise Violation("a new spectrum has shape %s for bins %s"
                        % (spec._data.shape, data.shape))
    spec._data[...] = data


def axes_of(spec):
    """ [(name, low, high, bins)] as the spectrum reports them. """
    config = spec.get_config()
    return [(name, config.get_par(name).get_low(),
             config.get_par(name).get_high(),
             config.get_par(name).get_bins()) for name in config.get_pars()]


def snapshot(spec):
    """ All observable state of a spectrum, detached from it. """
    return {"axes": axes_of(spec),
            "data": numpy.array(spec.get_data(), copy=True),
            "num_decays": spec.get_num_decays(),
            "name": spec.get_name(),
            "raw_events": spec._raw_events,
            "bipo": spec.get_bipo(),
            "style": dict(spec.get_style()),
            "rois": {k: dict(v) for k, v in spec._rois.items()}}


def same_snapshot(a, b):
    for key in a:
        if key == "data":
            if a[key].shape != b[key].shape or \
                    not numpy.array_equal(a[key], b[key], equal_nan=True):
                return "data"
        elif a[key] != b[key]:
            return key
    return None


def unchanged(rec, before, spec, what):
    key = same_snapshot(before, snapshot(spec))
    if key is not None:
        rec.fail("%s changed %s of the spectrum: %s -> %s", what, key,
                 before[key], snapshot(spec)[key])


# -------------------------------------------------------------- comparing
def close(a, b, rtol=1e-9, atol=1e-9):
    """ Same shape and numerically equal within tolerance; never raises. """
    try:
        a = numpy.asarray(a, dtype=float)
        b = numpy.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return False
    if a.shape != b.shape:
        return False
    return bool(numpy.allclose(a, b, rtol=rtol, atol=atol, equal_nan=False))


def expect_close(rec, actual, expected, what, rtol=1e-9, atol=1e-9):
    if not close(actual, expected, rtol, atol):
        rec.fail("%s: got %s, expected %s", what, _short(actual),
                 _short(expected))


def _short(value):
    text = numpy.array2string(value, threshold=30) \
        if isinstance(value, numpy.ndarray) else repr(value)
    return text if len(text) < 600 else text[:600] + "..."


def raises(rec, kinds, func, what):
    """ func must raise one of kinds. """
    try:
        func()
    except kinds:
        return
    except Violation:
        raise
    except Exception as exc:
        rec.fail("%s: raised %s (%s) instead of %s", what,
                 type(exc).__name__, exc, kinds)
    rec.fail("%s: was accepted, expected %s", what, kinds)


def edges(ax):
    """ Bin edges of an axis, computed independently of the code. """
    low, high, bins = ax["low"], ax["high"], ax["bins"]
    return [low + (high - low) * i / float(bins) for i in range(bins + 1)]
