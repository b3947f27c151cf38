""" What shifting and scaling an axis by interpolation have in common.

Both move the contents of one axis: bin with centre x takes what the
interpolated projection has at source(x), shared over the other dimensions
like the (at most two) bins next to source(x); the total is kept.
"""
import numpy
from scipy import interpolate

from vlib.common import *  # noqa


def project_onto(data, axis_):
    return data.sum(axis=tuple(i for i in range(data.ndim) if i != axis_))


def sloped(case):
    """ Contents whose projection onto the axis is on a straight line. """
    data = data_array(case)
    rows = numpy.moveaxis(data, case["at"], 0)
    rows = rows.reshape(rows.shape[0], -1)
    top = rows.shape[1] * 64. * (
        1. + case["slope"] * numpy.arange(rows.shape[0]))
    rows[:, -1] += top - rows.sum(axis=1)
    shape = [case["axes"][case["at"]]["bins"]] + \
        [ax["bins"] for i, ax in enumerate(case["axes"]) if i != case["at"]]
    return numpy.moveaxis(rows.reshape(shape), 0, case["at"])


def lower_share(position, lower, slope):
    """ Of the content between position -+ 0.5 bins, what the bin has whose
    number is lower, if the line of the projection is interpolated. """
    def content(low, high):
        return (high - low) * (1. + slope * 0.5 * (low + high))
    edge = lower + 0.5
    below = content(position - 0.5, edge)
    return below / (below + content(edge, position + 0.5))


def judge_moved(rec, before, after, ax, axis_, source, k, overlap=None):
    """ after = the result for data before; source(x) = where x comes from.
    Returns True if something of it was in range. """
    low, high, bins = ax["low"], ax["high"], ax["bins"]
    step = (high - low) / bins
    data = before["data"]
    new = after["data"]
    rec.check(new.shape == data.shape, "shape changed to %s", new.shape)
    rec.check(bool(numpy.isfinite(new).all()), "contents are not finite: %s",
              new)
    rec.check(bool((new >= -1e-9).all()), "negative contents: %s", new.min())
    centres = low + (numpy.arange(bins) + 0.5) * step
    marginal = project_onto(data, axis_)
    spline = interpolate.InterpolatedUnivariateSpline(centres, marginal, k=k)
    slices = numpy.moveaxis(data, axis_, 0).reshape(bins, -1)
    moved = numpy.moveaxis(new, axis_, 0).reshape(bins, -1)
    sums = slices.sum(axis=1)
    expected = numpy.zeros(bins)
    neighbours = {}
    vague = False
    fuzz = 0.
    for b in range(bins):
        current = source(centres[b])
        tol = 1e-7 * max(abs(low), abs(high), step)
        if abs(current - low) < tol or abs(current - high) < tol:
            vague = True
        if current < low or current >= high:
            continue
        position = (current - low) / step - 0.5     # in bins
        if position > bins - 1:     # the code stays 1e-6 below the last centre
            fuzz = 4.e-6 / step * marginal.max()
        current = min(max(current, low + 0.5 * step), high - 0.5 * step)
        y = float(spline(current))
        if abs(y) < 1e-6 * (1. + marginal.max()):
            vague = vague or y != 0.
        if y <= 0:
            continue
        left = int(numpy.floor(position + 1e-9))
        pair = [i for i in (left, left + 1) if 0 <= i < bins]
        if abs(position - round(position)) < 1e-6:
            # right on a centre: only this bin, or a neighbour by rounding
            pair = [i for i in (round(position) - 1, round(position),
                                round(position) + 1) if 0 <= i < bins]
        filled = [i for i in pair if sums[i] > 0]
        if not filled:
            continue
        if len(filled) < len(pair) and len(pair) > 2:
            vague = True
        expected[b] = y
        neighbours[b] = (position, pair, filled)
    if vague or fuzz > 1e-3 * expected.max():
        rec.label("on a boundary")
        return False
    total = sums.sum()
    if expected.sum() <= 0:
        rec.label("all out of range")
        rec.check(not new.any(), "contents appeared out of nothing: %s", new)
        return False
    expect_close(rec, new.sum(), total, "total", rtol=1e-6)
    expected *= total / expected.sum()
    found = moved.sum(axis=1)
    expect_close(rec, found, expected, "projection of the result", rtol=2e-3,
                 atol=2e-3 * expected.max())
    for b, (position, pair, filled) in neighbours.items():
        shape = moved[b] / expected[b] if expected[b] > 1e-3 * total / bins \
            else None
        if shape is None:
            continue
        shape = moved[b] / moved[b].sum()
        parts = [slices[i] / sums[i] for i in filled]
        if len(parts) == 1:
            expect_close(rec, shape, parts[0], "distribution over the other "
                         "dimensions in bin %d" % b, rtol=1e-3, atol=1e-3)
        elif len(parts) == 2:
            diff = parts[0] - parts[1]
            norm = float((diff ** 2).sum())
            t = 0.5 if norm == 0 else float(
                numpy.clip(((shape - parts[1]) * diff).sum() / norm, 0, 1))
            expect_close(rec, shape, t * parts[0] + (1 - t) * parts[1],
                         "distribution over the other dimensions in bin %d "
                         "(mixture of bins %s)" % (b, filled), rtol=1e-3,
                         atol=1e-3)
            if overlap and norm > 1e-4 and 1 <= position <= bins - 2:
                overlap(b, t, position, pair[0])
    return True
