""" C14 - test statistics are the formulae they are named after. """
import math

import numpy
from hypothesis import strategies as st

from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C14")

NAMES = ["BakerCousinsChi", "BakerCousinsChiUp", "BakerCousinsLL", "Neyman",
         "Pearson", "ExtendedLL"]
TINY = 1.e-34
# these write the limit of zero into the arrays of the caller, and divide
# integers as integers (known findings)
IN_PLACE = ["BakerCousinsLL", "Neyman", "Pearson"]


def term(name, obs, exp):
    """ The statistic of one bin. """
    obs, exp = float(obs), float(exp)
    if name in ("BakerCousinsChi", "BakerCousinsChiUp", "BakerCousinsLL"):
        if name == "BakerCousinsChiUp" and obs > exp:
            return 0.
        exp = max(exp, TINY)
        value = exp
        if obs >= TINY:
            value = exp - obs + obs * (math.log(obs) - math.log(exp))
        return value if name == "BakerCousinsLL" else 2. * value
    if name == "Neyman":
        obs = max(obs, TINY)
        return obs if exp < TINY else (exp - obs) ** 2 / obs
    if name == "Pearson":
        exp = max(exp, TINY)
        return exp if obs < TINY else (obs - exp) ** 2 / exp
    return max(exp, TINY) - obs * math.log(max(exp, TINY))


def statistic(name, per_bin=False):
    from echidna.fit import test_statistic
    return getattr(test_statistic, name)(per_bin=per_bin)


COUNTS = st.one_of(st.just(0.), st.integers(0, 50).map(float),
                   st.floats(1.e-3, 1.e4), st.sampled_from(
                       [1., 0.5, 1.e-40, 1.e-12, 3.e5]))


@st.composite
def counts(draw, ints=False):
    n = draw(st.integers(1, 8))
    each = st.integers(0, 60) if ints else COUNTS
    exp = draw(st.lists(each, min_size=n, max_size=n))
    obs = list(exp) if draw(st.integers(0, 9)) == 0 else \
        draw(st.lists(each, min_size=n, max_size=n))
    return {"name": draw(st.sampled_from(NAMES)), "obs": obs, "exp": exp}


def tolerance(case, per_bin=False):
    # rounding of the cancelling terms
    return [1e-12 * (1. + (o + e) * (1. + abs(math.log(max(o, TINY)) -
                                              math.log(max(e, TINY)))))
            for o, e in zip(case["obs"], case["exp"])]


def judge(case, rec, obs, exp):
    name = case["name"]
    terms = [term(name, o, e) for o, e in zip(case["obs"], case["exp"])]
    slack = tolerance(case)
    rec.label(name)
    rec.hit(any(o != e for o, e in zip(case["obs"], case["exp"])))
    kept = obs.copy(), exp.copy()
    total = statistic(name).compute_statistic(obs, exp)
    expect_close(rec, total, math.fsum(terms), name + " in total",
                 rtol=1e-9, atol=sum(slack))
    again = statistic(name).compute_statistic(obs, exp)
    rec.check(again == total, "%s is %s, then %s", name, total, again)
    if name != "BakerCousinsChiUp" or not (obs > exp).any():  # known finding
        each = statistic(name, True).compute_statistic(obs, exp)
        expect_close(rec, numpy.shape(each), (len(terms),), "shape per bin")
        for i, value in enumerate(each):
            expect_close(rec, value, terms[i], "%s in bin %d" % (name, i),
                         rtol=1e-9, atol=slack[i])
    if name not in IN_PLACE or (min(case["obs"] + case["exp"]) >= TINY):
        rec.check(numpy.array_equal(kept[0], obs) and
                  numpy.array_equal(kept[1], exp), "%s changed its arguments",
                  name)
    if name not in ("ExtendedLL", "Neyman", "Pearson"):
        rec.check(total >= -sum(slack), "%s is negative: %s", name, total)


@prop.facet(counts(), quick=4500, rule="some bin differs")
def values(case, rec):
    """ In total and per bin, over any contents. """
    judge(case, rec, numpy.array(case["obs"], dtype=float),
          numpy.array(case["exp"], dtype=float))


@prop.facet(counts(ints=True).filter(lambda c: c["name"] not in IN_PLACE),
            quick=900, rule="some bin differs")
def whole_numbers(case, rec):
    """ Arrays of integers are counts like any other. """
    judge(case, rec, numpy.array(case["obs"], dtype=int),
          numpy.array(case["exp"], dtype=int))


@prop.facet(st.fixed_dictionaries({
    "name": st.sampled_from(NAMES), "per_bin": st.booleans(),
    "obs": st.lists(st.integers(1, 4), min_size=1, max_size=2),
    "exp": st.lists(st.integers(1, 4), min_size=1, max_size=2)}), quick=900,
    rule="the shapes are not those of two arrays of one length")
def shapes(case, rec):
    """ Anything but two arrays of one dimension and length is rejected. """
    obs = numpy.ones(tuple(case["obs"]))
    exp = numpy.ones(tuple(case["exp"]))
    tool = statistic(case["name"], case["per_bin"])
    call = lambda: tool.compute_statistic(obs, exp)     # noqa
    if obs.ndim > 1 or exp.ndim > 1:
        raises(rec, TypeError, call, "shapes %s and %s" % (obs.shape,
                                                           exp.shape))
    elif obs.shape != exp.shape:
        raises(rec, ValueError, call, "shapes %s and %s" % (obs.shape,
                                                            exp.shape))
    else:
        call()
        return
    rec.hit()


@prop.facet(st.fixed_dictionaries({
    "name": st.sampled_from(NAMES), "value": numbers(-20, 20),
    "prior": numbers(-20, 20), "sigma": positives(0.01, 20)}), quick=900,
    rule="the value is not the prior")
def penalty(case, rec):
    """ The squared number of sigmas from the prior (half of it for LL). """
    deviation = (case["value"] - case["prior"]) / case["sigma"]
    expected = deviation ** 2 * (0.5 if case["name"] == "BakerCousinsLL"
                                 else 1.)
    for per_bin in (False, True):
        found = statistic(case["name"], per_bin).get_penalty_term(
            case["value"], case["prior"], case["sigma"])
        expect_close(rec, found, expected, "penalty of " + case["name"],
                     atol=1e-12)
    rec.hit(case["value"] != case["prior"])


# ----------------------------------------------------------- known findings
def shows(func, kinds=()):
    try:
        return bool(func())
    except kinds:
        return True


@prop.probe("up-per-bin", "BakerCousinsChiUp(per_bin=True) fails if any bin "
            "has more observed than expected")
def up_per_bin():
    return shows(lambda: statistic("BakerCousinsChiUp", True)
                 .compute_statistic(numpy.array([3., 1.]),
                                    numpy.array([1., 2.]))[0] != 0.,
                 ValueError)


def changes(name, obs, exp):
    obs, exp = numpy.array(obs), numpy.array(exp)
    kept = obs.copy(), exp.copy()
    statistic(name).compute_statistic(obs, exp)
    return not (numpy.array_equal(obs, kept[0]) and
                numpy.array_equal(exp, kept[1]))


@prop.probe("ll-changes-arrays", "BakerCousinsLL writes 1e-34 into zeros of "
            "the expected array passed to it")
def ll_changes():
    return changes("BakerCousinsLL", [1., 2.], [0., 2.])


@prop.probe("neyman-changes-arrays", "Neyman writes 1e-34 into zeros of the "
            "observed array passed to it")
def neyman_changes():
    return changes("Neyman", [0., 2.], [1., 2.])


@prop.probe("pearson-changes-arrays", "Pearson writes 1e-34 into zeros of the "
            "expected array passed to it")
def pearson_changes():
    return changes("Pearson", [1., 2.], [0., 2.])


@prop.probe("integer-division", "Neyman, Pearson and BakerCousinsLL divide "
            "arrays of integers as integers")
def integer_division():
    return any(shows(lambda: abs(statistic(n).compute_statistic(
        numpy.array([2, 4]), numpy.array([3, 7])) - sum(
            term(n, o, e) for o, e in ((2, 3), (4, 7)))) > 1e-6)
        for n in IN_PLACE)


@prop.probe("integer-penalty", "penalty terms of integers are rounded "
            "(all but BakerCousinsChi and BakerCousinsChiUp)")
def integer_penalty():
    return any(abs(statistic(n).get_penalty_term(1, 2, 2) * (
        2. if n == "BakerCousinsLL" else 1.) - 0.25) > 1e-6 for n in NAMES)
