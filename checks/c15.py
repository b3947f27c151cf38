""" C15 - the grid search tries every combination and finds the minimum. """
import itertools
import math

import numpy
from hypothesis import strategies as st

from checks._fits import *  # noqa
from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C15")

STATS = st.one_of(st.integers(-3, 6).map(float), dyadic(-4, 50))


class Squares(object):
    """ Stands for the test statistic: only its penalty is asked for. """
    def get_penalty_term(self, value, prior, sigma):
        return 3. * ((value - prior) / sigma) ** 2 + 0.25 * value


@st.composite
def searches(draw, nan=True, max_pars=3):
    pars = draw(fit_pars(max_pars=max_pars))
    n = len(points_of(pars))
    axs = draw(axes(max_dims=5, min_dims=1, max_cells=8, max_bins=3,
                    min_bins=1))
    per_bin = draw(st.booleans())
    size = cells_of(axs) if per_bin else 1
    seed = draw(st.lists(STATS, min_size=1, max_size=12))
    flip = draw(st.integers(0, 1000))
    stats = []
    for i in range(n * size):   # few distinct values: ties are common
        stats.append(seed[(i * 7919 + flip * (1 + i // len(seed))) %
                          len(seed)])
    penalties = draw(st.lists(st.integers(0, 4).map(lambda x: x / 2.),
                              min_size=1, max_size=8))
    penalties = [penalties[(i * 31 + flip) % len(penalties)]
                 for i in range(n)]
    low = draw(st.one_of(st.none(), st.integers(0, n - 1)))
    if low is not None:
        for i in range(size):
            stats[low * size + i] = -9.
    bad = draw(st.lists(st.integers(0, n - 1), max_size=3, unique=True)) \
        if nan and draw(st.integers(0, 3)) == 0 else []
    if len(bad) >= n:
        bad = []
    return {"pars": pars, "axes": axs, "per_bin": per_bin, "stats": stats,
            "penalties": penalties, "nan": bad,
            "use_numpy": draw(st.booleans())}


def tables(case):
    shape = shape_of(case["pars"])
    spectral = tuple(ax["bins"] for ax in case["axes"])
    stats = numpy.array(case["stats"])
    stats = stats.reshape((len(case["penalties"]),) +
                          (spectral if case["per_bin"] else ()))
    for i in case["nan"]:
        stats[i] = numpy.nan
    stats = stats.reshape(shape + (spectral if case["per_bin"] else ()))
    return stats, numpy.array(case["penalties"]).reshape(shape)


def search(case, **kwargs):
    from echidna.fit.minimise import GridSearch
    config = make_fit_config(case["pars"])
    return GridSearch(config, make_config(case["axes"]),
                      per_bin=case["per_bin"],
                      use_numpy=case["use_numpy"], **kwargs), config


def fill(case, rec, tool, config):
    """ Runs the search with tabulated results; returns what it returned. """
    stats, penalties = tables(case)
    grids = [numpy.array(config.get_par(p["name"]).get_values())
             for p in case["pars"]]
    seen = []

    def funct(*values):
        index = []
        rec.check(len(values) == len(grids), "%d values for %d parameters",
                  len(values), len(grids))
        for value, values_ in zip(values, grids):
            at = numpy.where(values_ == value)[0]
            rec.check(len(at) == 1, "a value %s is tried which is not in %s",
                      value, values_)
            index.append(int(at[0]))
        seen.append(tuple(index))
        result = stats[tuple(index)]
        return (result.copy() if case["per_bin"] else float(result),
                float(penalties[tuple(index)]))

    returned = tool.minimise(funct, Squares())
    rec.check(sorted(seen) == points_of(case["pars"]), "tried %s", seen)
    return returned


def total_of(case):
    stats, penalties = tables(case)
    n = penalties.ndim
    return stats.sum(axis=tuple(range(n, stats.ndim))) + penalties


def lowest(total):
    """ Lowest entry, of several the one with the lowest coordinates. """
    best = None
    for index in numpy.ndindex(*total.shape):
        if not math.isnan(total[index]) and (best is None or
                                             total[index] < total[best]):
            best = index
    return best


@prop.facet(searches(), quick=900, rule="the minimum is not at the first "
            "point of the grid")
def minimum(case, rec):
    """ Every combination once; best fits at the lowest total. """
    tool, config = search(case)
    stats, penalties = tables(case)
    returned = fill(case, rec, tool, config)
    total = total_of(case)
    at = lowest(total)
    rec.hit(any(at))
    rec.label("numpy" if case["use_numpy"] else "find_minimum",
              "per bin" if case["per_bin"] else "total",
              "nan" if case["nan"] else "finite")
    rec.check(len(returned) == 2 and
              numpy.array_equal(returned[0], stats[at]) and
              returned[1] == penalties[at], "returned %s, expected %s and %s "
              "(at %s)", returned, stats[at], penalties[at], at)
    for axis_, par in enumerate(case["pars"]):
        par_ = config.get_par(par["name"])
        value = par_.get_values()[at[axis_]]
        rec.check(par_.get_best_fit() == value, "best fit of %s is %s, "
                  "expected %s (minimum at %s of %s)", par["name"],
                  par_.get_best_fit(), value, at, total.tolist())
        expected = 0. if par["sigma"] is None else \
            Squares().get_penalty_term(value, par["prior"], par["sigma"])
        expect_close(rec, par_.get_penalty_term(), expected, "penalty term of "
                     "the best fit of " + par["name"])
    summary = tool.get_summary()
    rec.check(list(summary) == [p["name"] for p in case["pars"]], "summary of "
              "%s", list(summary))
    for name in summary:
        rec.check(summary[name] == {
            "best_fit": config.get_par(name).get_best_fit(),
            "penalty_term": config.get_par(name).get_penalty_term()},
            "summary of %s is %s", name, summary[name])


@st.composite
def repeats(draw):
    """ Grids in which a value is there several times. """
    pars = draw(fit_pars(max_pars=3, max_points=30))
    values = [draw(st.one_of(st.none(), st.just("pinned"), st.lists(
        st.integers(1, 3).map(float), min_size=par["bins"],
        max_size=par["bins"]))) for par in pars]
    if values.count(None) == len(values):
        values[0] = "pinned"
    return {"pars": pars, "values": values, "offset": draw(dyadic(1, 20)),
            "weights": [draw(st.integers(-2, 2)) for _ in pars],
            "use_numpy": draw(st.booleans())}


@prop.facet(repeats(), quick=200, rule="a value is there several times")
def repeated(case, rec):
    """ Repeated values: each of them is a point of the grid. """
    case = dict(case, axes=[{"name": "energy_mc", "low": 0., "high": 1.,
                             "bins": 2}], per_bin=False)
    tool, config = search(case)
    for par, values in zip(case["pars"], case["values"]):
        if values == "pinned":   # low and high are the same
            config.get_par(par["name"]).set_par(
                low=par["low"], high=par["low"], logscale=False,
                logscale_deviation=False)
        elif values is not None:
            config.get_par(par["name"])._values = numpy.array(values)
    grids = [[float(v) for v in config.get_par(p["name"]).get_values()]
             for p in case["pars"]]
    rec.hit(any(len(set(g)) < len(g) for g in grids))

    def funct(*values):
        values = [float(v) for v in values]
        return (case["offset"] + sum(
            (w - v) ** 2 for v, w in zip(values, case["weights"])),
            float(len(values)))
    returned = tool.minimise(funct, Squares())
    wanted = numpy.array([sum(funct(*point))
                          for point in itertools.product(*grids)])
    wanted = wanted.reshape(shape_of(case["pars"]))
    expect_close(rec, tool.get_stats(), wanted, "results")
    rec.check(close(float(sum(returned)), wanted.min()), "found the minimum "
              "%s, it is %s", returned, wanted.min())
    best = [config.get_par(p["name"]).get_best_fit() for p in case["pars"]]
    rec.check(close(sum(funct(*best)), wanted.min()), "best fits %s", best)


@prop.facet(searches(), quick=500, rule="several parameters")
def kept(case, rec):
    """ Every result is kept at the place of its values. """
    tool, config = search(case)
    fill(case, rec, tool, config)
    rec.hit(len(case["pars"]) > 1)
    look_up(case, rec, tool, config)
    out = tuple(shape_of(case["pars"]))
    for func in (tool.get_stat, tool.get_penalty_term,
                 lambda i: tool.set_penalty_term(1., i),
                 lambda i: tool.set_stat(numpy.array(1.), i)):
        raises(rec, IndexError, lambda: func(out), "indices outside the grid")


def look_up(case, rec, tool, config):
    """ Everything there is to ask about the grid is as in the case. """
    stats, penalties = tables(case)
    total = total_of(case)
    same = lambda a, b: numpy.array_equal(     # noqa
        numpy.asarray(a, dtype=float), b, equal_nan=True)
    collapsed = total - penalties
    rec.check(close(numpy.nan_to_num(tool.get_stats(), nan=77.),
                    numpy.nan_to_num(total, nan=77.)), "get_stats: %s, "
              "expected %s", tool.get_stats(), total)
    rec.check(close(numpy.nan_to_num(tool.get_raw_stats(), nan=77.),
                    numpy.nan_to_num(collapsed, nan=77.)),
              "get_raw_stats: %s, expected %s", tool.get_raw_stats(),
              collapsed)
    for index in points_of(case["pars"])[:20]:
        values = {p["name"]: config.get_par(p["name"]).get_values()[i]
                  for p, i in zip(case["pars"], index)}
        rec.check(same(tool.get_raw_stat(index), stats[index]),
                  "get_raw_stat at %s", index)
        rec.check(close(numpy.nan_to_num(tool.get_stat(index), nan=77.),
                        numpy.nan_to_num(total[index], nan=77.)),
                  "get_stat at %s: %s", index, tool.get_stat(index))
        rec.check(tool.get_penalty_term(index) == penalties[index],
                  "get_penalty_term at %s", index)
        rec.check(tool.get_penalty_at(**values) == penalties[index],
                  "get_penalty_at %s is %s, expected %s", values,
                  tool.get_penalty_at(**values), penalties[index])
        at = numpy.squeeze(stats[index])
        found = tool.get_raw_stats_at(**values)
        rec.check(same(numpy.squeeze(found), at), "get_raw_stats_at %s is %s, "
                  "expected %s", values, found, at)
        some = {name: values[name] for name in list(values)[1:]}
        if some:
            found = tool.get_raw_stats(**some)
            part = collapsed[(slice(None),) + tuple(index[1:])]
            rec.check(close(numpy.nan_to_num(found, nan=77.),
                            numpy.nan_to_num(part, nan=77.)),
                      "get_raw_stats at %s is %s, expected %s", some, found,
                      part)
    for par in case["pars"]:
        rec.check(same(tool.get_scales(par["name"]),
                       config.get_par(par["name"]).get_values()),
                  "get_scales of %s", par["name"])
    if len(case["pars"]) == 1:
        found = tool.get_penalty_terms(case["pars"][0]["name"])
        rec.check(same(found, penalties), "get_penalty_terms: %s, expected "
                  "%s", found, penalties)


@prop.facet(searches(nan=False), quick=400, rule="there is more than one "
            "axis to sum over")
def projections(case, rec):
    """ Projections of the statistics onto parameters and dimensions. """
    tool, config = search(case)
    fill(case, rec, tool, config)
    rec.hit(len(case["pars"]) + len(case["axes"]) * case["per_bin"] > 2)
    project(case, rec, tool)


def project(case, rec, tool):
    """ The projections are those of the case. """
    stats, penalties = tables(case)
    fits = [p["name"] for p in case["pars"]]
    spectral = [ax["name"] for ax in case["axes"]] if case["per_bin"] else []
    dims = fits + spectral
    total = total_of(case)
    for keep in range(2 ** len(dims)):
        if keep >= 16 and 2 < bin(keep).count("1") < len(dims) - 1:
            continue    # there are too many
        names = [d for i, d in enumerate(dims) if keep >> i & 1]
        lose = tuple(i for i, d in enumerate(dims) if d not in names)
        if set(names) <= set(fits):
            expected = total.sum(axis=tuple(i for i in lose
                                            if i < len(fits)))
        else:
            expected = stats.sum(axis=lose)
        for order in (names, names[::-1]):
            expect_close(rec, tool.nd_project_stats(*order), expected,
                         "projection onto %s" % order)
        for index in points_of(case["pars"])[:5]:
            if set(names) <= set(fits):
                expected = total[index]
            else:
                expected = stats[index].sum(axis=tuple(
                    i - len(fits) for i in lose if i >= len(fits)))
            expect_close(rec, tool.nd_project_stat(index, *names), expected,
                         "projection at %s onto %s" % (index, names))
    point = points_of(case["pars"])[0]
    for wrong in (["no_such"], [fits[0], "no_such"], ["no_such", fits[0]],
                  ["energy_no", dims[-1]], [dims[-1], "energy_no"]):
        for func in (lambda: tool.nd_project_stats(*wrong),
                     lambda: tool.nd_project_stat(point, *wrong)):
            raises(rec, IndexError, func, "projecting onto %s" % wrong)
    rec.check(close(tool.get_stats(), total), "projecting changed the grid")


@prop.facet(st.fixed_dictionaries({
    "shape": st.lists(st.integers(1, 5), min_size=1, max_size=4),
    "values": st.lists(st.one_of(st.integers(-3, 3).map(float),
                                 st.floats(-10, 10)),
                       min_size=1, max_size=40), "step": st.integers(1, 50)}),
    quick=900, rule="the minimum is not at the origin")
def find_minimum(case, rec):
    """ Lowest value and its position; of equal ones the first. """
    tool, _ = search({"pars": [{
        "name": "rate", "kind": "rate", "prior": 1., "sigma": None, "low": 0.,
        "high": 2., "bins": 3}], "axes": [{
            "name": "energy_mc", "low": 0., "high": 1., "bins": 1}],
        "per_bin": False, "use_numpy": False})
    n = int(numpy.prod(case["shape"]))
    values = [case["values"][i * case["step"] % len(case["values"])]
              for i in range(n)]
    array = numpy.array(values).reshape(case["shape"])
    kept = array.copy()
    value, at = tool.find_minimum(array)
    expected = lowest(array)
    rec.hit(any(expected))
    rec.check(tuple(int(i) for i in at) == expected and
              value == array[expected], "minimum %s at %s, expected %s at %s "
              "of %s", value, at, array[expected], expected, array.tolist())
    rec.check(numpy.array_equal(kept, array), "looking changed the array")


@prop.facet(st.fixed_dictionaries({
    "search": searches(nan=False, max_pars=2),
    "name": st.sampled_from([None, "fit", "fit_2", "a_b_10", "2"]),
    "more": fit_pars(max_pars=1)}), quick=250, rule="always")
def again(case, rec):
    """ Resetting clears the grid; a second search is like the first. """
    name, more, case = case["name"], case["more"][0], case["search"]
    tool, config = search(case, **({"name": name} if name else {}))
    name = name or "fit_config_results"
    rec.hit()
    rec.check(tool.get_name() == name, "name is %s", tool.get_name())
    first = fill(case, rec, tool, config)
    total = total_of(case)
    for number in (1, 2, 3):
        tool.reset_grids()
        rec.check(tool.get_resets() == number and tool.get_name() ==
                  "%s_%d" % (name, number), "reset %s is %s", number,
                  (tool.get_resets(), tool.get_name()))
        rec.check(numpy.shape(tool.get_stats()) == total.shape and
                  not tool.get_stats().any(), "after a reset: %s",
                  tool.get_stats())
    second = fill(case, rec, tool, config)
    rec.check(numpy.array_equal(first[0], second[0]) and
              first[1] == second[1], "%s, after a reset %s", first, second)
    rec.check(close(tool.get_stats(), total), "grid after a reset")
    # a search over other results forgets the old ones
    other = dict(case, stats=case["stats"][::-1],
                 penalties=case["penalties"][::-1])
    fill(other, rec, tool, config)
    rec.check(close(tool.get_stats(), total_of(other)), "a second search "
              "mixes with the first")
    # with another parameter
    more = dict(more, name="another")
    size = len(points_of([more]))
    config.add_par(make_fit_config([more]).get_par("another"), "global")
    tool.reset_grids()
    larger = dict(case, pars=[more] + case["pars"] if list(
        config.get_pars())[0] == "another" else case["pars"] + [more],
        stats=case["stats"] * size, penalties=case["penalties"] * size)
    rec.check(numpy.shape(tool.get_stats()) == shape_of(larger["pars"]),
              "grid with another parameter is %s", numpy.shape(
                  tool.get_stats()))
    fill(larger, rec, tool, config)
    rec.check(close(tool.get_stats(), total_of(larger)), "a search with "
              "another parameter")


@prop.facet(searches(nan=False, max_pars=2), quick=200, rule="always")
def rejected(case, rec):
    """ Results and grids of a wrong kind or shape. """
    tool, config = search(case)
    spectral = tuple(ax["bins"] for ax in case["axes"])
    shape = shape_of(case["pars"])
    rec.hit()
    if case["per_bin"]:
        raises(rec, TypeError, lambda: tool.minimise(
            lambda *v: (1., 0.), Squares()), "a single value per bin")
        raises(rec, ValueError, lambda: tool.minimise(
            lambda *v: (numpy.ones(spectral + (2,)), 0.), Squares()),
            "a wrong shape per bin")
        if spectral != (1,) * len(spectral):
            raises(rec, ValueError, lambda: tool.minimise(
                lambda *v: (numpy.ones((1,) * len(spectral)), 0.),
                Squares()), "a wrong shape per bin")
        shape = shape + spectral
    raises(rec, TypeError, lambda: tool.set_stats([1.]), "a list as grid")
    point = points_of(case["pars"])[-1]
    for wrong in (1., [1.]):
        raises(rec, TypeError, lambda: tool.set_stat(wrong, point),
               "%s as a statistic" % wrong)
    raises(rec, ValueError, lambda: tool.set_stats(numpy.ones(
        shape + (1,))), "a grid of wrong shape")
    raises(rec, TypeError, lambda: tool.set_penalty_terms([1.]),
           "a list as grid")
    raises(rec, ValueError, lambda: tool.set_penalty_terms(numpy.ones(
        shape_of(case["pars"]) + (1,))), "a grid of wrong shape")
    stats, penalties = tables(case)
    tool.set_stats(stats.copy())
    tool.set_penalty_terms(penalties.copy())
    rec.check(close(tool.get_stats(), total_of(case)), "grids set are not "
              "those reported")
    given = stats.copy(), penalties.copy()
    tool.set_stats(given[0])
    tool.set_penalty_terms(given[1])
    tool.reset_grids()
    rec.check(numpy.array_equal(given[0], stats) and
              numpy.array_equal(given[1], penalties), "grids given are "
              "cleared by a reset")


@prop.facet(st.fixed_dictionaries({
    "search": searches(nan=False, max_pars=2), "steps": st.lists(
        st.tuples(st.sampled_from(["search", "set", "point", "reset"]),
                  st.integers(0, 1000)).map(list), min_size=2, max_size=5)}),
    quick=200, rule="the grid is not the same throughout")
def in_turn(case, rec):
    """ Filled, set, reset in turn: what is asked is about the last grid. """
    steps, case = case["steps"], case["search"]
    tool, config = search(case)
    stats, penalties = case["stats"], case["penalties"]
    now = dict(case, stats=[0.] * len(stats), penalties=[0.] * len(penalties))
    grids = []
    points = points_of(case["pars"])
    size = len(stats) // len(penalties)
    for what, number in [["search", 0]] + steps:
        moved_by = number % len(stats)
        other = dict(
            case, stats=[x + number % 5 for x in
                         stats[moved_by:] + stats[:moved_by]],
            penalties=[x + number % 3 for x in penalties[::-1]]
            if number % 2 else penalties)
        rec.label(what)
        if what == "search":
            now = other
            at = lowest(total_of(now))
            fill(now, rec, tool, config)
            for axis_, par in enumerate(case["pars"]):
                par_ = config.get_par(par["name"])
                rec.check(par_.get_best_fit() == par_.get_values()[at[axis_]],
                          "best fit of %s is %s after another search",
                          par["name"], par_.get_best_fit())
        elif what == "set":
            now = other
            new = tables(now)
            tool.set_stats(new[0].copy())
            tool.set_penalty_terms(new[1].copy())
        elif what == "point":
            at = number % len(points)
            now = dict(case, stats=list(now["stats"]),
                       penalties=list(now["penalties"]))
            now["stats"][at * size:(at + 1) * size] = \
                other["stats"][at * size:(at + 1) * size]
            now["penalties"][at] = 7. + number
            tool.set_stat(numpy.array(tables(now)[0][points[at]]), points[at])
            tool.set_penalty_term(7. + number, points[at])
        else:
            now = dict(case, stats=[0.] * len(stats),
                       penalties=[0.] * len(penalties))
            tool.reset_grids()
        rec.check(tool.get_resets() == sum(
            w == "reset" for w, _ in steps[:len(grids)]), "%s resets",
            tool.get_resets())
        look_up(now, rec, tool, config)
        project(now, rec, tool)
        value, at = tool.find_minimum(tool.get_stats())
        rec.check(close(value, total_of(now).min()), "minimum %s of %s",
                  value, total_of(now).tolist())
        grids.append((now["stats"], now["penalties"]))
    rec.hit(any(grid != grids[0] for grid in grids))
