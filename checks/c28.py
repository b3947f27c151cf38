""" C28 - plots show what is in spectra and results. """
import sys

import numpy
from hypothesis import strategies as st

from checks import _plots
from checks._fits import *  # noqa
from checks.c15 import searches, tables
from checks.c19 import VALUES, limit_results  # noqa
from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C28")
NOISE = 1e-9


def modules():
    _plots.install()
    from echidna.output import plot, plot_root
    plot_root.raw_input = lambda *_: ""
    return plot, plot_root


def projection(case, *names):
    """ The contents summed over all but these dimensions, in their order. """
    order = [ax["name"] for ax in case["axes"]]
    data = data_array(case)
    keep = [order.index(name) for name in names]
    data = data.transpose(keep + [i for i in range(len(order))
                                  if i not in keep])
    return data.reshape(data.shape[:len(keep)] + (-1,)).sum(-1)


def axis_named(case, name):
    return [ax for ax in case["axes"] if ax["name"] == name][0]


def same_axis(rec, found, ax, what):
    bins, low, high = found
    rec.check(bins == ax["bins"] and close([low, high],
                                           [ax["low"], ax["high"]],
                                           1e-12, 1e-12),
              "%s has %d bins from %s to %s instead of %s", what, bins, low,
              high, ax)


def middles(ax):
    es = edges(ax)
    return [(a + b) / 2. for a, b in zip(es, es[1:])]


def named(rec, name):
    """ The (last) x axis is labelled with the dimension. """
    texts = [text for what, text in sys.modules["matplotlib.pyplot"].said
             if what == "x"]
    rec.check(texts and texts[-1].split(" (")[0] == name,
              "the x axis of a plot of %s is labelled %s", name, texts)


class Calculator(object):
    """ Has a value for each bin. """
    def __init__(self, values):
        self.values = values

    def get_chi_squared_per_bin(self):
        return self.values


@prop.facet(st.fixed_dictionaries({
    "spec": spectrum(negative=True, max_dims=3), "which": st.integers(0, 2),
    "style": st.sampled_from([None, {}, {"color": "red"},
                              {"color": "green", "label": "a label"}]),
    "graphical": st.booleans()}), quick=800, rule="several dimensions")
def projections(case, rec):
    """ Both kinds of projection plots. """
    plot, plot_root = modules()
    rec.hit(len(case["spec"]["axes"]) > 1)
    ax = case["spec"]["axes"][case["which"] % len(case["spec"]["axes"])]
    spec = make_spectrum(case["spec"])
    if case["style"] is not None:
        spec.set_style(case["style"])
    before = snapshot(spec)
    wanted = projection(case["spec"], ax["name"])
    fig = plot.plot_projection(spec, ax["name"], show_plot=case["graphical"])
    hists = [h for axes_ in fig.axes for h in axes_.hists]
    rec.check(len(hists) == 1, "%d histograms", len(hists))
    expect_close(rec, hists[0]["contents"], wanted, "histogram", NOISE, NOISE)
    expect_close(rec, hists[0]["edges"], edges(ax), "edges of the histogram",
                 1e-9, 1e-9)
    for key in case["style"] or {}:
        rec.check(hists[0]["all"].get(key) == case["style"][key],
                  "the %s is %s instead of %s", key,
                  hists[0]["all"].get(key), case["style"])
    named(rec, ax["name"])
    hist = plot_root.plot_projection(spec, ax["name"],
                                     graphical=case["graphical"])
    same_axis(rec, hist.axes[0], ax, "the histogram")
    expect_close(rec, hist.inside(), wanted, "ROOT histogram", NOISE, NOISE)
    rec.check(not hist.outside().any(), "contents beyond the axis")
    unchanged(rec, before, spec, "plotting")


@prop.facet(st.fixed_dictionaries({
    "spec": spectrum(negative=True, max_dims=3, min_dims=2),
    "which": st.integers(0, 2),
    "other": st.integers(1, 2), "graphical": st.booleans()}), quick=800,
    rule="dimensions of different sizes")
def surfaces(case, rec):
    """ Both kinds of surface plots. """
    plot, plot_root = modules()
    axs = case["spec"]["axes"]
    one = axs[case["which"] % len(axs)]
    two = axs[(case["which"] + (case["other"] if len(axs) > 2 else 1)) %
              len(axs)]
    rec.hit(one["bins"] != two["bins"])
    rec.label("as in the spectrum" if axs.index(one) < axs.index(two)
              else "other way round")
    spec = make_spectrum(case["spec"])
    before = snapshot(spec)
    wanted = projection(case["spec"], one["name"], two["name"])
    fig = plot.plot_surface(spec, one["name"], two["name"],
                            show_plot=case["graphical"])
    axes_ = fig.axes[0]
    mesh = axes_.meshes[0]
    shown = [axes_.labels.get("x", "").split(" (")[0],
             axes_.labels.get("y", "").split(" (")[0]]
    rec.check(sorted(shown) == sorted([one["name"], two["name"]]),
              "the axes are labelled %s", shown)
    xs = edges(axis_named(case["spec"], shown[0]))
    ys = edges(axis_named(case["spec"], shown[1]))
    grid = numpy.meshgrid(xs, ys)
    expect_close(rec, mesh["x"], grid[0], "x of the corners", 1e-9, 1e-9)
    expect_close(rec, mesh["y"], grid[1], "y of the corners", 1e-9, 1e-9)
    expect_close(rec, mesh["values"],
                 projection(case["spec"], shown[1], shown[0]), "surface",
                 NOISE, NOISE)
    hist = plot_root.plot_surface(spec, one["name"], two["name"],
                                  graphical=case["graphical"])
    same_axis(rec, hist.axes[0], one, "the x axis")
    same_axis(rec, hist.axes[1], two, "the y axis")
    expect_close(rec, hist.inside(), wanted, "ROOT surface", NOISE, NOISE)
    rec.check(not hist.outside().any(), "contents beyond the axes")
    unchanged(rec, before, spec, "plotting")


@st.composite
def collections_(draw):
    """ Several spectra which share one dimension. """
    shared = draw(axis("energy_mc", max_bins=6))
    several = []
    for number in range(draw(st.integers(1, 4))):
        spec = draw(spectrum(negative=True, max_dims=2, max_cells=12, names=[
            "radial_mc", "time_mc", "radial3_reco"], min_dims=1))
        place = draw(st.integers(0, len(spec["axes"])))
        spec["axes"].insert(place, dict(shared))
        spec["data"] = draw(contents(cells_of(spec["axes"])))
        several.append({"spec": spec, "type": draw(st.sampled_from(
            ["background", "background", "signal", "data"])), "label": draw(
                st.sampled_from([None, "a label"])),
            "style": draw(st.sampled_from([{}, {"color": "red"},
                                           {"label": "styled"}])),
            "color": draw(st.sampled_from([None, "blue"]))})
    return {"spectra": several, "limit": draw(st.sampled_from(
        [None, None, 0])), "odd": draw(st.sampled_from(
            [None, None, None, "low", "high", "bins"])),
        "sign": draw(st.sampled_from([1., -1.])),
        "kinds": draw(st.lists(st.sampled_from(["mc", "reco", "truth"]),
                               min_size=5, max_size=5)),
        "log": draw(st.booleans()), "calculator": draw(st.sampled_from(
            [None, 1, 3, 7])), "title": draw(st.sampled_from(
                [None, "a title"])), "text": draw(st.sampled_from(
                    [None, ["one"], ["one", "two", "three"]]))}


def kind_of(spec, kind):
    """ With another kind of energy; those who plot "energy" get it. """
    return dict(spec, axes=[dict(ax, name=ax["name"].replace(
        "energy_mc", "energy_" + kind)) for ax in spec["axes"]])


@prop.facet(collections_(), quick=640, rule="more than one background")
def spectral(case, rec):
    """ Spectral plots have all spectra, their sum and that of backgrounds."""
    plot, plot_root = modules()
    many = case["spectra"]
    # not the interned literals the code might compare with by identity
    types = ["".join(list(one["type"])) for one in many]
    rec.hit(types.count("background") > 1)
    specs, table, root_table = [], collections.OrderedDict(), \
        collections.OrderedDict()
    odd = case["odd"] if len(many) > 1 else None
    for number, one in enumerate(many):
        spec = one["spec"]
        if odd and number == len(many) - 1:
            ax = axis_named(spec, "energy_mc")
            if odd == "bins":
                spec["data"] = spec["data"] * 2
                ax["bins"] *= 2
            else:
                ax[odd] += case["sign"] * 0.25 * (ax["high"] - ax["low"])
        specs.append(make_spectrum(spec, "spectrum%d" % number))
        if one["style"]:
            specs[-1].set_style(dict(one["style"]))
        table[specs[-1].get_name()] = {
            "spectra": specs[-1], "type": types[number]}
        for key in ("label", "color"):
            if one[key]:
                table[specs[-1].get_name()][key] = one[key]
        root_table[specs[-1].get_name()] = {
            "spectra": make_spectrum(kind_of(spec, case["kinds"][number]),
                                     "spectrum%d" % number), "type": types[number],
            "label": "label%d" % number, "style": {"color": number}}
    limit = None if case["limit"] is None else make_spectrum(
        many[0]["spec"], "limit")
    before = [snapshot(spec) for spec in specs]
    kwargs = {"limit": limit} if limit is not None else {}
    if odd:
        rec.label("different axes")
        raises(rec, AssertionError, lambda: plot.spectral_plot(
            table, "energy_mc", show_plot=False), "spectra with another %s"
            % odd)
        raises(rec, AssertionError, lambda: plot_root.spectral_plot(
            root_table, "energy"), "spectra with another %s" % odd)
        return
    ax = axis_named(many[0]["spec"], "energy_mc")
    each = [projection(one["spec"], "energy_mc") for one in many]
    total = sum(each)
    back = sum([p for p, t in zip(each, types) if t == "background"],
               numpy.zeros(ax["bins"]))
    more = dict((key, case[key]) for key in ("title", "text") if case[key])
    values = None
    if case["calculator"]:
        values = numpy.array([(case["calculator"] * i) % 5 + 0.5
                              for i in range(ax["bins"])])
        more["calculator"] = Calculator(values)
    fig = plot.spectral_plot(table, "energy_mc", log_y=case["log"],
                             show_plot=False, **dict(kwargs, **more))
    named(rec, "energy_mc")
    said = [s for s in sys.modules["matplotlib.pyplot"].said
            if s[0] not in ("x", "y")]
    texts = ([case["title"]] if case["title"] else []) + (case["text"] or [])
    rec.check([t for _, t in sorted(said, key=lambda s: -s[0])] == texts,
              "the texts are %s instead of %s", said, texts)
    if values is not None:
        rec.check([len(a.hists) for a in fig.axes[1:]] == [1],
                  "there is no second histogram")
        hist = fig.axes[1].hists[0]
        expect_close(rec, hist["contents"], values, "chi squared per bin",
                     NOISE, NOISE)
        expect_close(rec, hist["edges"], edges(ax), "edges of chi squared",
                     1e-9, 1e-9)
    rec.check(len(fig.axes[0].bands) == 1, "%d error bands",
              len(fig.axes[0].bands))
    for was, wanted, what in zip(fig.axes[0].bands[0], (
            middles(ax), back - numpy.sqrt(back), back + numpy.sqrt(back)),
            ("places", "lower edge", "upper edge")):
        expect_close(rec, was, wanted, what + " of the error band", 1e-9,
                     1e-9)
    found = [h for h in fig.axes[0].hists]
    for hist, one, spec in zip(found, many, specs):
        color = one["color"] or spec.get_style().get("color")
        rec.check(hist["color"] == color, "the colour is %s instead of %s",
                  hist["color"], color)
    wanted = []
    for one, part, spec in zip(many, each, specs):
        wanted.append((one["label"] or one["style"].get("label") or
                       spec.get_name(), part))
    wanted += [("Summed background", back), ("Sum", total)]
    if limit is not None:
        wanted.append(("limit", each[0]))
    rec.check([h["label"] for h in found] == [w[0] for w in wanted],
              "the histograms are %s, expected %s",
              [h["label"] for h in found], [w[0] for w in wanted])
    for hist, (label, values) in zip(found, wanted):
        expect_close(rec, hist["contents"], values, "histogram %s" % label,
                     NOISE, NOISE)
        expect_close(rec, hist["edges"], edges(ax), "edges of %s" % label,
                     1e-9, 1e-9)
    # and with ROOT
    _plots.install()
    if limit is not None:
        kwargs["limit"] = make_spectrum(kind_of(
            many[0]["spec"], case["kinds"][-1]), "limit")
    plot_root.spectral_plot(root_table, "energy", log_y=case["log"],
                            **kwargs)
    drawn = [h for h, _ in _plots.Recorder.drawn]
    labels = dict((id(h), label) for h, label in _plots.TLegend.entries)
    wanted = [("Background + Signal", total), ("Background", back)] + \
        [("label%d" % i, part) for i, part in enumerate(each)]
    if limit is not None:
        wanted.append(("Kamland-Zen Limit", each[0]))
    if values is not None:
        hist = plot_root.plot_chi_squared_per_bin(
            Calculator(values), ax["bins"], ax["low"], ax["high"])
        same_axis(rec, hist.axes[0], ax, "chi squared")
        expect_close(rec, hist.inside(), values, "ROOT chi squared per bin",
                     NOISE, NOISE)
    rec.check([labels.get(id(h)) for h in drawn] == [w[0] for w in wanted],
              "ROOT drew %s, expected %s", [labels.get(id(h)) for h in drawn],
              [w[0] for w in wanted])
    for hist, (label, values) in zip(drawn, wanted):
        same_axis(rec, hist.axes[0], ax, label)
        expect_close(rec, hist.inside(), values, "ROOT histogram %s" % label,
                     NOISE, NOISE)
    for spec, was in zip(specs, before):
        unchanged(rec, was, spec, "plotting")


@st.composite
def limits(draw):
    pars = draw(fit_pars(max_pars=3))
    rate = dict(draw(grid(6)), kind="rate", name="rate", dim=None)
    n = rate["bins"]
    return {"pars": pars, "rate": rate, "per_bin": False, "name": None,
            "config_name": "signal", "axes": draw(axes(max_dims=1)),
            "stats": draw(st.lists(VALUES, min_size=n, max_size=n)),
            "best": draw(st.lists(VALUES, min_size=n * len(pars),
                                  max_size=n * len(pars))),
            "penalties": draw(st.lists(VALUES, min_size=n * len(pars),
                                       max_size=n * len(pars))),
            "graphical": draw(st.booleans())}


@prop.facet(limits(), quick=640, rule="several scales and parameters")
def graphs(case, rec):
    """ Graphs of limit results, which leave the results as they are. """
    plot, plot_root = modules()
    kept, config, _, limit_config = limit_results(case)
    n, m = case["rate"]["bins"], len(case["pars"])
    rec.hit(n > 1 and m > 1)
    best = numpy.array(case["best"]).reshape(n, m)
    penalties = numpy.array(case["penalties"]).reshape(n, m)
    names = [par["name"] for par in case["pars"]]
    for i in range(n):
        kept.set_limit_stat(i, case["stats"][i])
        for k, name in enumerate(names):
            kept.set_best_fit(i, best[i, k], name)
            kept.set_penalty_term(i, penalties[i, k], name)
    scales = limit_config.get_par("rate").get_values()
    size = 1e-12 * (1. + numpy.abs(case["stats"]).sum() +
                    numpy.abs(penalties).sum())

    def compare(graph, values, what, rtol=1e-12, atol=0.):
        expect_close(rec, graph.x, scales, "scales of " + what, 1e-12, 0.)
        expect_close(rec, graph.y, values, what, rtol, atol)

    how = {"graphical": case["graphical"]}
    for again in ("", " again"):
        compare(plot_root.plot_stats_vs_scale(kept, **how),
                numpy.array(case["stats"]) + penalties.sum(1),
                "statistics" + again, 1e-12, size)
        for k, name in enumerate(names):
            compare(plot_root.plot_best_fit_vs_scale(kept, name, **how),
                    best[:, k], "best fits of " + name + again)
            compare(plot_root.plot_penalty_term_vs_scale(kept, name, **how),
                    penalties[:, k], "penalties of " + name + again)
            par = case["pars"][k]
            if par["sigma"]:
                compare(plot_root.plot_sigma_best_fit_vs_scale(
                    kept, name, **how),
                    (best[:, k] - par["prior"]) / par["sigma"],
                    "best fits of %s in sigma%s" % (name, again), 1e-9,
                    1e-9)
    for k, name in enumerate(names):
        expect_close(rec, kept.get_best_fits(name), best[:, k],
                     "best fits of %s after plotting" % name, 0., 0.)


@prop.facet(searches(nan=False), quick=640,
            rule="more than one parameter or spectral dimension")
def fits(case, rec):
    """ Plots of the grid of a fit. """
    plot, plot_root = modules()
    from echidna.fit.minimise import GridSearch
    config = make_fit_config(case["pars"])
    grid_ = GridSearch(config, make_config(case["axes"]), per_bin=case[
        "per_bin"], use_numpy=case["use_numpy"])
    stats, penalties = tables(case)
    shape = shape_of(case["pars"])
    rec.hit(len(shape) > 1 or len(case["axes"]) > 1)
    grid_.set_stats(stats.reshape(grid_._stats.shape))
    grid_.set_penalty_terms(penalties.reshape(shape))
    raw = stats.reshape(shape + (-1,)).sum(-1) if case["per_bin"] \
        else stats.reshape(shape)
    penalties = penalties.reshape(shape)
    names = [par["name"] for par in case["pars"]]
    pars = [config.get_par(name) for name in names]
    how = {"graphical": False}
    at = [par.get_values()[len(case["stats"]) % par.get_bins()]
          for par in pars]
    if len(names) == 1:
        for graph, values in (
                (plot_root.plot_raw_stats_vs_par_scale(
                    grid_, names[0], **how), raw),
                (plot_root.plot_stats_vs_par_scale(grid_, names[0], **how),
                 raw + penalties),
                (plot_root.plot_penalty_term_vs_par_scale(
                    grid_, names[0], **how), penalties)):
            expect_close(rec, graph.x, pars[0].get_values(), "values",
                         1e-12, 0.)
            expect_close(rec, graph.y, values, "statistics", 1e-9, 1e-9)
    else:
        for i in range(len(names)):
            rest = dict((names[k], float(at[k])) for k in range(len(names))
                        if k != i)
            graph = plot_root.plot_raw_stats_vs_par_scale(
                grid_, names[i], graphical=False, **rest)
            expect_close(rec, graph.x, pars[i].get_values(), "values",
                         1e-12, 0.)
            expect_close(rec, graph.y, raw[tuple(
                slice(None) if k == i else list(
                    pars[k].get_values()).index(at[k])
                for k in range(len(names)))], "statistics of %s" % names[i],
                1e-9, 1e-9)
            for j in range(len(names)):
                if i == j:
                    continue
                rest = dict((names[k], float(at[k]))
                            for k in range(len(names)) if k not in (i, j))
                where = tuple(
                    slice(None) if k in (i, j) else
                    list(pars[k].get_values()).index(at[k])
                    for k in range(len(names)))
                for function, values in (
                        (plot_root.plot_raw_stats_vs_pars, raw[where]),
                        (plot_root.plot_stats_vs_pars,
                         (raw + penalties)[where])):
                    hist = function(grid_, names[i], names[j],
                                    **dict(rest, **how))
                    for which, k in ((0, i), (1, j)):
                        same_axis(rec, hist.axes[which], case["pars"][k],
                                  "axis %d" % which)
                    expect_close(rec, hist.inside(), values if i < j
                                 else values.transpose(), "%s of %s and %s"
                                 % (function.__name__, names[i], names[j]),
                                 1e-9, 1e-9)
    expect_close(rec, grid_.get_raw_stats(), raw, "statistics after plotting",
                 1e-12, 1e-9)
    if not case["per_bin"] or min(ax["bins"] for ax in case["axes"]) < 2:
        return
    rec.label("per bin")
    where = tuple(list(par.get_values()).index(v) for par, v in zip(pars, at))
    wanted = stats.reshape(shape + tuple(
        ax["bins"] for ax in case["axes"]))[where]
    values = dict(zip(names, map(float, at)))
    axs = case["axes"]
    if len(case["stats"]) % 2:
        # by default the best fits
        rec.label("best fits")
        for par, value in zip(pars, at):
            par.set_best_fit(value)
            par.set_penalty_term(1.)
        values = {"min_chisq": True}
    else:
        values["min_chisq"] = False
    if len(axs) == 1:
        hist = plot_root.plot_per_bin(grid_, x_dim=axs[0]["name"],
                                      **dict(values, **how))
        expect_close(rec, hist.inside(), wanted, "statistics per bin", 0.,
                     0.)
        same_axis(rec, hist.axes[0], axs[0], "the axis")
    elif len(axs) == 2:
        for i, j in ((0, 1), (1, 0)):
            hist = plot_root.plot_per_bin(
                grid_, x_dim=axs[i]["name"], y_dim=axs[j]["name"],
                **dict(values, **how))
            same_axis(rec, hist.axes[0], axs[i], "the x axis")
            same_axis(rec, hist.axes[1], axs[j], "the y axis")
            expect_close(rec, hist.inside(), wanted if i < j
                         else wanted.transpose(), "statistics per bin", 0.,
                         0.)
