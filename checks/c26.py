""" C26 - filling of spectra from ntuples and RAT files. """
import os

import yaml
from hypothesis import assume
from hypothesis import strategies as st

from checks import _rat
from checks._rat import Rule
from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C26")

RANGES = {"energy": [(0., 10.), (1., 5.), (-1., 11.), (2.25, 2.5)],
          "radial": [(0., 6000.), (1000., 4000.), (0., 3500.)],
          "radial3": [(0., 1.), (0., 0.5), (0.125, 2.)],
          "zradial3": [(-1., 1.), (-0.5, 1.5), (0., 1.), (-2., 0.25)]}


@st.composite
def dims(draw, names, max_dims=3):
    result = []
    for name in draw(st.lists(st.sampled_from(names), min_size=1,
                              max_size=max_dims, unique=True)):
        low, high = draw(st.sampled_from(RANGES[name.rsplit("_", 1)[0]]))
        result.append({"name": name, "low": low, "high": high,
                       "bins": draw(st.sampled_from([1, 2, 4, 5, 8]))})
    return result


MC = [name for name in _rat.NAMES if not name.endswith("reco")]
RECO = [name for name in _rat.NAMES if name.endswith("reco")]


@st.composite
def cases(draw, kind):
    kwargs = {"fv_radius": draw(_rat.FV), "outer_radius": draw(_rat.OUTER),
              "external": draw(st.sampled_from([None, None, None, False,
                                                True]))}
    kwargs = dict((k, v) for k, v in kwargs.items() if v is not None)
    mc = [name for name in MC if name.startswith("energy") or
          not kwargs.get("external")]
    # a reconstructed position is taken from the one event there is
    fit = bool(kwargs.get("external"))
    good = draw(st.booleans())
    one = _rat.entries(good) if kind == "ntuple" else _rat.events(
        fit, 1 if fit else 3, good)
    mixed = draw(dims(mc, 2)) + draw(dims(RECO, 2))
    contents = draw(st.lists(st.lists(one, max_size=8), min_size=1,
                             max_size=3))
    for content in contents:
        seed = draw(st.integers(0, 2 ** 16))
        if seed:
            many = seed % 16 == 5
            content.extend(_rat.bulk(
                seed, kind, good, fit, 1 if fit else 6 if many else 3,
                150 if many else 6))
    return {"configs": [draw(dims(mc)), draw(dims(RECO)),
                        draw(st.permutations(mixed))],
            "kwargs": kwargs, "kind": kind, "files": contents,
            "bipo": draw(st.sampled_from([None, False])),
            "path": draw(st.integers(0, 7)) == 0,
            "before": draw(st.sampled_from([None, None, None, 3]))}


def rules(case):
    kwargs = case["kwargs"]
    return [Rule(ax["name"], kwargs.get("fv_radius"),
                 kwargs.get("external", False), kwargs.get("outer_radius"))
            for ax in case["axes"]]


def all_positions(case):
    for content in case["files"]:
        for item in content:
            if case["kind"] == "ntuple":
                yield item["pos"]
                yield item["mcPos"]
            else:
                for position in item["particles"]:
                    yield position
                for ev in item["evs"]:
                    yield ev["position"]


def points(case, content):
    """ The events of a file which belong into a spectrum: their values. """
    todo = rules(case)
    result = []
    if case["kind"] == "ntuple":
        for number, entry in enumerate(content):
            if case["bipo"]:
                # a triggered event without another one right after it
                if entry["evIndex"] != 0:
                    continue
                after = content[number + 1:number + 2]
                if after and after[0]["evIndex"] >= 1:
                    continue
            result.append([r.ntuple(entry) for r in todo])
    else:
        for event in content:
            if case["bipo"] and len(event["evs"]) != 1:
                continue
            if any(r.reco for r in todo):
                for number in range(len(event["evs"])):
                    result.append([r.root(event, number) for r in todo])
            else:
                result.append([r.root(event) for r in todo])
    return [p for p in result if all(v is not None for v in p)]


def bin_of(ax, value):
    """ None when out of range. """
    if not ax["low"] <= value < ax["high"]:
        return None
    width = (ax["high"] - ax["low"]) / ax["bins"]
    place = (value - ax["low"]) / width
    # positions of arbitrary floats: not near an edge without being at it
    assume(place == round(place) or abs(place - round(place)) > 1e-9)
    return min(int(place), ax["bins"] - 1)


def model(case, data):
    """ Fills data, returns the number filled. """
    filled = 0
    for content in case["files"]:
        for point in points(case, content):
            place = [bin_of(ax, v) for ax, v in zip(case["axes"], point)]
            if None not in place:
                data[tuple(place)] += 1.
                filled += 1
    return filled


def config_file(case, rec):
    path = os.path.join(rec.tmp(), "config.yml")
    with open(path, "w") as out:
        yaml.safe_dump({"parameters": dict(
            (ax["name"], {"low": ax["low"], "high": ax["high"],
                          "bins": ax["bins"]})
            for ax in case["axes"])}, out)
    return path


def fill_all(case, rec):
    _rat.install()
    from echidna.core import fill_spectrum
    _rat.FILES.clear()
    names = []
    for number, content in enumerate(case["files"]):
        names.append("file%d.root" % number)
        _rat.FILES[names[-1]] = content
    fill = fill_spectrum.fill_from_ntuple if case["kind"] == "ntuple" \
        else fill_spectrum.fill_from_root
    kwargs = dict(case["kwargs"])
    if case["bipo"] is not None:
        kwargs["bipo"] = case["bipo"]
    spec = None
    if case["before"] is not None:
        spec = make_spectrum({"axes": case["axes"], "num_decays": 10.,
                              "data": [4] * cells_of(case["axes"])}, "old")
        spec._raw_events = case["before"]
    for name in names:
        if spec is None:
            if case["path"]:
                rec.label("config from a path")
                config = config_file(case, rec)
            else:
                config = make_config(case["axes"])
            spec = fill(name, spectrum_name="new", config=config, **kwargs)
        else:
            again = fill(name, spectrum=spec, **kwargs)
            rec.check(again is spec, "the spectrum to append is not returned")
    return spec


def judge(case, rec):
    hit = 0
    for axs in case["configs"]:
        for bipo in (case["bipo"], True):
            hit += judge_one(dict(case, axes=axs, bipo=bipo), rec)
    rec.hit(hit > 2)


def judge_one(case, rec):
    for position in all_positions(case):
        for r in rules(case):
            assume(not r.near(position))
    new = case["before"] is None
    data = numpy.zeros([ax["bins"] for ax in case["axes"]])
    total = sum(len(content) for content in case["files"])
    if not new:
        data += 1.
    filled = model(case, data)
    spec = fill_all(case, rec)
    rec.label("%d files" % len(case["files"]))
    order = [ax["name"] for ax in case["axes"]]
    what = " of %s%s" % (", ".join(order), " (bipo)" * bool(case["bipo"]))
    found = list(spec.get_config().get_pars())
    rec.check(sorted(found) == sorted(order), "the dimensions%s are %s", what,
              found)
    expect_close(rec, spec.get_data(), data.transpose(
        [order.index(name) for name in found]), "contents" + what, 1e-12, 0.)
    rec.check(spec._raw_events == filled + (case["before"] or 0),
              "there are %s raw events%s, %s were filled", spec._raw_events,
              what, filled)
    rec.check(spec.get_num_decays() == total + (0 if new else 10),
              "num_decays is %s for %d entries", spec.get_num_decays(), total)
    rec.check(spec.get_name() == ("new" if new else "old"),
              "the spectrum is named %s", spec.get_name())
    rec.check(bool(spec.get_bipo()) == bool(case["bipo"]),
              "the bipo flag%s is %s", what, spec.get_bipo())
    return 0 < filled < total


RULE = "in more than two of the spectra some events are filled, some not"


@prop.facet(cases("ntuple"), quick=150, rule=RULE)
def ntuples(case, rec):
    """ Contents of spectra filled from ntuples. """
    judge(case, rec)


@prop.facet(cases("root"), quick=150, rule=RULE)
def files(case, rec):
    """ Contents of spectra filled from RAT files. """
    judge(case, rec)


@prop.facet(st.fixed_dictionaries({
    "kind": st.sampled_from(["ntuple", "root"]),
    "content": st.lists(_rat.entries(), max_size=0),
    "what": st.sampled_from(["no name", "no config", "nothing", "unknown",
                             "no type"]),
    "dim": st.sampled_from(["energy", "time", "x", "radial"])}), quick=60,
    rule="every case")
def rejected(case, rec):
    """ Incomplete requests are errors. """
    _rat.install()
    from echidna.core import fill_spectrum
    rec.hit()
    _rat.FILES["f"] = case["content"]
    fill = fill_spectrum.fill_from_ntuple if case["kind"] == "ntuple" \
        else fill_spectrum.fill_from_root
    name = {"unknown": case["dim"] + "_data",
            "no type": case["dim"]}.get(case["what"], "energy_mc")
    config = make_config([{"name": name, "low": 0., "high": 10.,
                           "bins": 10}])
    kwargs = {"spectrum_name": "name", "config": config}
    if case["what"] in ("no name", "nothing"):
        del kwargs["spectrum_name"]
    if case["what"] in ("no config", "nothing"):
        del kwargs["config"]
    raises(rec, IndexError if case["what"] in ("unknown", "no type")
           else ValueError, lambda: fill("f", **kwargs),
           "filling with %s" % case["what"])
