""" C25 - what is extracted from ntuples and RAT files. """
from hypothesis import assume
from hypothesis import strategies as st

from checks import _rat
from checks._rat import Rule
from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C25")
CLASSES = {"energy": "EnergyExtract", "radial": "RadialExtract",
           "radial3": "Radial3Extract", "zradial3": "ZRadial3Extract"}
KINDS = {"mc": "MC", "reco": "Reco", "truth": "Truth"}


def on_boundary(draw, positions, fv_radius):
    """ The fiducial radius, now and then that of one of the positions. """
    exact = sorted(set(r for r in map(_rat.radii, positions)
                       if r > 0 and r == int(r)))
    if exact and draw(st.integers(0, 2)) == 0:
        return draw(st.sampled_from(exact))
    return fv_radius


@st.composite
def ntuple_cases(draw):
    entries = draw(st.lists(_rat.entries(), min_size=1, max_size=6))
    case = draw(settings())
    case["entries"] = entries
    case["fv_radius"] = on_boundary(draw, [
        e[k] for e in entries for k in ("pos", "mcPos")], case["fv_radius"])
    return case


@st.composite
def root_cases(draw):
    case = draw(settings())
    case["fitted"] = draw(st.sampled_from([True, True, False]))
    case["events"] = events = draw(st.lists(_rat.events(case["fitted"]),
                                            min_size=1, max_size=6))
    case["fv_radius"] = on_boundary(draw, [
        x for event in events for x in event["particles"] + [
            e["position"] for e in event["evs"]]], case["fv_radius"])
    return case


@st.composite
def settings(draw):
    return {"fv_radius": draw(_rat.FV), "outer_radius": draw(_rat.OUTER),
            "external": draw(st.sampled_from([None, False, False, True])),
            "direct": draw(st.booleans())}


def variants(case):
    """ Every dimension, and every choice of the position to cut on. """
    for name in _rat.NAMES:
        for other in [False, True] if case["direct"] else [False]:
            yield dict(case, name=name, other=other)


def rule(case):
    return Rule(case["name"], case["fv_radius"], bool(case["external"]),
                case["outer_radius"], case["other"])


def make(case):
    _rat.install()
    from echidna.core import dsextract
    kwargs = {}
    for key in ("fv_radius", "external", "outer_radius"):
        if case[key] is not None:
            kwargs[key] = case[key]
    if not case["direct"]:
        # what does not concern the extractor is ignored
        return dsextract.function_factory(case["name"], **kwargs)
    dim, kind = case["name"].rsplit("_", 1)
    if not dim.endswith("radial3"):
        kwargs.pop("outer_radius", None)
    if case["other"]:
        kwargs["mc_pos" if kind == "reco" else "reco_pos"] = True
    return getattr(dsextract, CLASSES[dim] + KINDS[kind])(**kwargs)


def build(case, rec):
    """ The extractor, or None when there must not be one. """
    if not rule(case).possible():
        rec.label("impossible")
        raises(rec, ValueError, lambda: make(case),
               "%s for an external background" % case["name"])
        return None
    made = make(case)
    rec.check(getattr(made, "_name", None) == case["name"], "the extractor for %s is named %s",
              case["name"], getattr(made, "_name", None))
    rec.label(case["name"])
    return made


@prop.facet(ntuple_cases(), quick=900,
            rule="some entries are extracted and some are not")
def ntuples(case, rec):
    """ Which ntuple entries are valid, and their values. """
    for options in variants(case):
        expected = rule(options)
        for entry in case["entries"]:
            assume(not expected.near(entry["pos"]))
            assume(not expected.near(entry["mcPos"]))
        extractor = build(options, rec)
        if extractor is None:
            continue
        kept = 0
        what = "%s (other position: %s)" % (options["name"],
                                            options["other"])
        for number, entry in enumerate(case["entries"]):
            wanted = expected.ntuple(entry)
            found = extractor.get_valid_ntuple(_rat.Entry(entry))
            rec.check(bool(found) == (wanted is not None),
                      "%s: entry %s is %svalid: %s", what, number,
                      "" if found else "not ", entry)
            if wanted is not None:
                kept += 1
                expect_close(rec, extractor.get_value_ntuple(
                    _rat.Entry(entry)), wanted, "value of entry %d for %s" %
                    (number, what), 1e-12, 0.)
        rec.hit(0 < kept < len(case["entries"]))


@prop.facet(root_cases(), quick=900,
            rule="some events are extracted and some are not")
def files(case, rec):
    """ Which events of RAT files are valid, and their values. """
    for options in variants(case):
        expected = rule(options)
        if expected.cut_reco and not expected.reco and not case["fitted"]:
            continue    # there has to be a fit to cut on
        for event in case["events"]:
            for position in event["particles"] + [e["position"]
                                                  for e in event["evs"]]:
                assume(not expected.near(position))
        extractor = build(options, rec)
        if extractor is not None:
            judge_files(case["events"], rec, expected, extractor,
                        "%s (other position: %s)" % (options["name"],
                                                     options["other"]))


def judge_files(events, rec, expected, extractor, what):
    kept = tried = 0
    for event in events:
        if expected.reco and not expected.cut_reco and \
                expected.fv is not None and not event["particles"]:
            continue    # nothing to cut on
        ds = _rat.DS(event)
        numbers_ = range(len(event["evs"])) if expected.reco else [None]
        for number in numbers_:
            wanted = expected.root(event, number)
            subject = ds.GetEV(number) if expected.reco else ds.GetMC()
            tried += 1
            if wanted is ValueError:
                rec.label("undecidable")
                raises(rec, ValueError,
                       lambda: extractor.get_valid_root(subject, ds),
                       "%s: cut on reconstruction with %d events for one MC"
                       % (what, len(event["evs"])))
                continue
            found = extractor.get_valid_root(subject, ds)
            rec.check(bool(found) == (wanted is not None),
                      "%s: event %s is %svalid: %s", what, number,
                      "" if found else "not ", event)
            if wanted is not None:
                kept += 1
                expect_close(rec, extractor.get_value_root(subject), wanted,
                             "value of an event for " + what, 1e-12, 0.)
    rec.hit(0 < kept < tried)


@prop.facet(st.fixed_dictionaries({
    "name": st.one_of(
        st.tuples(st.sampled_from(["energy", "radial", "radial3", "zradial3",
                                   "time", "x", ""]),
                  st.sampled_from(["mc", "reco", "truth", "data", ""])).map(
            "_".join),
        st.sampled_from(["energy", "energy_MC", "Energy_mc", "radial2_mc",
                         "zradial_reco", "energy_mc_"]))}), quick=300,
    rule="the dimension cannot be extracted")
def unknown(case, rec):
    """ Dimensions which cannot be extracted are errors. """
    options_ = {"name": case["name"], "fv_radius": None, "external": None,
                "outer_radius": None, "direct": False, "other": False}
    if case["name"] in _rat.NAMES:
        rec.check(getattr(make(options_), "_name", None) == case["name"],
                  "the extractor for %s has another name", case["name"])
        return
    rec.hit()
    raises(rec, IndexError, lambda: make(options_),
           "extractor for %s" % case["name"])
