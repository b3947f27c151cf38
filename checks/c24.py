""" C24 - the conversions of double beta decay quantities. """
import math

from hypothesis import strategies as st

from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C24")

# PDG 2012 and the SNO+ defaults
ELECTRON_MASS = 0.510998910e6       # eV
AVOGADRO = 6.02214129e23
RADIUS, DENSITY, LOADING = 5997., 862.8e-9, 0.003


def spread(low, high):
    """ Evenly in the logarithm. """
    return st.floats(math.log10(low), math.log10(high)).map(
        lambda x: float("%.12g" % 10. ** x))


FRACTIONS = st.one_of(st.just(0.), st.just(1.), st.floats(1e-4, 1.))
OPTIONAL = lambda s: st.one_of(st.none(), s)    # noqa
LENGTHS = spread(1., 1e5)
DENSITIES = spread(1e-8, 1e-5)
MASSES = spread(1e-3, 1e7)

ISOTOPES = st.fixed_dictionaries({
    "iso": st.floats(1., 240.), "nat": st.floats(1., 240.),
    "abundance": FRACTIONS, "phase": spread(1e-18, 1e-12),
    "matrix": spread(1e-3, 10.), "loading": OPTIONAL(FRACTIONS),
    "radius": OPTIONAL(LENGTHS), "density": OPTIONAL(DENSITIES),
    "how": st.sampled_from(["names", "positions"])})


def isotope(case, **changes):
    from echidna.calc.decay import DBIsotope
    case = dict(case, **changes)
    args = ["Te130", case["iso"], case["nat"], case["abundance"],
            case["phase"], case["matrix"]]
    if case["how"] == "positions":
        return DBIsotope(*(args + [case["loading"], case["radius"],
                                   case["density"]]))
    kwargs = dict(zip(("loading", "outer_radius", "scint_density"),
                      (case["loading"], case["radius"], case["density"])))
    return DBIsotope(*args, **dict((k, v) for k, v in kwargs.items()
                                   if v is not None))


def first(*values):
    for value in values:
        if value is not None:
            return value


def atoms(case, over):
    """ Number of atoms from the definition. """
    mass = over.get("target_mass")
    if mass is None:
        scint = over.get("scint_mass")
        if scint is None:
            radius = first(over.get("outer_radius"), case["radius"], RADIUS)
            scint = first(over.get("scint_density"), case["density"],
                          DENSITY) * 4. / 3. * math.pi * radius ** 3
        mass = scint * first(over.get("loading"), case["loading"], LOADING) \
            * case["abundance"] * case["iso"] / case["nat"]
    return mass * 1000. / case["iso"] * AVOGADRO


@prop.facet(st.fixed_dictionaries({
    "isotope": ISOTOPES, "over": st.fixed_dictionaries({
        "loading": OPTIONAL(FRACTIONS), "scint_density": OPTIONAL(DENSITIES),
        "target_mass": st.one_of(st.none(), st.none(), st.just(0.), MASSES),
        "scint_mass": st.one_of(st.none(), st.none(), st.just(0.), MASSES),
        "outer_radius": OPTIONAL(LENGTHS)})}), quick=2400,
    rule="something is overridden")
def n_atoms(case, rec):
    """ Number of atoms, with any combination of defaults and overrides. """
    over = dict((k, v) for k, v in case["over"].items() if v is not None)
    tool = isotope(case["isotope"])
    rec.hit(over)
    rec.label("overridden: %d" % len(over))
    expect_close(rec, tool.get_n_atoms(**over), atoms(case["isotope"], over),
                 "number of atoms", 1e-9, 0.)
    expect_close(rec, tool.get_n_atoms(), atoms(case["isotope"], {}),
                 "number of atoms afterwards", 1e-9, 0.)


@prop.facet(st.fixed_dictionaries({
    "isotope": ISOTOPES, "half_life": spread(1e15, 1e29),
    "eff_mass": st.one_of(spread(1e-4, 1e3), spread(1e-12, 1e6)), "counts": st.one_of(
        spread(1e-3, 1e6), st.integers(1, 1000), spread(1e-12, 1e20)),
    "livetime": st.one_of(st.none(), spread(1e-3, 100.),
                          st.integers(1, 20), spread(1e-9, 1e9)),
    "atoms": OPTIONAL(spread(1e20, 1e30))}), quick=3000,
    rule="atoms and livetime are given")
def conversions(case, rec):
    """ Every conversion against its formula, and each way and back. """
    iso = case["isotope"]
    tool = isotope(iso)
    n = atoms(iso, {}) if case["atoms"] is None else case["atoms"]
    time = 5. if case["livetime"] is None else float(case["livetime"])
    with_n = {} if case["atoms"] is None else {"n_atoms": case["atoms"]}
    with_t = {} if case["livetime"] is None else \
        {"livetime": case["livetime"]}
    both = dict(with_n, **with_t)
    rec.hit(len(both) == 2)
    half_life, mass = case["half_life"], case["eff_mass"]
    counts = case["counts"]

    def life(mass_):
        return (ELECTRON_MASS / mass_ / iso["matrix"]) ** 2 / iso["phase"]

    def mass_of(life_):
        return ELECTRON_MASS / iso["matrix"] / math.sqrt(iso["phase"] * life_)

    def same(name, found, wanted):
        expect_close(rec, found, wanted, name, 1e-9, 0.)

    same("activity of half-life", tool.half_life_to_activity(
        half_life, **with_n), math.log(2.) / half_life * n)
    same("half-life of effective mass", tool.eff_mass_to_half_life(mass),
         life(mass))
    same("effective mass of half-life", tool.half_life_to_eff_mass(half_life),
         mass_of(half_life))
    same("counts of activity", tool.activity_to_counts(counts, **with_t),
         counts * time)
    same("activity of counts", tool.counts_to_activity(counts, **with_t),
         counts / time)
    same("counts of half-life", tool.half_life_to_counts(half_life, **both),
         math.log(2.) / half_life * n * time)
    same("counts of effective mass", tool.eff_mass_to_counts(mass, **both),
         math.log(2.) / life(mass) * n * time)
    if n > 0.:
        same("half-life of activity", tool.activity_to_half_life(
            counts, **with_n), math.log(2.) * n / counts)
        same("half-life of counts", tool.counts_to_half_life(counts, **both),
             math.log(2.) * n * time / counts)
        same("effective mass of counts", tool.counts_to_eff_mass(
            counts, **both), mass_of(math.log(2.) * n * time / counts))
        # and back
        same("activity and back", tool.activity_to_half_life(
            tool.half_life_to_activity(half_life, **with_n), **with_n),
            half_life)
        same("counts and back", tool.counts_to_half_life(
            tool.half_life_to_counts(half_life, **both), **both), half_life)
        same("effective mass and back", tool.counts_to_eff_mass(
            tool.eff_mass_to_counts(mass, **both), **both), mass)
    same("half-life and back", tool.eff_mass_to_half_life(
        tool.half_life_to_eff_mass(half_life)), half_life)


BAD = st.one_of(st.just(0.), st.just(0), spread(1e-6, 100.).map(lambda x: -x))
OUTSIDE = st.one_of(spread(1e-9, 10.).map(lambda x: -x),
                    spread(1e-9, 10.).map(lambda x: 1. + x))


@prop.facet(st.fixed_dictionaries({
    "isotope": ISOTOPES, "bad": BAD, "outside": OUTSIDE,
    "atoms": OPTIONAL(spread(1e20, 1e30))}), quick=900,
    rule="every case: all unphysical arguments are tried")
def rejected(case, rec):
    """ Unphysical arguments are errors, at once and later. """
    tool = isotope(case["isotope"])
    rec.hit()
    kwargs = {} if case["atoms"] is None else {"n_atoms": case["atoms"]}
    bad, outside = case["bad"], case["outside"]
    tries = [
        ("an abundance of %s" % outside,
         lambda: isotope(case["isotope"], abundance=outside)),
        ("a loading of %s" % outside,
         lambda: isotope(case["isotope"], loading=outside)),
        ("a radius of %s" % bad,
         lambda: isotope(case["isotope"], radius=bad)),
        ("atoms for a loading of %s" % outside,
         lambda: tool.get_n_atoms(loading=outside)),
        ("atoms for a radius of %s" % bad,
         lambda: tool.get_n_atoms(outer_radius=bad)),
        ("half-life of effective mass %s" % bad,
         lambda: tool.eff_mass_to_half_life(bad)),
        ("counts of effective mass %s" % bad,
         lambda: tool.eff_mass_to_counts(bad, **kwargs))]
    for name, args in (("activity_to_counts", {}), ("counts_to_activity", {}),
                       ("counts_to_eff_mass", kwargs),
                       ("eff_mass_to_counts", kwargs),
                       ("half_life_to_counts", kwargs),
                       ("counts_to_half_life", kwargs)):
        tries.append(("%s for a livetime of %s" % (name, bad),
                      lambda name=name, args=args: getattr(tool, name)(
                          2., livetime=bad, **args)))
    for what, attempt in tries:
        raises(rec, ValueError, attempt, what)
