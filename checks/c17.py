""" C17 - fitting with pre-made spectra is fitting with convolved ones. """
import os

from hypothesis import strategies as st

from checks.c13 import FOLDER, suffix, text
from checks.c16 import *  # noqa
from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C17")


def grouped(case):
    """ The systematics of a dimension follow each other. """
    first = [par["dim"] for par in case["globals"]]
    case["globals"].sort(key=lambda par: first.index(par["dim"]))
    return case


def distinct(case):
    """ No two systematics share a suffix (known finding "same-kind"). """
    kinds = [suffix(par["kind"], par["low"]) for par in case["globals"]]
    return kinds and len(kinds) == len(set(kinds))


@prop.facet(st.fixed_dictionaries({
    "fit": fits(max_floating=2).filter(distinct).map(grouped),
    "base": st.sampled_from([None, "argument", "slash", "set", "set slash"]),
    "same_name": st.booleans(),
    # folders which are named like a dimension or a systematic, nearly
    "folder": st.sampled_from(["runs", "energy_mc_runs", "x.radial_mc",
                               "smear", "scale", "my_shift", "2ly_energy"]),
    # the spectra are looked for relative to the current directory
    "relative": st.booleans(),
    "decays": st.sampled_from([3., 100., 0.25])}), quick=390,
    rule="several points or systematics")
def pre_made(case, rec):
    """ Loading pre-made spectra is the same as convolving. """
    where = rec.tmp()
    if not case["relative"]:
        return compare(case, rec, where)
    start = os.getcwd()
    os.chdir(where)
    try:
        compare(case, rec, "")
    finally:
        os.chdir(start)


def compare(case, rec, where):
    """ Compares the fits with and without pre-made spectra.

    Args:
      where (string): the folder to put the spectra in.
    """
    rec.label("relative: %s" % case["relative"])
    base_dir, decays, folder = case["base"], case["decays"], case["folder"]
    if case["relative"] and folder == "smear":
        folder = ""    # the current directory itself
    # files of one name in different directories
    same_name = case["same_name"] and not base_dir
    case = case["fit"]
    from echidna.output import store
    plain = Recorder()
    points = Points()
    points.points = combinations(case)[:6]
    rec.hit(len(points.points) > 1 or len(case["globals"]) > 1)
    rec.label("base dir: %s" % base_dir)
    fitter, members = make_fit(case, plain, points)
    wanted = fitter.fit()
    other = dict(case, floating=[dict(f, name="b%d_mc" % i) for i, f in
                                 enumerate(case["floating"])])
    statistic = Recorder()
    again = Points()
    again.points = points.points
    home = os.path.join(where, folder)
    away = os.path.join(where, "away", folder)
    for path in (home, away):
        if path and not os.path.isdir(path):
            os.makedirs(path)
    kwargs = {}
    if base_dir in ("argument", "slash"):
        kwargs["pre_made_base_dir"] = away + "/" * (base_dir == "slash")
    plain_members = members
    fitter2, members = make_fit(other, statistic, again, use_pre_made=True,
                                **kwargs)
    if base_dir in ("set", "set slash"):
        fitter2.set_pre_made_dir(away + "/" * (base_dir == "set slash"))
    spectra = members["floating"] + (
        [members["signal"]] if members["signal"] else [])
    systematic = set(tuple(p[:len(case["globals"])])
                     for p in points.points)
    for number, spec in enumerate(spectra):
        own = os.path.join(home, "s%d" % number) if same_name else home
        base_name = "spec" if same_name else spec.get_name()
        spec._location = os.path.join(own, base_name + ".hdf5")
        cut = {"axes": [{"name": a[0], "low": a[1], "high": a[2],
                         "bins": a[3]} for a in axes_of(spec)],
               "data": [4. * x for x in spec._data.ravel()],
               "num_decays": spec.get_num_decays()}
        for values in systematic:
            folder = away if base_dir else own
            name = base_name
            folders = []
            for par, value in zip(case["globals"], values):
                if par["dim"] not in folders:
                    folders.append(par["dim"])
                folders.append(FOLDER[par["kind"]])
                name += "_" + text(value) + suffix(par["kind"], value)
            folder = os.path.join(folder, *folders)
            if not os.path.isdir(folder):
                os.makedirs(folder)
            done = make_spectrum(convolve(case, cut, values),
                                 name=spec.get_name())
            done.scale(11.)     # another number of decays
            store.dump(os.path.join(folder, name + ".hdf5"), done)
    for _ in (0, 1):
        results = fitter2.fit()
        rec.check(len(results) == len(wanted), "%d results", len(results))
        for i, (a, b) in enumerate(zip(wanted, results)):
            expect_close(rec, statistic.asked[i][0], plain.asked[i][0],
                         "observed counts with pre-made spectra")
            expect_close(rec, statistic.asked[i][1], plain.asked[i][1],
                         "expected counts with pre-made spectra at %s" %
                         (points.points[i],), atol=1e-7)
            expect_close(rec, b[1], a[1], "penalty")
        # another signal
        if not case["signal"]:
            break
        for group in (members, plain_members):
            group["signal"].scale(decays)
        del plain.asked[:], statistic.asked[:]
        wanted = fitter.fit()


@prop.probe("same-kind", "the pre-made names of two systematics of one kind "
            "(e.g. scales of two dimensions) only contain the last value")
def same_kind():
    from checks.c13 import parameter
    names = []
    for value in (1.1, 1.2):
        where, name = parameter("scale", "energy_mc", value)\
            .get_pre_convolved("data/energy_mc/", "x_mc.hdf5", True)
        names.append(parameter("scale", "radial_mc", 0.9).get_pre_convolved(
            where + "radial_mc/", name, True))
    return names[0] == names[1]
