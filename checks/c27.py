""" C27 - scripts write the documented files and nothing else. """
import contextlib
import io
import itertools
import os
import sys
import tempfile

import yaml
from hypothesis import assume
from hypothesis import strategies as st

from checks import _plots, _rat, c26
from vlib import loader
from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C27")
SCRIPTS = "echidna/scripts/"

# ------------------------------------------------------------ files, places
STEMS = st.sampled_from(["example", "Te130_mc", "ex.1", "a.b.c", "0n2b-v1",
                         "1.5sc", "with space"])
#: where the input is, as it is written on the command line
PLACES = st.sampled_from(["bare", "bare", "sub/", "./", "a.b/", "../here/",
                          "abs", "a.b/c/"])
DESTS = st.sampled_from([None, None, "out", "out/", "o.u.t/", "."])


class Folder(object):
    """ A scratch working directory with an input file. """
    def __init__(self, rec, place="bare", stem="example"):
        self.rec = rec
        self.root = tempfile.mkdtemp(dir=rec.tmp())
        self.cwd = os.path.join(self.root, "here")
        for name in ("here/sub", "here/a.b/c", "here/out", "here/o.u.t"):
            os.makedirs(os.path.join(self.root, name))
        os.chdir(self.cwd)
        self.place = self.cwd + "/sub/" if place == "abs" else \
            "" if place == "bare" else place
        self.stem = stem
        self.path = self.place + stem + ".hdf5"

    def absolute(self, path):
        return os.path.normpath(os.path.join(self.cwd, path))

    def files(self):
        found = {}
        for folder, _, names in os.walk(self.root):
            for name in names:
                path = os.path.join(folder, name)
                with open(path, "rb") as source:
                    found[os.path.normpath(path)] = source.read()
        return found

    def run(self, script, argv, expected, same=()):
        """ The script must write just the expected files. """
        before = self.files()
        try:
            loader.run_script(SCRIPTS + script + ".py",
                              [str(a) for a in argv])
        except SystemExit as stop:
            self.rec.fail("%s %s stopped with %s", script, argv, stop.code)
        after = self.files()
        expected = sorted(self.absolute(e) for e in expected)
        new = sorted(p for p in after if p not in before)
        overwritten = [p for p in expected if p in before]
        self.rec.check(sorted(new + overwritten) == expected,
                       "%s %s wrote %s instead of %s", script, argv, new,
                       expected)
        for path in before:
            if path not in overwritten:
                self.rec.check(after.get(path) == before[path],
                               "%s %s changed %s", script, argv, path)


def stored(rec, path, expected):
    """ The stored spectrum is the expected one. """
    from echidna.output import store
    found = snapshot(store.load(path))
    want = snapshot(expected)
    rec.check([a[0] for a in found["axes"]] == [a[0] for a in want["axes"]],
              "%s has dimensions %s instead of %s", path, found["axes"],
              want["axes"])
    expect_close(rec, [a[1:] for a in found["axes"]],
                 [a[1:] for a in want["axes"]], path + ": axes", 1e-9, 1e-9)
    expect_close(rec, found["data"], want["data"], path + ": contents", 1e-9,
                 1e-9)
    for key in ("num_decays", "raw_events", "bipo", "name"):
        rec.check(found[key] == want[key], "%s: %s is %s instead of %s", path,
                  key, found[key], want[key])


def saved(case, folder, path=None, name="Te130_mc"):
    """ Stores the spectrum of the case, returns another copy of it. """
    from echidna.output import store
    spec = make_spectrum(case["spec"], name)
    spec._raw_events = case.get("raw", 7)
    store.dump(path or folder.path, spec)
    return store.load(path or folder.path)


def base(**kwargs):
    return {"place": PLACES, "stem": STEMS, "raw": st.integers(0, 1000),
            "spec": spectrum(max_cells=60, **kwargs)}


def short(value):
    """ As Python 2 prints floats. """
    text = "%.12g" % value
    return text


def destination(case, folder):
    if case["dest"] is None:
        return folder.place, []
    dest = case["dest"]
    return dest if dest.endswith("/") else dest + "/", ["-d", dest]


# ------------------------------------------------------------- hdf5 to hdf5
NICE = st.sampled_from([0.5, 0.95, 1., 1.01, 1.1, 1.25, 2., 3., 0.1, 10.,
                        100., 20.5, 1.0012345678, 0.98765432, 1.00000025])


@prop.facet(st.fixed_dictionaries(dict(
    base(lows=st.sampled_from([0., 0., 1., 2.5]), min_bins=4),
    scale=NICE, which=st.integers(0, 2), dest=DESTS)), quick=150,
    rule="the factor is not 1")
def scaled(case, rec):
    """ dump_scaled """
    from echidna.core import scale
    folder = Folder(rec, case["place"], case["stem"])
    spec = saved(case, folder)
    ax = case["spec"]["axes"][case["which"] % len(case["spec"]["axes"])]
    rec.hit(case["scale"] != 1.)
    rec.label(case["place"], "dest: %s" % case["dest"])
    where, extra = destination(case, folder)
    out = "%s%s_%ssc.hdf5" % (where, case["stem"], short(case["scale"]))
    folder.run("dump_scaled", ["-p", ax["name"], "-s", case["scale"], "-f",
                               folder.path] + extra, [out])
    scaler = scale.Scale()
    scaler.set_scale_factor(case["scale"])
    stored(rec, out, scaler.scale(spec, ax["name"]))


@prop.facet(st.fixed_dictionaries(dict(
    base(min_bins=4), shift=st.sampled_from([0.1, -0.1, 0.25, 1., -2., 50.]),
    bins=st.integers(-3, 3), which=st.integers(0, 2))), quick=150,
    rule="every case")
def shifted(case, rec):
    """ dump_shifted """
    from echidna.core import shift
    folder = Folder(rec, case["place"], case["stem"])
    spec = saved(case, folder)
    ax = case["spec"]["axes"][case["which"] % len(case["spec"]["axes"])]
    by = case["bins"] * (ax["high"] - ax["low"]) / ax["bins"] \
        if case["bins"] else case["shift"]
    rec.hit()
    rec.label(case["place"])
    out = "%s%s_shifted.hdf5" % (folder.place, case["stem"])
    folder.run("dump_shifted", ["-d", ax["name"], "-f", folder.path,
                                "-s=%r" % by], [out])
    shifter = shift.Shift()
    shifter.set_shift(by)
    stored(rec, out, shifter.shift(spec, ax["name"]))


@prop.facet(st.fixed_dictionaries(dict(
    base(exact=True, min_bins=2, lows=st.sampled_from([0., 1., 0.5, 8.,
                                                       -1., -4.])),
    cuts=st.lists(st.tuples(st.integers(0, 7), st.integers(1, 8)),
                  min_size=3, max_size=3),
    how=st.sampled_from(["both", "low", "up"]), n=st.integers(1, 3),
    output=st.sampled_from([None, None, "other.hdf5", "out/other.hdf5"]))),
    quick=150, rule="something is cut away")
def shrunk(case, rec):
    """ dump_shrink """
    folder = Folder(rec, case["place"], case["stem"])
    spec = saved(case, folder)
    axs = case["spec"]["axes"][:case["n"]]
    keep, low, up = [], [], []
    for ax in case["spec"]["axes"]:
        keep.append((0, ax["bins"]))
    for number, ax in enumerate(axs):
        width = (ax["high"] - ax["low"]) / ax["bins"]
        a, b = case["cuts"][number]
        a %= ax["bins"]
        b = min(a + b, ax["bins"])
        if case["how"] == "low":
            b = ax["bins"]
        if case["how"] == "up":
            a = 0
        keep[number] = (a, b)
        low.append(ax["low"] + a * width)
        up.append(ax["low"] + b * width)
    rec.hit(any(k != (0, ax["bins"])
                for k, ax in zip(keep, case["spec"]["axes"])))
    rec.label(case["how"], case["place"])
    # argparse takes numbers like -1e-05 for options
    assume(not any("e" in str(v) for v in low + up))
    argv = ["-i", folder.path, "-p"] + [ax["name"] for ax in axs]
    if case["how"] != "up":
        argv += ["-l"] + low
    if case["how"] != "low":
        argv += ["-u"] + up
    out = "%s%s_shrunk.hdf5" % (folder.place, case["stem"])
    if case["output"]:
        out = case["output"]
        argv += ["-o", out]
    folder.run("dump_shrink", argv, [out])
    # computed without the library
    data = data_array(case["spec"])[tuple(slice(a, b) for a, b in keep)]
    axs = []
    for (a, b), ax in zip(keep, case["spec"]["axes"]):
        width = (ax["high"] - ax["low"]) / ax["bins"]
        axs.append({"name": ax["name"], "low": ax["low"] + a * width,
                    "high": ax["low"] + b * width, "bins": b - a})
    expected = make_spectrum({"axes": axs, "data": [0] * data.size,
                              "num_decays": case["spec"]["num_decays"]},
                             "Te130_mc")
    put_data(expected, data)
    expected._raw_events = spec._raw_events
    stored(rec, out, expected)


@prop.facet(st.fixed_dictionaries(dict(
    base(), divide=st.lists(st.integers(0, 7), min_size=3, max_size=3),
    output=st.sampled_from([None, None, "other.hdf5", "out/other.hdf5"]))),
    quick=150, rule="there are fewer bins")
def rebinned(case, rec):
    """ rebin """
    folder = Folder(rec, case["place"], case["stem"])
    spec = saved(case, folder)
    bins = []
    for ax, choice in zip(case["spec"]["axes"], case["divide"]):
        fits = [n for n in range(1, ax["bins"] + 1) if ax["bins"] % n == 0]
        bins.append(fits[choice % len(fits)])
    rec.hit(bins != [ax["bins"] for ax in case["spec"]["axes"]])
    argv = ["-i", folder.path, "-b"] + bins
    out = "%s%s_rebin.hdf5" % (folder.place, case["stem"])
    if case["output"]:
        out = case["output"]
        argv += ["-o", out]
    folder.run("rebin", argv, [out])
    data = data_array(case["spec"])
    for dim, n in enumerate(bins):
        data = numpy.add.reduceat(
            data, range(0, data.shape[dim], data.shape[dim] // n), axis=dim)
    expected = make_spectrum(
        {"axes": [dict(ax, bins=n)
                  for ax, n in zip(case["spec"]["axes"], bins)],
         "data": [0] * data.size, "num_decays": case["spec"]["num_decays"]},
        "Te130_mc")
    put_data(expected, data)
    expected._raw_events = spec._raw_events
    stored(rec, out, expected)


@st.composite
def several(draw):
    axs = draw(axes(max_cells=40))
    return {"specs": draw(st.lists(st.fixed_dictionaries({
        "axes": st.just(axs), "data": contents(cells_of(axs)),
        "num_decays": st.sampled_from([1., 10., 12.5, 1000.])}), min_size=2,
        max_size=5)), "places": draw(st.lists(PLACES, min_size=5,
                                              max_size=5)),
        "stem": draw(STEMS)}


@prop.facet(several(), quick=100, rule="more than two files")
def combined(case, rec):
    """ combine_hdf5 """
    folder = Folder(rec)
    names = []
    total = 0.
    for number, spec in enumerate(case["specs"]):
        place = case["places"][number]
        place = folder.cwd + "/out/" if place == "abs" else \
            "" if place == "bare" else place
        names.append("%s%s%d.hdf5" % (place, case["stem"], number))
        saved({"spec": spec, "raw": number + 1}, folder, names[-1],
              "Te130_mc" if number == 0 else "U238_mc")
        total = total + data_array(spec)
    rec.hit(len(names) > 2)
    folder.run("combine_hdf5", ["-f"] + names, ["combined.hdf5"])
    expected = make_spectrum(dict(
        case["specs"][0], num_decays=sum(s["num_decays"]
                                         for s in case["specs"])), "Te130_mc")
    put_data(expected, total)
    expected._raw_events = sum(range(len(names) + 1))
    stored(rec, "combined.hdf5", expected)


# ------------------------------------------------------------------ smearing
ENERGIES = ["energy_mc", "energy_truth", "energy_reco"]


def smearable(names):
    return dict(
        base(names=names, max_bins=12, max_dims=2, min_bins=2, nonempty=True,
             lows=st.sampled_from([0., 0., 0.5, 2.])),
        widths=st.lists(st.sampled_from([0.02, 0.05, 0.1, 0.25, 1.]),
                        min_size=3, max_size=3),
        method=st.sampled_from([None, "weight", "random", "random"]),
        first=st.sampled_from(ENERGIES + [None]),
        resolution=st.sampled_from([None, None, 0.05, 0.1, 0.01, 0.5]))


def smeared_by(spec, method, energy, radial, order):
    for name in order:
        for part, smearer in (("energy", energy), ("radial", radial)):
            if part in name and smearer is not None:
                smear = smearer.random_smear if method == "random" else \
                    smearer.weighted_smear
                spec = smear(spec, par=name)
                break
    return spec


def smeared_result(case, rec, path, energy, radial):
    """ What is stored is the spectrum smeared with the same numbers; the
    order in which several dimensions are smeared is up to the script. """
    from echidna.output import store
    names = [ax["name"] for ax in case["spec"]["axes"]]
    found = store.load(path)
    original = store.load(case["original"])
    wanted = []
    for order in itertools.permutations(names):
        with same_numbers(case["raw"]):
            wanted.append(smeared_by(original, case["method"], energy, radial,
                                     order))
        if close(found.get_data(), wanted[-1].get_data(), 1e-9, 1e-9):
            break
    rec.hit(not close(wanted[-1].get_data(), original.get_data(), 1e-3,
                      1e-3))
    # the name may tell the order
    wanted[-1]._name = found._name
    stored(rec, path, wanted[-1])


def prepared(case):
    """ Bins for which smearing makes a difference; random smearing takes a
    while per event. """
    case["spec"]["data"] = [min(v, 12) for v in case["spec"]["data"]]
    axs = case["spec"]["axes"]
    if case["first"] and case["first"] not in [ax["name"] for ax in axs]:
        axs[0]["name"] = case["first"]
    for ax, width in zip(axs, case["widths"]):
        if "radial" in ax["name"]:
            width *= 1000.
        ax["high"] = ax["low"] + width * ax["bins"]


@contextlib.contextmanager
def same_numbers(seed):
    """ The same random numbers, although smearers seed when created. """
    real = numpy.random.seed
    real(seed)
    numpy.random.seed = lambda *args: real(*args) if args else None
    try:
        yield
    finally:
        numpy.random.seed = real


@prop.facet(st.fixed_dictionaries(smearable(
    ENERGIES + ["radial_mc", "time_mc", "radial_reco"])), quick=100,
    rule="smearing changes the contents")
def smeared(case, rec):
    """ dump_smeared """
    from echidna.core import smear
    folder = Folder(rec, case["place"], case["stem"])
    prepared(case)
    saved(case, folder)
    case["original"] = folder.path
    rec.label(case["method"] or "default", "resolution" if case["resolution"]
              else "light yield")
    argv = [folder.path]
    if case["method"]:
        argv = ["-m", case["method"]] + argv
    if case["resolution"]:
        argv = ["-r", case["resolution"]] + argv
    out = "%s%s_smeared.hdf5" % (folder.place, case["stem"])
    with same_numbers(case["raw"]):
        folder.run("dump_smeared", argv, [out])
    energy = smear.EnergySmearLY()
    if case["resolution"]:
        energy = smear.EnergySmearRes()
        energy.set_resolution(case["resolution"])
    smeared_result(case, rec, out, energy, smear.RadialSmear())


@prop.facet(st.fixed_dictionaries(dict(
    smearable(ENERGIES + ["radial_mc", "time_mc"]), dest=DESTS,
    light=st.sampled_from([None, 200., 300., 99.5, 1000.]),
    gauss=st.booleans())), quick=100, rule="smearing changes the contents")
def smeared_energy(case, rec):
    """ dump_smeared_energy """
    from echidna.core import smear
    folder = Folder(rec, case["place"], case["stem"])
    prepared(case)
    saved(case, folder)
    case["original"] = folder.path
    rec.label(case["method"] or "default", "gauss" if case["gauss"]
              else "poisson")
    where, argv = destination(case, folder)
    if case["method"]:
        argv += ["-m", case["method"]]
    if case["gauss"]:
        argv += ["-g"]
    if case["light"]:
        argv += ["-l", case["light"]]
    if case["resolution"]:
        argv += ["-r", case["resolution"]]
        ending = "%srs" % short(case["resolution"])
        energy = smear.EnergySmearRes(poisson=not case["gauss"])
        energy.set_resolution(case["resolution"])
    else:
        ending = "%sly" % short(case["light"] or 200.)
        energy = smear.EnergySmearLY(poisson=not case["gauss"])
        energy.set_resolution(case["light"] or 200.)
    out = "%s%s_%s.hdf5" % (where, case["stem"], ending)
    with same_numbers(case["raw"]):
        folder.run("dump_smeared_energy", argv + [folder.path], [out])
    smeared_result(case, rec, out, energy, None)


@prop.facet(st.fixed_dictionaries(base()), quick=25, rule="every case")
def refused(case, rec):
    """ Incomplete or wrong requests leave everything as it is. """
    rec.hit()
    folder = Folder(rec, case["place"], case["stem"])
    saved(case, folder)
    path, dim = folder.path, case["spec"]["axes"][0]["name"]
    modules()
    os.mkdir("data")
    for name in ("data/Te130_mc", "data//Te130_mc"):
        _rat.FILES[name] = []
    open("data/Te130_mc", "w").close()
    with open("cnfg.yml", "w") as out:
        yaml.safe_dump({"parameters": {
            "energy_mc": {"low": 0., "high": 10., "bins": 4},
            "radial_mc": {"low": 0., "high": 6000., "bins": 4}}}, out)
    outer = ["-c", "cnfg.yml", "-o", 4000.]
    axis = case["spec"]["axes"][0]
    width = (axis["high"] - axis["low"]) / axis["bins"]
    low, high = axis["low"] + width, axis["high"]
    requests = {
        "shrink: two low, one up": ("dump_shrink", [
            "-i", path, "-p", dim, "-l", low, low, "-u", high]),
        "shrink: one low, two up": ("dump_shrink", [
            "-i", path, "-p", dim, "-l", low, "-u", high, high]),
        "shrink: two up": ("dump_shrink", ["-i", path, "-p", dim, "-u",
                                           high, high]),
        "scale: no factor": ("dump_scaled", ["-p", dim, "-f", path]),
        "ntuple: outer radius": ("dump_spectra_ntuple", outer + [
            "-f", "data/Te130_mc"]),
        "root: outer radius": ("dump_spectra_root", outer + [
            "-f", "data/Te130_mc"]),
        "directory: outer radius": ("multi_ntuple_spectrum", outer + [
            "-p", "data"]),
        "scale: no parameter": ("dump_scaled", ["-s", 2., "-f", path]),
        "scale: no file": ("dump_scaled", ["-s", 2., "-p", dim]),
        "scale: no destination": ("dump_scaled", [
            "-s", 2., "-p", dim, "-f", path, "-d", "nowhere"]),
        "scale: unknown parameter": ("dump_scaled", [
            "-s", 2., "-p", "unknown", "-f", path]),
        "scale: missing file": ("dump_scaled", [
            "-s", 2., "-p", dim, "-f", "missing.hdf5"]),
        "shift: no value": ("dump_shifted", ["-d", dim, "-f", path]),
        "shift: no dimension": ("dump_shifted", ["-s", 1., "-f", path]),
        "shift: no file": ("dump_shifted", ["-s", 1., "-d", dim]),
        "shift: unknown dimension": ("dump_shifted", [
            "-s", 1., "-d", "unknown", "-f", path]),
        "shrink: no bounds": ("dump_shrink", ["-i", path, "-p", dim]),
        "shrink: numbers": ("dump_shrink", ["-i", path, "-p", dim, "-l", 1.,
                                            2.]),
        "shrink: no file": ("dump_shrink", ["-p", dim, "-l", 1.]),
        "shrink: no parameters": ("dump_shrink", ["-i", path, "-l", 1.]),
        "shrink: unknown parameter": ("dump_shrink", [
            "-i", path, "-p", "unknown", "-l", 1.]),
        "combine: one": ("combine_hdf5", ["-f", path]),
        "combine: none": ("combine_hdf5", []),
        "smear: method": ("dump_smeared", ["-m", "other", path]),
        "smear energy: method": ("dump_smeared_energy", ["-m", "other",
                                                         path]),
        "smear energy: no destination": ("dump_smeared_energy", [
            "-d", "nowhere", path]),
        "rebin: bins": ("rebin", ["-i", path, "-b"] + [
            max(2, 2 * ax["bins"]) for ax in case["spec"]["axes"]]),
    }
    before = folder.files()
    for what, (script, argv) in sorted(requests.items()):
        try:
            # (argparse complains there)
            with contextlib.redirect_stderr(io.StringIO()):
                loader.run_script(SCRIPTS + script + ".py",
                                  [str(a) for a in argv])
        except (SystemExit, Exception):
            pass
        after = folder.files()
        rec.check(after == before, "%s: %s %s changed files: %s -> %s", what,
                  script, argv, sorted(before), sorted(after))


# ----------------------------------------------------------- from ROOT files
@st.composite
def fills(draw, kind):
    """ A command line for one of the dump_spectra scripts. """
    case = draw(c26.cases(kind))
    case["before"], case["path"] = None, True
    case["kwargs"].pop("external", None)
    case["outer"] = draw(st.sampled_from([None, 4000., 5000., 7000.]))
    case["bipo"] = draw(st.sampled_from([None, False, True]))
    case["list"] = draw(st.booleans())
    case["save"] = draw(st.sampled_from([None, "out", "./sub", "abs"]))
    case["folder"] = draw(st.sampled_from(["", "data/", "/data/run.1/"]))
    case["names"] = draw(st.lists(st.sampled_from(
        ["Te130_mc", "U238_reco.ntuple.root", "mix_mc.root", "Bi210_mix",
         "a.b_mc.c", "Tl208_reco"]), min_size=3, max_size=3, unique=True))
    case["extra"] = draw(st.booleans())
    return case


def variants(case):
    """ One command for each of the configurations. """
    for axs in case["configs"]:
        kwargs = dict(case["kwargs"])
        if case["outer"] and axs[-1]["name"].startswith("radial"):
            # relative to the outer radius
            kind = axs[-1]["name"].split("_")[-1]
            axs = [ax for ax in axs if ax["name"] != "radial3_" + kind
                   ][:2] + [{"name": "radial3_" + kind, "low": 0.,
                             "high": 2., "bins": 8}]
            kwargs["outer_radius"] = case["outer"]
        if not any(ax["name"].startswith("radial3_") for ax in axs):
            kwargs.pop("outer_radius", None)
        yield dict(case, axes=axs, kwargs=kwargs)


def near(case):
    for position in c26.all_positions(case):
        for r in c26.rules(case):
            assume(not r.near(position))


def modules():
    _rat.install()
    _plots.install()
    from echidna.output import plot_root
    plot_root.raw_input = lambda *_: ""
    _rat.FILES.clear()


def command(case, folder):
    """ Configuration, save path and cuts. """
    with open("cnfg.yml", "w") as out:
        yaml.safe_dump({"parameters": dict(
            (ax["name"], {"low": ax["low"], "high": ax["high"],
                          "bins": ax["bins"]}) for ax in case["axes"])}, out)
    argv = ["-c", "cnfg.yml"]
    where = "."
    if case["save"]:
        where = folder.cwd + "/out" if case["save"] == "abs" \
            else case["save"]
        argv += ["-s", where]
    if case["bipo"] is not None:
        argv += ["--bipo" if case["bipo"] else "--no-bipo"]
    if "fv_radius" in case["kwargs"]:
        argv += ["-v", case["kwargs"]["fv_radius"]]
    if "outer_radius" in case["kwargs"]:
        argv += ["-o", case["kwargs"]["outer_radius"]]
    return where, argv


def filled(rec, case, contents_, path, name):
    """ The stored spectrum is the one of these files. """
    from echidna.output import store
    one = dict(case, files=contents_)
    data = numpy.zeros([ax["bins"] for ax in case["axes"]])
    number = c26.model(one, data)
    entries = sum(len(c) for c in contents_)
    rec.hit(0 < number < entries)
    spec = store.load(path)
    order = [ax["name"] for ax in case["axes"]]
    found = list(spec.get_config().get_pars())
    rec.check(sorted(found) == sorted(order), "%s has dimensions %s", path,
              found)
    for ax in case["axes"]:
        par = spec.get_config().get_par(ax["name"])
        rec.check((par.get_low(), par.get_high(), par.get_bins())
                  == (ax["low"], ax["high"], ax["bins"]),
                  "%s: %s has the wrong range", path, ax["name"])
    expect_close(rec, spec.get_data(), data.transpose(
        [order.index(n) for n in found]), path + ": contents", 1e-12, 0.)
    rec.check(spec._raw_events == number, "%s: %s raw events instead of %s",
              path, spec._raw_events, number)
    rec.check(spec.get_num_decays() == entries, "%s: %s decays, %s entries",
              path, spec.get_num_decays(), entries)
    rec.check(spec.get_name() == name, "%s: the name is %s", path,
              spec.get_name())
    rec.check(bool(spec.get_bipo()) == bool(case["bipo"]),
              "%s: the bipo flag is %s", path, spec.get_bipo())


def drawn(rec, case, paths):
    """ A projection is drawn for each dimension of the new spectra. """
    from echidna.output import store
    rest = [(numpy.linspace(h.axes[0][1], h.axes[0][2], h.axes[0][0] + 1),
             h.inside()) for h, _ in _plots.Recorder.drawn]
    for figure in sys.modules["matplotlib.pyplot"].figures:
        rest += [(h["edges"], h["contents"]) for axes in figure.axes
                 for h in axes.hists]
    for path in paths:
        spec = store.load(path)
        for ax in case["axes"]:
            edges = numpy.linspace(ax["low"], ax["high"], ax["bins"] + 1)
            values = spec.project(ax["name"])
            # (which one of them when several look the same does not matter)
            same = [i for i, h in enumerate(rest)
                    if len(h[0]) == len(edges)
                    and numpy.allclose(h[0], edges, 1e-9, 1e-9)
                    and numpy.allclose(h[1], values, 1e-12, 0.)]
            rec.check(same, "no projection of %s onto %s was drawn", path,
                      ax["name"])
            del rest[same[0]]
    rec.check(not rest, "%d more plots than dimensions", len(rest))


def dumping(case, rec, script, suffix):
    for one in variants(case):
        dumping_one(one, rec, script, suffix)


def dumping_one(case, rec, script, suffix):
    if "root" in script and not all(
            e["particles"] for f in case["files"] for e in f) and any(
                r.reco and not r.cut_reco for r in c26.rules(case)):
        return
    near(case)
    folder = Folder(rec)
    modules()
    where, argv = command(case, folder)
    count = len(case["files"]) if case["list"] else 1
    names = case["names"][:count]
    for name, content in zip(names, case["files"]):
        _rat.FILES[case["folder"] + name] = content
    if case["list"]:
        with open("list.txt", "w") as out:
            for name in names:
                out.write("%s%s%s\n" % (case["folder"], name, "\tother\t1"
                                        if case["extra"] else ""))
            if case["extra"]:
                out.write("\n")
        argv += ["-r", "list.txt"]
    else:
        argv += ["-f", case["folder"] + names[0]]
    rec.label("list" if case["list"] else "file", "bipo %s" % case["bipo"])
    outputs = ["%s/%s.hdf5" % (where, name) for name in names]
    folder.run(script, argv, outputs)
    for name, content, path in zip(names, case["files"], outputs):
        filled(rec, case, [content], path, name + suffix)
    drawn(rec, case, outputs)


@prop.facet(fills("ntuple"), quick=120, rule="some events of a file are "
            "filled and some are not")
def ntuples(case, rec):
    """ dump_spectra_ntuple """
    dumping(case, rec, "dump_spectra_ntuple", "_mc")


@prop.facet(fills("root"), quick=120,
            rule="some events of a file are filled and some are not")
def ratfiles(case, rec):
    """ dump_spectra_root """
    dumping(case, rec, "dump_spectra_root", "")


@prop.facet(fills("ntuple"), quick=120, rule="some events are filled and "
            "some are not")
def directories(case, rec):
    """ multi_ntuple_spectrum """
    for one in variants(case):
        directory(one, rec)


def directory(case, rec):
    near(case)
    folder = Folder(rec)
    modules()
    where, argv = command(case, folder)
    data = {"": "Te130_mc", "data/": "U238_reco/",
            "/data/run.1/": folder.cwd + "/sub/Bi210_mix"}[case["folder"]]
    os.makedirs(data)
    for name, content in zip(case["names"], case["files"]):
        with open(os.path.join(data, name), "w"):
            pass
        # however the path is put together
        for slash in (data, data + "/", data.rstrip("/") + "/"):
            _rat.FILES[slash + name] = content
            _rat.FILES[slash + "/" + name] = content
    name = os.path.basename(data.rstrip("/"))
    if case["extra"]:
        name = "Po212_mc"
        argv += ["-n", name]
    rec.label("%d files" % len(case["files"]))
    out = "%s/%s.hdf5" % (where, name)
    folder.run("multi_ntuple_spectrum", argv + ["-p", data], [out])
    filled(rec, case, case["files"], out, name)
    drawn(rec, case, [out])


# ----------------------------------------------------------------- utilities
@prop.facet(st.fixed_dictionaries({
    "shape": st.lists(st.integers(1, 4), min_size=1, max_size=3),
    "values": st.lists(positives(0.01, 100.), min_size=64, max_size=64),
    "lin": st.sampled_from([None, 0.01, 0.5, 0.1]),
    "frac": st.sampled_from([1.1, 0.9, 2.]),
    "scale": st.sampled_from(["", "log", "log10"])}), quick=200,
    rule="several dimensions")
def array_errors(case, rec):
    """ Errors of arrays, along a linear or logarithmic axis. """
    from echidna import utilities
    n = int(numpy.prod(case["shape"]))
    rec.hit(len(case["shape"]) > 1)
    values = numpy.array(case["values"][:n]).reshape(case["shape"])
    before = values.copy()
    kwargs = {case["scale"]: True} if case["scale"] else {}
    kwargs["lin_err"] = case["lin"]
    if case["lin"] is None:
        kwargs["frac_err"] = case["frac"]
    found = utilities.get_array_errors(values, **kwargs)
    to, back = {"": (lambda x: x, lambda x: x), "log": (math.log, math.exp),
                "log10": (math.log10, lambda x: 10. ** x)}[case["scale"]]
    expected = [back(to(v) + case["lin"] if case["lin"] is not None
                     else to(v) * case["frac"]) - v for v in before.ravel()]
    expect_close(rec, found, numpy.reshape(expected, case["shape"]),
                 "errors", 1e-9, 1e-9)
    rec.check(numpy.array_equal(values, before), "the array was changed")
    raises(rec, ValueError, lambda: utilities.get_array_errors(
        values, lin_err=None, frac_err=None), "no errors given")
