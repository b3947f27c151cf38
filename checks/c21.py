""" C21 - configurations survive being written to YAML files. """
import os

from hypothesis import strategies as st

from checks._configs import *  # noqa
from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C21")
NAMES = st.sampled_from([None, "", "mine", "mine.yml", "v1.2.yml", "v1.2"])
GIVEN = st.sampled_from([None, "", "given"])
WHERE = st.sampled_from(["cwd", "dir", "dotted"])


def folder(rec, where):
    """ The path to give, and the directory it means. """
    base = rec.tmp()
    if where == "cwd":
        os.chdir(base)
        return None, base
    path = os.path.join(base, "a.b" if where == "dotted" else "sub")
    os.makedirs(path)
    return path + "/", path


def file_of(given, config_name, default, end=""):
    if given is None:
        return default + ".yml"
    if given == "":
        return config_name + end + ".yml"
    return given if ".yml" in given else given + ".yml"


def older(case, base, *names):
    """ What was in the files before is replaced. """
    if case["older"]:
        for name in names:
            with open(os.path.join(base, name), "w") as out:
                out.write("old: [1, 2\n" * 500)


def only(rec, base, wanted):
    found = sorted(os.path.join(d, f)[len(base) + 1:]
                   for d, _, fs in os.walk(base) for f in fs)
    rec.check(found == sorted(set(wanted)), "wrote the files %s, expected %s",
              found, sorted(set(wanted)))


def stem(path):
    return os.path.basename(path)[:-4]


@prop.facet(st.fixed_dictionaries({
    "axes": axes(max_dims=4, max_cells=10 ** 6, max_bins=500),
    "file": NAMES, "given": GIVEN, "where": WHERE,
    "older": st.booleans()}), quick=300,
    rule="several dimensions")
def spectra(case, rec):
    """ Dimensions of a spectrum. """
    from echidna.core.config import SpectraConfig
    path, base = folder(rec, case["where"])
    made = make_config(case["axes"], "the_config")
    rec.hit(len(case["axes"]) > 1)
    kwargs = {} if path is None else {"path": path}
    if case["file"] is not None:
        kwargs["filename"] = case["file"]
    name = file_of(case["file"], "the_config", "spectra_config")
    older(case, base, name)
    made.dump_to_file(**kwargs)
    only(rec, base, [name])
    args = [] if case["given"] is None else [case["given"]]
    loaded = SpectraConfig.load_from_file(os.path.join(base, name), *args)
    compare_spectra_config(rec, loaded, case["axes"], "loaded")
    # (the documentation has another default than the code)
    rec.check(loaded.get_name() in (
        ("config", "spectra_config") if case["given"] is None else
        (case["given"] or stem(name),)), "named %r", loaded.get_name())


@prop.facet(st.fixed_dictionaries({
    "rates": rate_pars(min_pars=1), "file": NAMES, "given": GIVEN,
    "where": WHERE, "basic": st.booleans(), "older": st.booleans()}),
    quick=300,
    rule="several rates")
def rates(case, rec):
    """ Rates of a spectrum. """
    from echidna.core.config import SpectraFitConfig
    path, base = folder(rec, case["where"])
    made = spectra_fit_config(case["rates"], "the_config")
    rec.hit(len(case["rates"]) > 1)
    kwargs = {} if path is None else {"path": path}
    if case["file"] is not None:
        kwargs["spectral_fname"] = case["file"]
    if case["basic"]:
        kwargs["basic"] = True
    name = file_of(case["file"], "the_config", "spectral_fit_config",
                   "_spectral")
    older(case, base, name)
    made.dump_to_file(**kwargs)
    only(rec, base, [name])
    args = [] if case["given"] is None else [case["given"]]
    loaded = SpectraFitConfig.load_from_file(os.path.join(base, name), "B8",
                                             *args)
    compare_rates(rec, loaded, case["rates"], "loaded",
                  results=not case["basic"])
    rec.check(loaded.get_name() == (
        "spectral_fit_config" if case["given"] is None else
        case["given"] or stem(name)), "named %r", loaded.get_name())


@prop.facet(st.fixed_dictionaries({
    "pars": global_pars(), "rates": rate_pars(), "global_file": NAMES,
    "spectral_file": st.sampled_from([None, "", "other", "other.yml",
                                      "other.v2"]),
    "older": st.booleans(), "given": GIVEN, "where": WHERE, "basic": st.booleans(),
    "alone": st.integers(0, 3).map(lambda n: n == 0)}), quick=400,
    rule="several parameters")
def global_fit(case, rec):
    """ Global and spectral parameters, in two files. """
    from echidna.core.config import GlobalFitConfig
    path, base = folder(rec, case["where"])
    made = global_config(case["pars"], case["rates"], "the_config")
    rec.hit(len(case["pars"]) + len(case["rates"]) > 1)
    kwargs = {} if path is None else {"path": path}
    if case["global_file"] is not None:
        kwargs["global_fname"] = case["global_file"]
    if case["spectral_file"] is not None:
        kwargs["spectral_fname"] = case["spectral_file"]
    if case["basic"]:
        kwargs["basic"] = True
    first = file_of(case["global_file"], "the_config", "global_fit_config",
                    "_global")
    second = file_of(case["spectral_file"], "the_config",
                     "spectral_fit_config", "_spectral")
    older(case, base, first, second)
    made.dump_to_file(**kwargs)
    only(rec, base, [first, second])
    kwargs = {} if case["given"] is None else {"name": case["given"]}
    if not case["alone"]:
        kwargs["sf_filename"] = os.path.join(base, second)
    loaded = GlobalFitConfig.load_from_file(os.path.join(base, first),
                                            **kwargs)
    dims = [p["dim"] for p in case["pars"]]
    compare_global(rec, loaded, case["pars"], [] if case["alone"] else
                   case["rates"], "loaded",
                   ordered=dims == sorted(dims, key=dims.index),
                   results=not case["basic"])
    rec.check(loaded.get_name() == (
        "global_fit_config" if case["given"] is None else
        case["given"] or stem(first)), "named %r", loaded.get_name())


@prop.facet(st.fixed_dictionaries({
    "axes": st.lists(axes(max_dims=3), min_size=2, max_size=2),
    "rates": st.lists(rate_pars(min_pars=1), min_size=2, max_size=2),
    "pars": st.lists(global_pars(), min_size=2, max_size=2)}), quick=60,
    rule="the dimensions differ")
def rewritten(case, rec):
    """ What is in a file now counts, not what has been read from it. """
    from echidna.core.config import (GlobalFitConfig, SpectraConfig,
                                     SpectraFitConfig)
    base = rec.tmp()
    rec.hit(case["axes"][0] != case["axes"][1])
    files = [os.path.join(base, name) for name in
             ("spectra.yml", "rates.yml", "globals.yml")]
    kept = []
    for axs, rates_, pars in zip(case["axes"], case["rates"], case["pars"]):
        make_config(axs).dump_to_file(path=base + "/", filename="spectra")
        spectra_fit_config(rates_).dump_to_file(path=base + "/",
                                                spectral_fname="rates")
        global_config(pars, rates_).dump_to_file(
            path=base + "/", global_fname="globals", spectral_fname="rates")
        kept.append([
            SpectraConfig.load_from_file(files[0]),
            SpectraFitConfig.load_from_file(files[1], "B8"),
            GlobalFitConfig.load_from_file(files[2], sf_filename=files[1])])
    for number, (one, two, three) in enumerate(kept):
        what = "file written %d" % number
        compare_spectra_config(rec, one, case["axes"][number], what)
        compare_rates(rec, two, case["rates"][number], what)
        compare_global(rec, three, case["pars"][number],
                       case["rates"][number], what, ordered=False)


KEYS = st.one_of(st.sampled_from(["low", "yes", "1", "null", "a: b", "#x",
                                  "energy_mc", "x y", "~", "1e5", "-", ""]),
                 st.text("abz_:#'\" -", max_size=6))
LEAVES = st.one_of(st.none(), st.booleans(), st.integers(-10**12, 10**12),
                   NUMBERS, KEYS)
TREES = st.recursive(LEAVES, lambda inner: st.one_of(
    st.lists(inner, max_size=3),
    st.lists(st.tuples(KEYS, inner), max_size=4,
             unique_by=lambda pair: pair[0]).map(
        lambda pairs: {"order": [list(p) for p in pairs]})), max_leaves=12)


def tree_of(value):
    """ Cases are JSON, where the order of keys is not part of the value. """
    if isinstance(value, dict):
        return collections.OrderedDict((k, tree_of(v))
                                       for k, v in value["order"])
    if isinstance(value, list):
        return [tree_of(v) for v in value]
    return value


def same(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        # other dictionaries keep no order in Python 2
        return isinstance(a, collections.OrderedDict) and \
            isinstance(b, collections.OrderedDict) and \
            list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and \
            len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b
    return type(a) is type(b) and a == b


@prop.facet(st.fixed_dictionaries({
    "tree": TREES, "indent": st.sampled_from([None, 2, 8]),
    "numpy": st.booleans()}), quick=600, rule="a mapping of several keys")
def yaml_files(case, rec):
    """ Any tree of ordered dictionaries, lists and scalars. """
    from echidna.util import yaml_loader
    wanted = collections.OrderedDict(top=tree_of(case["tree"]))
    given = wanted
    if case["numpy"]:
        def convert(value):
            if isinstance(value, dict):
                return collections.OrderedDict((k, convert(v))
                                               for k, v in value.items())
            if isinstance(value, list):
                return [convert(v) for v in value]
            return numpy.float64(value) if isinstance(value, float) else value
        given = convert(wanted)
    path = os.path.join(rec.tmp(), "tree.yml")
    kwargs = {"indent": case["indent"]} if case["indent"] else {}
    rec.hit(isinstance(case["tree"], dict) and
            len(case["tree"]["order"]) > 1)
    with open(path, "w") as stream:
        yaml_loader.ordered_dump(given, stream=stream, **kwargs)
    with open(path) as stream:
        found = yaml_loader.ordered_load(stream)
    rec.check(same(found, wanted), "loaded %s, expected %s", found, wanted)


@st.composite
def handwritten(draw):
    """ The text of a file as people write it. """
    number = st.sampled_from([["10.", 10.], ["0", 0.], ["-1.5", -1.5],
                              ["2.50", 2.5], ["7", 7.], ["1.e+2", 100.],
                              ["0.001", 0.001]])
    entries = []
    for name in draw(st.lists(st.sampled_from(RATES), unique=True, min_size=1,
                              max_size=3)):
        entries.append([name, {
            "low": draw(number), "high": draw(number), "prior": draw(number),
            "sigma": draw(st.sampled_from([["5.", 5.], ["null", None],
                                           ["0.1", 0.1], ["~", None]])),
            "bins": draw(st.sampled_from([["100", 100], ["3", 3]]))}])
    return {"entries": entries, "indent": draw(st.sampled_from([2, 4, 8])),
            "flow": draw(st.booleans()), "comment": draw(st.booleans()),
            "merge": draw(st.booleans()), "order": draw(st.permutations(["low", "high", "prior", "sigma",
                                           "bins"]))}


@prop.facet(handwritten(), quick=200, rule="several rates")
def by_hand(case, rec):
    """ Files in the style of echidna/config. """
    from echidna.core.config import GlobalFitConfig, SpectraFitConfig
    pad = " " * case["indent"]

    def text(top, middle):
        lines = ["# written by hand"] * case["comment"] + [top + ":"]
        depth = 1
        if middle:
            lines.append(pad + middle + ":")
            depth = 2
        base = case["entries"][0][1]
        for number, (name, values) in enumerate(case["entries"]):
            name = name if not middle else KIND[name]
            anchor, items = "", [(k, values[k][0]) for k in case["order"]]
            if case["merge"] and number == 0:
                anchor = " &first"
            elif case["merge"]:     # only what differs from the first
                items = [("<<", "*first")] + [
                    (k, v) for k, v in items if v != base[k][0]]
            if case["flow"]:
                lines.append(pad * depth + name + ":" + anchor + " {" +
                             ", ".join(k + ": " + v for k, v in items) + "}")
            else:
                lines.append(pad * depth + name + ":" + anchor)
                lines.extend(pad * (depth + 1) + k + ": " + v +
                             "  # why" * case["comment"] for k, v in items)
        return "\n".join(lines) + "\n"

    KIND = dict(zip([n for n, _ in case["entries"]],
                    ["scale", "shift", "resolution"]))
    rec.hit(len(case["entries"]) > 1)
    first = os.path.join(rec.tmp(), "globals.yml")
    second = os.path.join(rec.tmp(), "rates.yml")
    with open(first, "w") as out:
        out.write(text("global_fit_parameters", "energy_mc"))
    with open(second, "w") as out:
        out.write(text("spectral_fit_parameters", None))

    def wanted(kind, dim, name):
        values = dict(case["entries"])[name]
        made = dict((k, v[1]) for k, v in values.items())
        made.update(name=dim + "_" + kind if dim else name, kind=kind,
                    dim=dim, spacing="linear")
        return made

    rates_ = [wanted("rate", None, n) for n, _ in case["entries"]]
    pars = [wanted(KIND[n], "energy_mc", n) for n, _ in case["entries"]]
    compare_rates(rec, SpectraFitConfig.load_from_file(second, "B8"), rates_,
                  "loaded")
    compare_global(rec, GlobalFitConfig.load_from_file(
        first, sf_filename=second), pars, rates_, "loaded", ordered=True)


@prop.facet(histories(), quick=60, rule="something was added")
def in_turn(case, rec):
    """ The same config written again and again, to the same files. """
    from echidna.core.config import (GlobalFitConfig, SpectraConfig,
                                     SpectraFitConfig)
    base = rec.tmp()
    rec.hit(any(kind != "reach" for kind, _ in case["steps"]))
    files = [os.path.join(base, name) for name in
             ("spectra.yml", "rates.yml", "globals.yml", "fitted.yml")]
    for made, axs, rates_, pars, what in history(case):
        made[0].dump_to_file(path=base + "/", filename="spectra")
        made[1].dump_to_file(path=base + "/", spectral_fname="rates")
        made[2].dump_to_file(path=base + "/", global_fname="globals",
                             spectral_fname="fitted")
        what = "written " + what
        compare_spectra_config(
            rec, SpectraConfig.load_from_file(files[0]), axs, what)
        compare_rates(rec, SpectraFitConfig.load_from_file(files[1], "B8"),
                      rates_, what)
        compare_global(rec, GlobalFitConfig.load_from_file(
            files[2], sf_filename=files[3]), pars, rates_, what)
    only(rec, base, [os.path.basename(f) for f in files])
