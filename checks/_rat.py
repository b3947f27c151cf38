""" Stand-ins for ROOT chains and the RAT data structure, and the rules for
what is extracted from them (written from the documentation). """
import math
import random
import sys
import types

from hypothesis import strategies as st

AV = 5997.
NAMES = ["energy_mc", "energy_reco", "energy_truth", "radial_mc",
         "radial_reco", "radial3_mc", "radial3_reco", "zradial3_mc",
         "zradial3_reco"]
FILES = {}


class Missing(Exception):
    """ Something which is not in the event was asked for. """


class Position(object):
    def __init__(self, xyz):
        self._xyz = tuple(xyz)

    def __getitem__(self, index):
        return self._xyz[index]

    def __call__(self, index):
        return self._xyz[index]

    def __len__(self):
        return 3

    def __iter__(self):
        return iter(self._xyz)

    X = x = Px = lambda self: self._xyz[0]
    Y = y = Py = lambda self: self._xyz[1]
    Z = z = Pz = lambda self: self._xyz[2]

    def Mag2(self):
        return sum(v * v for v in self._xyz)

    def Mag(self):
        return math.sqrt(self.Mag2())


class Particle(object):
    def __init__(self, position):
        self._position = position

    def GetPosition(self):
        return Position(self._position)


class MC(object):
    def __init__(self, event):
        self._event = event

    def GetMCParticleCount(self):
        return len(self._event["particles"])

    def GetMCParticle(self, index):
        if not 0 <= index < len(self._event["particles"]):
            raise Missing("MC particle %s" % index)
        return Particle(self._event["particles"][index])

    def GetScintQuenchedEnergyDeposit(self):
        return self._event["quenched"]

    def GetScintEnergyDeposit(self):
        return self._event["deposit"]


class Vertex(object):
    def __init__(self, ev):
        self._ev = ev

    def ContainsEnergy(self):
        return self._ev["energy"] is not None

    def ValidEnergy(self):
        if self._ev["energy"] is None:
            raise Missing("fitted energy")
        return self._ev["energy_valid"]

    def GetEnergy(self):
        if self._ev["energy"] is None:
            raise Missing("fitted energy")
        return self._ev["energy"]

    def ContainsPosition(self):
        return self._ev["position"] is not None

    def ValidPosition(self):
        if self._ev["position"] is None:
            raise Missing("fitted position")
        return self._ev["position_valid"]

    def GetPosition(self):
        if self._ev["position"] is None:
            raise Missing("fitted position")
        return Position(self._ev["position"])


class EV(object):
    def __init__(self, ev):
        self._ev = ev

    def DefaultFitVertexExists(self):
        return self._ev["fitted"]

    def GetDefaultFitVertex(self):
        if not self._ev["fitted"]:
            raise Missing("fit vertex")
        return Vertex(self._ev)


class DS(object):
    def __init__(self, event):
        self._event = event

    def GetMC(self):
        return MC(self._event)

    def MCExists(self):
        return True

    def GetEVCount(self):
        return len(self._event["evs"])

    def GetEV(self, index):
        if not 0 <= index < len(self._event["evs"]):
            raise Missing("EV %s" % index)
        return EV(self._event["evs"][index])


class DSReader(object):
    def __init__(self, filename):
        self._events = FILES[filename]

    def GetEntryCount(self):
        return len(self._events)

    def GetEntry(self, index):
        return DS(self._events[index])


class Entry(object):
    """ An entry of an ntuple. """
    def __init__(self, values):
        for name, value in values.items():
            if name in ("mcPos", "pos"):
                for axis, number in zip("xyz", value):
                    setattr(self, name + axis, number)
            else:
                setattr(self, name, value)


class TChain(object):
    """ Yields itself, as the real one: the branches are attributes. """
    def __init__(self, name="", *_):
        self._tree, self._entries = name, []

    def Add(self, filename):
        if self._tree == "output":
            self._entries.extend(FILES[filename])
        return 1

    def GetEntries(self):
        return len(self._entries)

    GetEntriesFast = GetEntries

    def GetEntry(self, index):
        if not 0 <= index < len(self._entries):
            return 0
        self.__dict__.update(Entry(self._entries[index]).__dict__)
        return 1

    def LoadTree(self, index):
        return index if 0 <= index < len(self._entries) else -2

    def __iter__(self):
        for index in range(len(self._entries)):
            self.GetEntry(index)
            yield self


def install():
    root, rat = sys.modules["ROOT"], sys.modules["rat"]
    space = types.SimpleNamespace
    root.TChain = TChain
    root.RAT = rat.RAT = space(DU=space(DSReader=DSReader))
    rat.dsreader = space(DSReader=DSReader)


# --------------------------------------------------------------- generators
DIRECTIONS = [(0, 0, 1), (0, 0, -1), (3, 4, 0), (-4, 3, 0), (1, 2, 2),
              (2, -2, 1), (2, 1, -2), (2, 3, 6), (-6, 2, -3), (4, 4, -7),
              (0, -1, 0), (8, 9, -12)]
SIZES = [1, 3, 5, 7, 9, 17]


@st.composite
def positions(draw):
    """ Half of them with a whole-number radius. """
    if draw(st.booleans()):
        return [draw(st.floats(-7000., 7000.)) for _ in range(3)]
    direction = draw(st.sampled_from(DIRECTIONS))
    size = math.sqrt(sum(v * v for v in direction))
    radius = draw(st.sampled_from([0, 1, 1000, 1500, 2000, 3000, 3500, 4000,
                                   5000, 5500, 5997, 6000, 7000]))
    scale = radius // int(size)
    return [float(v * scale) for v in direction]


def energies():
    return st.one_of(st.integers(0, 44).map(lambda n: n / 4.),
                     st.floats(0., 11.).map(lambda x: float("%.9g" % x)))


def radii(position):
    return math.sqrt(sum(v * v for v in position))


FV = st.one_of(st.none(), st.sampled_from(
    [1000, 1500., 3000., 3500., 3996., 4998., 5500., 5997., 6000., 1e4]))
OUTER = st.one_of(st.none(), st.sampled_from([6000., 5000, 8192., 4000.]))


@st.composite
def entries(draw, good=False):
    """ An ntuple entry, a good one has all values valid. """
    entry = {"mcPos": draw(positions()), "pos": draw(positions()),
            "scintFit": draw(st.sampled_from([1, 1, 1, 0, -1])),
            "energy": draw(st.one_of(energies(), energies(),
                                     st.sampled_from([0., -1., -99999.]))),
            "mc": draw(st.sampled_from([1, 1, 1, 0])),
            "mcEdep": draw(energies()), "mcEdepQuenched": draw(energies()),
            "evIndex": draw(st.sampled_from([0, 0, 0, 1, 2, -1]))}
    if good:
        entry.update(scintFit=1, mc=1, energy=max(entry["energy"], 0.125))
    return entry


@st.composite
def fitted(draw, always=False, good=False):
    """ A triggered event. """
    event = {"fitted": True if always else draw(
                st.sampled_from([True, True, True, False])),
            "energy": draw(st.one_of(st.none(), energies(), energies())),
            "energy_valid": draw(st.sampled_from([True, True, False])),
            "position": draw(positions()),
            "position_valid": draw(st.sampled_from([True, True, False]))}
    if good:
        event.update(fitted=True, energy_valid=True, position_valid=True,
                     energy=event["energy"] or 0.125)
    return event


@st.composite
def events(draw, always_fitted=False, max_evs=3, good=False):
    """ An entry of a RAT file. """
    event = {"particles": draw(st.lists(positions(), min_size=int(good),
                                        max_size=2)),
             "deposit": draw(energies()), "quenched": draw(energies()),
             "evs": draw(st.lists(fitted(always_fitted, good),
                                  max_size=max_evs))}
    return event


def bulk(seed, kind, good=False, always_fitted=False, max_evs=3, count=6):
    """ Further events of every kind, so that few cases are trivial. """
    draw = random.Random(seed)

    def place():
        return [float(v * draw.choice([0, 1, 100, 300, 500, 700]))
                for v in draw.choice(DIRECTIONS)]

    def energy():
        return draw.randint(1, 44) / 4.

    result = []
    for _ in range(count):
        if kind == "ntuple":
            result.append({
                "mcPos": place(), "pos": place(),
                "scintFit": 1 if good else draw.choice([1, 1, 1, 0]),
                "energy": energy() if good or draw.random() < .8 else -1.,
                "mc": 1 if good else draw.choice([1, 1, 1, 0]),
                "mcEdep": energy(), "mcEdepQuenched": energy(),
                "evIndex": draw.choice([0, 0, 0, 1, 2, -1])})
            continue
        evs = []
        for _ in range(draw.randint(0, max_evs)):
            sure = good or draw.random() < .5
            evs.append({
                "fitted": always_fitted or sure or draw.random() < .7,
                "energy": energy() if sure or draw.random() < .7 else None,
                "energy_valid": sure or draw.random() < .7,
                "position": place(),
                "position_valid": sure or draw.random() < .7})
        result.append({
            "particles": [place() for _ in range(
                draw.randint(1 if good else 0, 2))],
            "deposit": energy(), "quenched": energy(), "evs": evs})
    return result


# -------------------------------------------------------------------- rules
class Rule(object):
    """ What should be extracted. """
    def __init__(self, name, fv_radius=None, external=False,
                 outer_radius=None, other=False):
        self.name = name
        self.dim, self.kind = name.rsplit("_", 1)
        self.fv, self.external = fv_radius, external
        self.outer = AV if outer_radius is None else outer_radius
        self.reco = self.kind == "reco"
        # which position is cut on
        self.cut_reco = self.reco != other or (external and not self.reco)

    def possible(self):
        return not (self.external and (
            (not self.reco and self.dim != "energy") or
            (self.reco and not self.cut_reco)))

    def from_position(self, position):
        r = radii(position)
        if self.dim == "radial":
            return r
        value = (r / self.outer) ** 3
        if self.dim == "zradial3" and position[2] < 0.:
            return -value
        return value

    def inside(self, position):
        return radii(position) < self.fv

    def near(self, position):
        """ Too near to the boundary to say without being at it. """
        if self.fv is None:
            return False
        r2 = sum(v * v for v in position)
        return r2 != self.fv ** 2 and abs(radii(position) - self.fv) < 1e-6

    # ntuple
    def ntuple(self, entry):
        """ The value, or None if the event is to be left out. """
        if self.reco:
            if entry["scintFit"] != 1:
                return None
            if self.dim == "energy" and not entry["energy"] > 0:
                return None
        else:
            if entry["mc"] != 1:
                return None
            if self.external and entry["scintFit"] != 1:
                return None
        if self.fv is not None:
            if self.cut_reco:
                if entry["scintFit"] != 1 or not self.inside(entry["pos"]):
                    return None
            elif not self.inside(entry["mcPos"]):
                return None
        if self.dim == "energy":
            return entry[{"mc": "mcEdepQuenched", "truth": "mcEdep",
                          "reco": "energy"}[self.kind]]
        return self.from_position(entry["pos" if self.reco else "mcPos"])

    # RAT files
    def root(self, event, number=None):
        """ The value, None, or ValueError when there is no telling. """
        if self.reco:
            ev = event["evs"][number]
            if not ev["fitted"]:
                return None
            if self.dim == "energy":
                if ev["energy"] is None or not ev["energy_valid"]:
                    return None
            elif not ev["position_valid"]:
                return None
            if self.fv is not None and not self.inside(
                    ev["position"] if self.cut_reco
                    else event["particles"][0]):
                return None
            if self.dim == "energy":
                return ev["energy"]
            return self.from_position(ev["position"])
        if self.external and not event["evs"]:
            return None
        if not event["particles"]:
            return None
        if self.fv is not None:
            if self.cut_reco:
                if not event["evs"]:
                    return None
                if len(event["evs"]) != 1:
                    return ValueError
                if not self.inside(event["evs"][0]["position"]):
                    return None
            elif not self.inside(event["particles"][0]):
                return None
        if self.dim == "energy":
            return event["quenched" if self.kind == "mc" else "deposit"]
        return self.from_position(event["particles"][0])
