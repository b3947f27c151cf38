""" Stand-ins for ROOT histograms and matplotlib which remember what is
drawn. """
import sys

import numpy


class Null(object):
    """ Takes anything. """
    def __init__(self, *_, **__):
        pass

    def __call__(self, *_, **__):
        return Null()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Null()


class Recorder(Null):
    drawn = []

    def Draw(self, option=""):
        Recorder.drawn.append((self, option))


def position(axis, x):
    """ Bin of a value: 0 is the underflow, the last but one the last. """
    bins, low, high = axis
    if x < low:
        return 0
    if x >= high:
        return bins + 1
    return min(int((x - low) / (high - low) * bins), bins - 1) + 1


class TH1(Recorder):
    def __init__(self, name, title, bins, low, high):
        if not isinstance(bins, int):
            raise TypeError("the number of bins is %r" % (bins,))
        self.name, self.title = name, title
        self.axes = [(bins, float(low), float(high))]
        self.contents = numpy.zeros(bins + 2)

    def Fill(self, x, weight=1.):
        self.contents[position(self.axes[0], x)] += float(weight)

    def FindBin(self, x):
        return position(self.axes[0], x)

    def GetNbinsX(self):
        return self.axes[0][0]

    def GetBinCenter(self, index):
        bins, low, high = self.axes[0]
        return low + (index - 0.5) * (high - low) / bins

    def Scale(self, factor):
        self.contents *= factor

    def AddBinContent(self, index, value=1.):
        self.SetBinContent(index, self.contents[index] + value)

    def SetTitle(self, title):
        self.title = title

    def SetName(self, name):
        self.name = name

    def Clone(self, name=None):
        bins, low, high = self.axes[0]
        twin = type(self)(name or self.name, self.title, bins, low, high)
        twin.contents = self.contents.copy()
        return twin

    def SetBinContent(self, index, value):
        if 0 <= index < len(self.contents):
            self.contents[index] = float(value)

    def GetBinContent(self, index):
        return self.contents[index]

    def Add(self, other, factor=1.):
        if other.axes != self.axes:
            raise TypeError("histograms with different axes")
        self.contents += factor * other.contents
        return True

    def inside(self):
        return self.contents[1:-1]

    def outside(self):
        return self.contents[[0, -1]]


class TH2(Recorder):
    def __init__(self, name, title, xbins, xlow, xhigh, ybins, ylow, yhigh):
        if not isinstance(xbins, int) or not isinstance(ybins, int):
            raise TypeError("the numbers of bins are %r, %r" % (xbins, ybins))
        self.name, self.title = name, title
        self.axes = [(xbins, float(xlow), float(xhigh)),
                     (ybins, float(ylow), float(yhigh))]
        self.contents = numpy.zeros((xbins + 2, ybins + 2))

    def Fill(self, x, y, weight=1.):
        self.contents[position(self.axes[0], x),
                      position(self.axes[1], y)] += float(weight)

    def GetBinContent(self, x, y):
        return self.contents[x, y]

    def GetNbinsX(self):
        return self.axes[0][0]

    def GetNbinsY(self):
        return self.axes[1][0]

    def SetBinContent(self, x, y, value):
        # as ROOT: what is beyond the axes is ignored or in the overflow
        if 0 <= x < self.contents.shape[0] and \
                0 <= y < self.contents.shape[1]:
            self.contents[x, y] = float(value)

    def inside(self):
        return self.contents[1:-1, 1:-1]

    def outside(self):
        rest = self.contents.copy()
        rest[1:-1, 1:-1] = 0.
        return rest


class TGraph(Recorder):
    def __init__(self, n=0, x=(), y=()):
        self.x = [float(v) for v in list(x)[:n]]
        self.y = [float(v) for v in list(y)[:n]]
        if len(self.x) != n or len(self.y) != n:
            raise TypeError("not %d points: %s, %s" % (n, x, y))

    def SetPoint(self, index, x, y):
        while len(self.x) <= index:
            self.x.append(0.)
            self.y.append(0.)
        self.x[index], self.y[index] = float(x), float(y)


class TLegend(Null):
    entries = []

    def AddEntry(self, what, label="", option=""):
        TLegend.entries.append((what, label))


def said():
    return sys.modules["matplotlib.pyplot"].said


class Axes(Null):
    def __init__(self, figure):
        self.figure = figure
        self.hists, self.meshes, self.labels = [], [], {}
        self.bands = []

    def hist(self, x, bins=None, weights=None, **kwargs):
        x, weights = numpy.asarray(x), numpy.asarray(weights)
        if x.shape != weights.shape:
            raise ValueError("weights should have the same shape as x")
        found = numpy.histogram(x, bins, weights=weights)
        self.hists.append({"contents": found[0], "edges": found[1],
                           "label": kwargs.get("label"),
                           "color": kwargs.get("color"), "all": kwargs})
        return found

    def fill_between(self, x, y1, y2=0, **_):
        x, y1 = numpy.array(x), numpy.array(y1)
        self.bands.append([x, y1, y2 + 0. * y1])

    def pcolormesh(self, x, y, values, **kwargs):
        # as matplotlib 1.4: x and y are corners of the cells; if there are
        # as many as cells, the last row and column is left out
        x, y, values = [numpy.asarray(v) for v in (x, y, values)]
        if x.ndim == 1 and y.ndim == 1:
            x, y = numpy.meshgrid(x, y)
        if x.shape != y.shape or x.shape[0] - values.shape[0] not in (0, 1) \
                or x.shape[1] - values.shape[1] not in (0, 1):
            raise TypeError("incompatible shapes %s, %s, %s" % (
                x.shape, y.shape, values.shape))
        values = values[:x.shape[0] - 1, :x.shape[1] - 1]
        self.meshes.append({"x": x, "y": y, "values": values})
        return Null()

    def set_xlabel(self, label, **_):
        self.labels["x"] = label
        said().append(("x", label))

    def set_ylabel(self, label, **_):
        self.labels["y"] = label

    def set(self, **kwargs):
        for name, value in kwargs.items():
            getattr(self, "set_" + name)(value)

    def get_position(self):
        box = Null()
        box.x0 = box.y0 = box.width = box.height = 0.5
        return box


class Figure(Null):
    def __init__(self, num=None, *_, **__):
        self.num, self.axes = num, []

    def add_subplot(self, *_, **__):
        self.axes.append(Axes(self))
        return self.axes[-1]

    def add_axes(self, *_, **__):
        return self.add_subplot()

    def gca(self, **_):
        return self.axes[-1] if self.axes else self.add_subplot()

    def text(self, x, y, s, **_):
        said().append((float(y), s))


def install():
    root = sys.modules["ROOT"]
    root.TH1D = root.TH1F = TH1
    root.TH2D = root.TH2F = TH2
    root.TGraph, root.TLegend = TGraph, TLegend
    for name in ("TCanvas", "TStyle"):
        setattr(root, name, Null)
    root.TColor, root.gROOT = Null(), Null()
    root.kRed, root.kBlack, root.kGray = 632, 1, 920
    plt = sys.modules["matplotlib.pyplot"]
    plt.figures = []

    def figure(num=None, *_, **__):
        plt.figures.append(Figure(num))
        return plt.figures[-1]

    def gcf():
        return plt.figures[-1] if plt.figures else figure()

    def gca(**_):
        return gcf().gca()

    def subplot(*_, **__):
        return gcf().add_subplot()

    def subplots(rows=1, columns=1, num=None, **__):
        fig = figure(num)
        several = [[fig.add_subplot() for _ in range(columns)]
                   for _ in range(rows)]
        if rows == columns == 1:
            return fig, several[0][0]
        return fig, numpy.squeeze(numpy.array(several, dtype=object))
    plt.figure, plt.gcf, plt.gca = figure, gcf, gca
    plt.subplot, plt.subplots = subplot, subplots
    for name in ("legend", "show", "ylim", "xlim", "get_cmap", "savefig",
                 "title", "colorbar", "suptitle", "tight_layout", "close",
                 "yscale", "cm"):
        setattr(plt, name, Null())

    def on_axes(method):
        return lambda *args, **kwargs: getattr(gca(), method)(*args, **kwargs)
    for name, method in (("hist", "hist"), ("pcolormesh", "pcolormesh"),
                         ("fill_between", "fill_between"),
                         ("ylabel", "set_ylabel"), ("xlabel", "set_xlabel")):
        setattr(plt, name, on_axes(method))
    # labels of the axes drawn last, texts
    plt.said = []

    def add_text(x, y, s, **_):
        plt.said.append((float(y), s))
    plt.figtext = add_text

    class FixedLocator(Null):
        def tick_values(self, *_):
            return []
    sys.modules["matplotlib.ticker"].FixedLocator = FixedLocator
    sys.modules["matplotlib.colors"].BoundaryNorm = Null
    Recorder.drawn = []
    TLegend.entries = []
