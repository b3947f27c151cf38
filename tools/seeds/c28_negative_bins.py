PROPERTY = 'C28'
NEEDS = 'a spectrum with negative contents (of a difference)'
BREAKS = 'its projection is drawn without them'
EDITS = [
    ('echidna/output/plot_root.py',
     """    for index, datum in enumerate(data):
        plot.SetBinContent(index + 1, datum)
    if graphical:
        can = ROOT.TCanvas()
        can.cd()
        plot.Draw()""",
     """    for index, datum in enumerate(data):
        if datum > 0.:
            plot.SetBinContent(index + 1, datum)
    if graphical:
        can = ROOT.TCanvas()
        can.cd()
        plot.Draw()"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from unittest import mock
sys.modules["ROOT"].TH1D = mock.MagicMock()
from echidna.output import plot_root
plot_root.plot_projection(make([("energy_mc", 0., 3., 3)], [1., -2., 3.]),
                          "energy_mc", graphical=False)
calls = [call[0] for call in
         plot_root.ROOT.TH1D().SetBinContent.call_args_list]
check((2, -2.) in calls, "contents: %s" % calls)
'''
