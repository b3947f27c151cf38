PROPERTY = 'C27'
NEEDS = 'a directory with several ntuples, and an outer radius'
BREAKS = 'the outer radius is used for the first of the files only'
EDITS = [
    ('echidna/scripts/multi_ntuple_spectrum.py',
     """                    file_path, spectrum=spec, bipo=bipo, fv_radius=fv_radius,
                    outer_radius=outer_radius)""",
     """                    file_path, spectrum=spec, bipo=bipo, fv_radius=fv_radius)"""),
]
DEMO = '''
from unittest import mock
import demo_rat
demo_rat.install()
sys.modules["ROOT"].TH1D = mock.MagicMock()
sys.modules["ROOT"].TCanvas = mock.MagicMock()
from echidna.output import plot_root, store
plot_root.raw_input = lambda *_: ""
script = os.path.join(os.getcwd(), "echidna/scripts/multi_ntuple_spectrum.py")
os.mkdir(scratch + "/Te130_mc")
for number in range(3):
    name = "/Te130_mc/%d.root" % number
    open(scratch + name, "w").close()
    for path in (scratch + name, scratch + name.replace("mc/", "mc//")):
        demo_rat.FILES[path] = [{
            "mcPos": [0., 0., 2000.], "pos": [0., 0., 2000.], "scintFit": 1,
            "energy": 1., "mc": 1, "mcEdep": 1., "mcEdepQuenched": 1.,
            "evIndex": 0}]
with open(scratch + "/config.yml", "w") as out:
    out.write("parameters:\\n  radial3_mc: {low: 0., high: 2., bins: 4}\\n")
demo_loader.run_script(script, [
    "-c", scratch + "/config.yml", "-s", scratch, "-o", "2500.",
    "-n", "all_mc", "-p", scratch + "/Te130_mc"])
data = store.load(scratch + "/all_mc.hdf5").get_data()
check(numpy.array_equal(data, [0., 3., 0., 0.]), "contents %s" % data)
'''
