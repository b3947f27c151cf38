PROPERTY = 'C13'
NEEDS = 'pre-made spectra of two dimensions with a systematic of the same kind on each'
BREAKS = 'the directory of the second systematic is left out of the path'
EDITS = [
    ('echidna/core/parameter.py',
     """            if 'scale' not in dir_list[-idx:]:""",
     """            if 'scale' not in dir_list:"""),
]
DEMO = '''
from echidna.core.parameter import ScaleParameter
first = ScaleParameter("a_scale", 1., 0.1, 0.5, 1.5, 11, "energy_mc")
second = ScaleParameter("b_scale", 1., 0.1, 0.5, 1.5, 11, "radial_mc")
second.set_current_value(1.25)
directory, filename = second.get_pre_convolved(
    "hdf5/energy_mc/scale/radial_mc/smear/", "Te130_1.1xx.hdf5")
check(directory == "hdf5/energy_mc/scale/radial_mc/smear/scale/",
      "directory %s" % directory)
'''
