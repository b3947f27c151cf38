PROPERTY = 'C25'
NEEDS = 'an external background, without a fiducial volume, which was not reconstructed'
BREAKS = 'external events which were not reconstructed are accepted without a fiducial volume'
EDITS = [
    ('echidna/core/dsextract.py',
     """        if self._external:
            if entry.scintFit != 1:
                return False  # Reco failed
        if entry.mc == 1:
            if self._fv_radius:
                return self.fv_cut_ntuple(entry)
            # MC has associated trigger or vice versa and no fid v applied
            return True
        return False  # No associated trigger with mc or vice versa

    def get_value_ntuple(self, entry):
        '''Get energy value from an ntuple MC

        Args:
          entry (:class:`ROOT.TChain`): chain entry

        Returns:
          float: True quenched energy
        '''
        return entry.mcEdepQuenched
""",
     """        if self._external and self._fv_radius:
            if entry.scintFit != 1:
                return False  # Reco failed
        if entry.mc == 1:
            if self._fv_radius:
                return self.fv_cut_ntuple(entry)
            # MC has associated trigger or vice versa and no fid v applied
            return True
        return False  # No associated trigger with mc or vice versa

    def get_value_ntuple(self, entry):
        '''Get energy value from an ntuple MC

        Args:
          entry (:class:`ROOT.TChain`): chain entry

        Returns:
          float: True quenched energy
        '''
        return entry.mcEdepQuenched
"""),
]
DEMO = '''
import types
sys.modules["rat"] = types.ModuleType("rat")
from echidna.core import dsextract


class Entry(object):
    scintFit = 0
    mc = 1
    mcEdepQuenched = 1.5
    mcPosx = mcPosy = mcPosz = 7000.


extractor = dsextract.function_factory("energy_mc", external=True)
check(not extractor.get_valid_ntuple(Entry()),
      "an external event which was not reconstructed is valid")
'''
