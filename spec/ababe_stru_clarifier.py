"""Reference behaviour of ababe.stru.clarifier (analysed, never run)."""
import numpy as np
from ababe.stru.scaffold import ModifiedCell


class AtomRemoveClarifier:
    def __init__(self, centers, r, element=None):
        self.centers = np.array(centers)
        self.element = element
        self.r = r

    def clarify(self, modcell):
        if not isinstance(modcell, ModifiedCell):
            raise ValueError('Please input a ModifiedCell')
        for center in self.centers:
            found = modcell.get_points_incell_insphere(center, self.r, self.element)
            modcell.remove_sites(list(found.keys()))
        return modcell


class VerboseAtomRemoveClarifier:
    def __init__(self, etobesub, r, element=None):
        self.etobesub = etobesub
        self.element = element
        self.r = r

    def clarify(self, modcell):
        if not isinstance(modcell, ModifiedCell):
            raise ValueError('Please input a ModifiedCell')
        for site in modcell:
            if site.element == self.etobesub:
                found = modcell.get_points_incell_insphere(site.position, self.r, self.element)
                modcell.remove_sites(list(found.keys()))
        return modcell
