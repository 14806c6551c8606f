"""Reference behaviour of ababe.stru.restriction (analysed, never run)."""
from scipy.spatial.distance import pdist
import numpy as np
import re


class MinDistanceRestriction:
    def __init__(self, tr):
        self.target_ele = tr[0]
        self.target_dist = tr[1]

    def is_satisfied(self, gcell):
        big = gcell.supercell(np.array([[2, 0, 0], [0, 2, 0], [0, 0, 2]]))
        cart = big.get_cartesian(ele=self.target_ele)
        if len(cart) == 0:
            return True
        return np.min(pdist(cart)) > self.target_dist


class SpaceGroupRestriction:
    def __init__(self, l_sp):
        self.l_sp = l_sp

    def is_satisfied(self, gcell):
        return int(re.findall('\\d+', gcell.get_spacegroup())[-1]) in self.l_sp
