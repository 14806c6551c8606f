"""Reference behaviour of ababe.stru.scaffold2d (analysed, never run)."""
import numpy as np
from scipy.spatial import cKDTree
from ababe.stru.element import Specie, GhostSpecie


class SitesGrid2d:
    def __init__(self, sites):
        self._sites = sites
        self._width = len(sites)
        self._length = len(sites[0])

    @classmethod
    def sea(cls, width, length, sp=GhostSpecie()):
        return cls([[sp for _ in range(length)] for _ in range(width)])

    def __eq__(self, other):
        if other is None:
            return False
        return self._sites == other._sites

    def get_array(self):
        return np.vectorize(lambda sp: sp.Z)(np.array(self._sites))

    @classmethod
    def from_array(cls, arr):
        return cls(np.vectorize(lambda n: Specie.from_num(n))(arr).tolist())


class CStru2d:
    def __init__(self, m, sg):
        self._matrix = m
        self.width = sg.width
        self.length = sg.length
        self._sites_grid = sg

    def get_array(self):
        return self._sites_grid.get_array()

    def get_midpoint(self):
        return (self.width // 2, self.length // 2)

    def get_neighbors(self, pos, delta):
        a, b = np.array(self._matrix)

        def coor(p):
            x, y = p
            return tuple(a * x + b * y)
        table = {p: coor(p) for p in [(x, y) for x in range(self.width) for y in range(self.length)]}
        del table[pos]
        if not table:
            return set()
        sites = list(table.keys())
        near = cKDTree(list(table.values())).query_ball_point(coor(pos), delta)
        return set(sites[i] for i in near)
