"""Reference behaviour of ababe.stru.grid (analysed, never run)."""
import itertools
import numpy as np
import spglib
from functools import reduce
from ababe.stru.scaffold import GeneralCell
from ababe.stru.grid import SuperLatticeCell


class SuperLatticeCell:
    def __init__(self, unit_gcell, lat_coeff):
        self.ub = unit_gcell.lattice
        self.upositions = unit_gcell.positions
        self.unumbers = unit_gcell.numbers
        self.lat_coeff = lat_coeff
        self.unit_cell = unit_gcell.spg_cell
        self.sym = spglib.get_symmetry(unit_gcell.spg_cell, symprec=1e-3)

    def __eq__(self, other):
        inv = np.linalg.inv
        for r in self.sym['rotations']:
            h = np.around(np.matmul(np.matmul(other.lat_coeff, inv(r.T)), inv(self.lat_coeff)), decimals=3)
            if np.all(np.mod(h, 1) == 0):
                return True
        return False

    def to_general_cell(self):
        H = self.lat_coeff
        images = self.get_frac_from_H(H)
        base = np.matmul(self.upositions, np.linalg.inv(H))
        pos = np.concatenate([p + images for p in base], axis=0)
        return GeneralCell(np.matmul(H, self.ub), pos, np.repeat(self.unumbers, H.diagonal().prod()))

    @staticmethod
    def get_frac_from_H(h_mat):
        m = np.amax(h_mat)
        ints = np.array([i for i in itertools.product(range(m*3), repeat=3)])
        frac = np.matmul(ints, np.linalg.inv(h_mat))
        inside = np.all((frac >= -0.00001) & (frac < 0.99999), axis=1)
        return frac[np.where(inside)[0]]


def factors(n):
    """the divisors of n, each once"""
    return set(reduce(list.__add__, ([i, n//i] for i in range(1, int(n**0.5) + 1) if n % i == 0)))


class SuperLatticeGenerator:
    @classmethod
    def hnfs_from_n_dups(cls, unit_gcell, n):
        return [SuperLatticeCell(unit_gcell, np.array([[a, b, d], [0, c, e], [0, 0, n//a//c]]))
                for a in factors(n)
                for c in factors(n//a)
                for b in range(c)
                for d in range(n//a//c)
                for e in range(n//a//c)]

    @classmethod
    def hnfs_from_n(cls, unit_gcell, n):
        kept = []
        for hnf in cls.hnfs_from_n_dups(unit_gcell, n):
            if hnf not in kept:
                kept.append(hnf)
        return kept


class SuperLatticeGenerator2D:
    @classmethod
    def hnfs_from_n_dups(cls, unit_gcell, n):
        return [SuperLatticeCell(unit_gcell, np.array([[a, b, 0], [0, n//a, 0], [0, 0, 1]]))
                for a in factors(n)
                for b in range(n//a)]

    @classmethod
    def hnfs_from_n(cls, unit_gcell, n):
        kept = []
        for hnf in cls.hnfs_from_n_dups(unit_gcell, n):
            if hnf not in kept:
                kept.append(hnf)
        return kept
