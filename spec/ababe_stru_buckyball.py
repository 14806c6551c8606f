"""Reference behaviour of ababe.stru.buckyball (analysed, never run)."""
import os
import json
import xxhash
import numpy as np
import spglib
from itertools import combinations
from collections import Counter
from ababe.stru.element import Specie

with open(os.path.join(os.path.dirname(__file__), "buckyball.json"), "rt") as f:
    _buckyball = json.load(f)

_perm_table = np.load(os.path.join(os.path.dirname(__file__), "bucky_permu_table.npy"))


def key(numbers):
    return xxhash.xxh64(numbers).intdigest()


class Structure:
    def __init__(self, numbers):
        self._lattice = np.array(_buckyball["lattice"])
        numbers = np.array(numbers)
        pos = np.array(_buckyball["positions"])
        self._positions = pos[self._get_new_id_seq(pos, numbers)]
        self._atom_numbers = numbers
        self._spg_cell = (self._lattice, self._positions, self._atom_numbers)
        self._carbon = Specie("C")
        self._sym_perm = list(_perm_table)

    def get_spacegroup(self):
        return spglib.get_spacegroup(self._spg_cell, symprec=1e-4)

    def get_speckle_num(self, sp):
        return Counter(self._atom_numbers)[sp.Z]

    def get_symmetry(self):
        return spglib.get_symmetry(self._spg_cell, symprec=1e-4)

    def get_symmetry_permutation(self):
        return self._sym_perm

    @staticmethod
    def _get_new_id_seq(pos, numbers):
        red = np.vectorize(lambda x: round((x % 1), 3))(np.around(pos, decimals=5))
        return np.lexsort((red[:, 2], red[:, 1], red[:, 0]))

    def get_name(self):
        return self._atom_numbers.tostring()

    def to_gen(self):
        yield self._atom_numbers

    @staticmethod
    def gen_speckle(sp, noa):
        for chosen in combinations(range(60), noa):
            numbers = [6] * 60
            for i in chosen:
                numbers[i] = sp.Z
            yield np.array(numbers)

    @staticmethod
    def help_add_one_speckle(l, sp):
        for i, old in enumerate(l):
            if old != sp.Z:
                new = list(l)
                new[i] = sp.Z
                yield new

    def add_one_speckle_generator(self, gen, sp):
        seen = set()
        for atoms in gen:
            for i, old in enumerate(atoms):
                if old != sp.Z:
                    new = atoms.copy()
                    new[i] = sp.Z
                    k = key(new)
                    if k not in seen:
                        yield new
                        seen.add(k)

    @staticmethod
    def _get_atom_seq_identifier(numbers):
        return key(numbers)

    def to_nodup_generator(self, dup_gen):
        seen = set()
        for atoms in dup_gen:
            if key(atoms) not in seen:
                yield atoms
                for p in self.get_symmetry_permutation():
                    seen.add(key(atoms[p]))

    @staticmethod
    def all_speckle_gen(bucky_stru, n_max, sp):
        from itertools import tee
        out, gen = tee(bucky_stru.to_gen(), 2)
        yield out
        for i in range(bucky_stru.get_speckle_num(sp), n_max):
            out, gen = tee(bucky_stru.to_nodup_generator(bucky_stru.add_one_speckle_generator(gen, sp)), 2)
            yield out
