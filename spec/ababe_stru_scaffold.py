"""Reference behaviour of ababe.stru.scaffold.  Read by the analyser, never imported or run."""
import numpy as np
import spglib
import xxhash
from itertools import combinations, product
from collections import Counter, OrderedDict
from scipy.spatial import cKDTree
from scipy.spatial.distance import euclidean
from ababe.stru.scaffold import SitesGrid, CStru, GeneralCell, ModifiedCell
from ababe.stru.element import Specie, GhostSpecie
from ababe.stru.site import Site


def site_order(pos):
    """canonical site order: coordinates reduced into the cell, by x, then y, then z"""
    red = np.around(np.around(pos, 3) % 1, 3)
    return np.lexsort((red[:, 2], red[:, 1], red[:, 0]))


class SitesGrid:
    def __init__(self, sites):
        self.sites = sites
        self.depth = len(sites)
        self.width = len(sites[0])
        self.length = len(sites[0][0])

    @classmethod
    def sea(cls, depth, width, length, sp=GhostSpecie()):
        return cls([[[sp for k in range(length)] for j in range(width)] for i in range(depth)])

    def __getitem__(self, pos):
        return self.sites[pos[0]][pos[1]][pos[2]]

    def __setitem__(self, pos, sp):
        self.sites[pos[0]][pos[1]][pos[2]] = sp

    def __eq__(self, other):
        if other is None:
            return False
        return self.sites == other.sites

    def deepCopy(self):
        return SitesGrid([[[sp for sp in row] for row in layer] for layer in self.sites])

    def to_array(self):
        return np.vectorize(lambda sp: sp.Z)(np.array(self.sites))

    @classmethod
    def from_array(cls, arr):
        return cls(np.vectorize(lambda n: Specie.from_num(n))(arr).tolist())

    @classmethod
    def random_fill(cls, bsp, size, sp):
        pick = np.random.randint(2, size=size)
        return cls.from_array(np.zeros(size, dtype=np.int) + bsp.Z + (sp.Z - bsp.Z) * pick)

    @classmethod
    def gen_speckle(cls, ssp, size, sp, noa):
        n = size[0] * size[1] * size[2]
        for chosen in combinations(range(n), noa):
            out = [ssp.Z for _ in range(n)]
            for i in chosen:
                out[i] = sp.Z
            yield cls.from_array(np.array(out, dtype=np.int).reshape(size))


class CStru:
    def __init__(self, m, sg):
        self.m = m
        self.sites_grid = sg
        self.depth = sg.depth
        self.width = sg.width
        self.length = sg.length

    def get_array(self):
        return self.sites_grid.to_array()

    def __eq__(self, other):
        if other is None:
            return False
        return other.m == self.m and other.sites_grid == self.sites_grid

    @classmethod
    def from_array(cls, m, arr):
        return cls(m, SitesGrid.from_array(arr))

    @classmethod
    def gen_speckle(cls, m, ssp, size, sp, noa):
        return (cls(m, g) for g in SitesGrid.gen_speckle(ssp, size, sp, noa))

    def get_cell(self):
        d, w, l = self.depth, self.width, self.length
        lat = np.array(self.m, dtype=np.float64).reshape((3, 3)) * np.array([d, w, l], dtype=np.int).reshape((3, 1))
        idx = np.array([[i, j, k] for i in range(d) for j in range(w) for k in range(l)])
        pos = idx * np.array([1 / d, 1 / w, 1 / l], dtype=np.float64).reshape((1, 3))
        num = np.array([i for i in self.sites_grid.to_array().flat])
        return (lat, pos, num)

    def get_gcell(self):
        c = self.get_cell()
        return GeneralCell(c[0], c[1], c[2])

    def get_lattice(self):
        return self.get_cell()[0]

    def get_positions(self):
        return self.get_cell()[1]

    def get_atoms(self):
        return self.get_cell()[2]

    @staticmethod
    def get_id_matrix(cell, d, w, l):
        return cell[2].reshape((d, w, l))

    def get_midpoint(self):
        return (self.depth // 2, self.width // 2, self.length // 2)

    def get_neighbors(self, pos, delta):
        def coor(p):
            m = np.array(self.m)
            return tuple(m[0] * p[0] + m[1] * p[1] + m[2] * p[2])
        where = {p: coor(p) for p in ((x, y, z) for x in range(self.depth)
                                      for y in range(self.width) for z in range(self.length))}
        del where[pos]
        if not where:
            return set()
        near = cKDTree(list(where.values())).query_ball_point(coor(pos), delta)
        sites = list(where.keys())
        return set(sites[i] for i in near)


class GeneralCell:
    def __init__(self, lattice, positions, numbers, symprec=1e-3):
        order = site_order(positions)
        self.lattice = lattice
        self.positions = positions[order]
        self.numbers = numbers[order]
        self.spg_cell = (lattice, positions[order], numbers[order])
        self.num_count = numbers.size
        self.symprec = symprec

    def numbers__setter(self, arr_numbers):
        self.numbers = arr_numbers
        self.spg_cell = (self.lattice, self.positions, arr_numbers)

    def get_speckle_num(self, sp):
        return Counter(self.numbers)[sp.Z]

    def comment(self):
        counts = Counter([Specie.to_name(x) for x in list(self.numbers)])
        d = OrderedDict(sorted(counts.items(), key=lambda x: Specie(x[0]).Z))
        if 'G' in d:
            del d['G']
        return ''.join('{}{}'.format(k, v) for k, v in d.items())

    def id(self):
        return xxhash.xxh64(self.numbers).intdigest()

    def get_spacegroup(self):
        return spglib.get_spacegroup(self.spg_cell, symprec=self.symprec)

    def get_symmetry(self):
        return spglib.get_symmetry(self.spg_cell, symprec=self.symprec)

    def get_symmetry_permutation(self):
        sym = spglib.get_symmetry(self.spg_cell, symprec=self.symprec)
        return [site_order(np.transpose(np.matmul(r, np.transpose(self.positions))) + t)
                for r, t in zip(sym['rotations'], sym['translations'])]

    def get_wyckoffs(self):
        return spglib.get_symmetry_dataset(self.spg_cell, symprec=self.symprec)['wyckoffs']

    def is_primitive(self):
        return spglib.find_primitive(self.spg_cell, symprec=self.symprec)[2].size == self.spg_cell[2].size

    def get_refined_cell(self):
        c = spglib.standardize_cell((self.lattice, self.positions, self.numbers), to_primitive=False,
                                    no_idealize=False, symprec=self.symprec)
        return self.__class__(c[0], c[1], c[2])

    def get_refined_pcell(self):
        c = spglib.standardize_cell((self.lattice, self.positions, self.numbers), to_primitive=True,
                                    no_idealize=False, symprec=self.symprec)
        return self.__class__(c[0], c[1], c[2])

    def get_shaped_cell(self):
        c = spglib.standardize_cell((self.lattice, self.positions, np.array(range(self.numbers.size))),
                                    to_primitive=True, no_idealize=False, symprec=self.symprec)
        return self.__class__(c[0], c[1], self.numbers[c[2]])

    def get_cartesian(self, ele=None):
        if ele is None:
            return np.matmul(self.positions, self.lattice)
        return np.matmul(self.positions[np.where(self.numbers == ele.Z)[0]], self.lattice)

    def supercell(self, scale_mat):
        shifts = self.get_frac_from_mat(scale_mat)
        base = np.matmul(self.positions, np.linalg.inv(scale_mat))
        pos = np.concatenate([p + shifts for p in base], axis=0)
        numbers = np.repeat(self.numbers, scale_mat.diagonal().prod())
        return self.__class__(np.matmul(scale_mat, self.lattice), pos, numbers)

    @staticmethod
    def get_frac_from_mat(scale_mat):
        m = np.amax(scale_mat)
        pts = np.array([i for i in product(range(m * 3), repeat=3)])
        frac = np.matmul(pts, np.linalg.inv(scale_mat))
        return frac[np.where(np.all((frac >= -0.00001) & (frac < 0.99999), axis=1))[0]]


class ModifiedCell:
    def __init__(self, lattice, positions=np.array([[0, 0, 0]]), numbers=np.array([0])):
        self.lattice = lattice
        self._sites = [Site(p, n) for p, n in zip(positions.tolist(), numbers.tolist())]

    def __iter__(self):
        return self._sites.__iter__()

    def __len__(self):
        return len(self._sites)

    def __setitem__(self, index, site):
        self._sites[index] = site

    def __getitem__(self, index):
        return self._sites[index]

    def __delitem__(self, index):
        self._sites.__delitem__(index)

    def __eq__(self, other):
        return bool(len(self) == len(other) and np.allclose(self.lattice, other.lattice)
                    and np.allclose(self.positions, other.positions)
                    and np.allclose(self.numbers, other.numbers))

    def positions(self):
        return np.array([s.position for s in self._sites])

    def numbers(self):
        return np.array([s.element.Z for s in self._sites])

    def append(self, site):
        self._sites.append(site)

    def insert(self, index, site):
        self._sites.insert(index, site)

    def pop(self, index=-1):
        return self._sites.pop(index)

    def extend(self, sites):
        self._sites.extend(sites)

    @classmethod
    def from_gcell(cls, gcell):
        return cls(gcell.lattice, gcell.positions, gcell.numbers)

    def to_gcell(self):
        return GeneralCell(self.lattice, np.array([s.position for s in self._sites]),
                           np.array([s.element.Z for s in self._sites]))

    def get_points_incell_insphere(self, center, r, ele=None):
        if ele is None:
            return {i: s for i, s in enumerate(self._sites)
                    if self.in_euclidean_discance(s.position, center, r)}
        return {i: s for i, s in enumerate(self._sites)
                if self.in_euclidean_discance(s.position, center, r) and s.element == ele}

    def get_cartesian_from_frac(self, frac_coor):
        return np.matmul(frac_coor, self.lattice)

    def get_frac_from_cart(self, cart_coor):
        return np.matmul(cart_coor, np.linalg.inv(self.lattice))

    def perturb(self, distance=0.2):
        def rand_vec():
            v = np.random.randn(3)
            n = np.linalg.norm(v)
            return v / n * distance if n != 0 else rand_vec()
        for i in range(len(self._sites)):
            self.translate_sites(i, rand_vec())

    def translate_sites(self, idx, vector):
        site = self._sites[idx]
        cart = np.matmul(np.array(site.position), self.lattice) + vector
        site.position = tuple(np.matmul(cart, np.linalg.inv(self.lattice)))

    def in_euclidean_discance(self, pos, center, r):
        images = pos + np.array([i for i in product([-1, 0, 1], repeat=3)])
        return any(euclidean(np.matmul(p, self.lattice), np.matmul(center, self.lattice)) < r for p in images)

    def append_site(self, site):
        self._sites.append(site)
        return self

    def remove_site(self, index=-1):
        self._sites.pop(index)
        return self

    def remove_sites(self, indexs):
        drop = set(indexs)
        self._sites = [s for i, s in enumerate(self._sites) if i not in drop]
        return self

    def append_sites(self, sites):
        self._sites.extend(sites)
        return self

    def copy(self):
        from copy import deepcopy
        return deepcopy(self)
