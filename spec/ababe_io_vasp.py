"""Reference behaviour of ababe.io.vasp (analysed, never run)."""
from collections import Counter, OrderedDict
from operator import itemgetter
import numpy as np
from ababe.stru.element import Specie
from ababe.stru.scaffold import GeneralCell


def ordered(names):
    """species present, ascending atomic number, without the vacancy"""
    d = OrderedDict(sorted(Counter(names).items(), key=lambda x: Specie(x[0]).Z))
    if 'G' in d:
        del d['G']
    return d


class VaspInput:
    def __init__(self, filename):
        with open(filename, "r") as f:
            content = f.read()
        self.latt, self.pos, self.numbers = self.from_string(content)

    @staticmethod
    def from_string(content):
        lines = [x for x in content.split('\n') if x.rstrip()]
        scale = float(lines[1])
        given = np.around(np.array([[float(w) for w in line.split()] for line in lines[2:5]]), decimals=4)
        if scale < 0:
            lattice = given * (-scale / abs(np.linalg.det(given))) ** (1 / 3)
        else:
            lattice = given * scale
        numbers = []
        symbols = [Specie(s).Z for s in lines[5].split()]
        for i, n in enumerate([int(w) for w in lines[6].split()]):
            numbers += n * [symbols[i]]
        numbers = np.array(numbers)
        pos = np.array([[float(w) for w in line.split()[0:3]] for line in lines[8:8 + len(numbers)]])
        if lines[7].strip()[0] in 'cCkK':
            pos = np.matmul(pos, np.linalg.inv(given))
        return lattice, np.around(pos, decimals=4), numbers

    def get_cell(self):
        return GeneralCell(self.latt, self.pos, self.numbers)


class VaspOutput:
    def __init__(self, gcell, comment=None, zoom=1):
        self.lattice = gcell.lattice
        self.positions = gcell.positions
        self.numbers = gcell.numbers
        self.atoms_name_list = [Specie.to_name(x) for x in gcell.numbers]
        self.zoom = zoom
        self.comment = comment

    def get_string(self, direct=True):
        present = ordered(self.atoms_name_list)
        lines = [''.join('{}{}'.format(k, v) for k, v in present.items()), str(self.zoom)]
        for row in self.lattice:
            lines.append(" ".join("{:10.6f}".format(p) for p in row))
        lines.append(" ".join(str(x) for x in present.keys()))
        lines.append(" ".join(str(x) for x in present.values()))
        if direct:
            coords = self.positions
            lines.append("direct")
        else:
            coords = np.matmul(self.positions, self.lattice)
            lines.append("cartesian")
        for n, pos, name in sorted(zip(self.numbers, coords, self.atoms_name_list), key=itemgetter(0)):
            if n != 0:
                lines.append(" ".join("{:10.6f}".format(p) for p in pos) + " " + name)
        return "\n".join(lines) + "\n"

    def write_file(self, filename):
        with open(filename, "w") as f:
            f.write(self.get_string())

    def __repr__(self):
        return self.get_string()

    def __str__(self):
        return self.get_string()
