"""Reference behaviour of ababe.stru.io (analysed, never run)."""
from collections import Counter, OrderedDict
from operator import itemgetter
import numpy as np
import yaml
from ababe.stru.element import Specie


def ordered(names):
    """species present, ascending atomic number, without the vacancy"""
    d = OrderedDict(sorted(Counter(names).items(), key=lambda x: Specie(x[0]).Z))
    if 'G' in d:
        del d['G']
    return d


class YamlOutput:
    def __init__(self, gcell, zoom=1):
        self.lattice = gcell.lattice
        self.positions = gcell.positions
        self.numbers = gcell.numbers
        self.atoms_name_list = [Specie.to_name(x) for x in gcell.numbers]
        self.zoom = zoom

    def get_string(self):
        comment = ''.join('{}{}'.format(k, v) for k, v in ordered(self.atoms_name_list).items())
        return yaml.dump({'comment': comment,
                          'lattice': self.lattice.tolist(),
                          'positions': self.positions.tolist(),
                          'numbers': self.numbers.tolist(),
                          'zoom': self.zoom})

    def write(self, filename):
        with open(filename, "w") as f:
            f.write(self.get_string())

    def __repr__(self):
        return self.get_string()

    def __str__(self):
        return self.get_string()


class VaspPOSCAR:
    def __init__(self, gcell, zoom=1):
        self.lattice = gcell.lattice
        self.positions = gcell.positions
        self.numbers = gcell.numbers
        self.atoms_name_list = [Specie.to_name(x) for x in gcell.numbers]
        self.zoom = zoom

    def get_string(self, direct=True):
        present = ordered(self.atoms_name_list)
        lines = [''.join('{}{}'.format(k, v) for k, v in present.items()), str(self.zoom)]
        for row in self.lattice:
            lines.append(" ".join("{:10.6f}".format(p) for p in row))
        lines.append(" ".join(str(x) for x in present.keys()))
        lines.append(" ".join(str(x) for x in present.values()))
        if direct:
            coords = self.positions
            lines.append("direct")
        else:
            coords = np.matmul(self.positions, self.lattice)
            lines.append("cartesian")
        for n, pos, name in sorted(zip(self.numbers, coords, self.atoms_name_list), key=itemgetter(0)):
            if n != 0:
                lines.append(" ".join("{:10.6f}".format(p) for p in pos) + " " + name)
        return "\n".join(lines) + "\n"

    def __repr__(self):
        return self.get_string()

    def __str__(self):
        return self.get_string()

    def write(self, filename):
        with open(filename, "w") as f:
            f.write(self.get_string())
