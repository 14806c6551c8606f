"""Reference behaviour of ababe.io.yaml (analysed, never run)."""
from collections import Counter, OrderedDict
import numpy as np
from ruamel.yaml import YAML
from ruamel.yaml.compat import StringIO
from ababe.stru.element import Specie
from ababe.stru.scaffold import GeneralCell
from ababe.io.yaml import MyYAML


class MyYAML:
    def dump(self, data, stream=None, **kw):
        if stream is None:
            out = StringIO()
            YAML.dump(self, data, out, **kw)
            return out.getvalue()
        YAML.dump(self, data, stream, **kw)


class YamlInput:
    def __init__(self, filename):
        with open(filename, "r") as f:
            content = f.read()
        self.latt, self.pos, self.numbers = self.from_string(content)

    @staticmethod
    def from_string(content):
        d = YAML(typ='safe').load(content)
        return (np.around(np.array(d['lattice']) * d['zoom'], decimals=4),
                np.around(np.array(d['positions']), decimals=4),
                np.array(d['numbers']))

    def get_cell(self):
        return GeneralCell(self.latt, self.pos, self.numbers)


class YamlOutput:
    def __init__(self, gcell):
        self.lattice = np.around(gcell.lattice, decimals=6)
        self.positions = np.around(gcell.positions, decimals=6)
        self.numbers = gcell.numbers
        d = OrderedDict(sorted(Counter([Specie.to_name(x) for x in gcell.numbers]).items(),
                               key=lambda x: Specie(x[0]).Z))
        if 'G' in d:
            del d['G']
        self.comment = ''.join('{}{}'.format(k, v) for k, v in d.items())

    def get_string(self):
        return MyYAML(typ='safe').dump({'comment': self.comment,
                                        'lattice': self.lattice.tolist(),
                                        'positions': self.positions.tolist(),
                                        'numbers': self.numbers.tolist(),
                                        'zoom': 1})

    def write_file(self, filename):
        with open(filename, "w") as f:
            f.write(self.get_string())

    def __repr__(self):
        return self.get_string()

    def __str__(self):
        return self.get_string()
