"""Reference behaviour of ababe.io.io (analysed, never run)."""
import os
from fnmatch import fnmatch
from ababe.io.vasp import VaspInput, VaspOutput
from ababe.io.yaml import YamlInput, YamlOutput


def fileformat(fname, fmt):
    base = os.path.basename(fname)
    fmt = "" if fmt is None else fmt.lower()
    if fmt == "yaml" or fnmatch(base.lower(), "*.yaml*"):
        return 'yaml'
    if fmt == "vasp" or fnmatch(base.lower(), "*.vasp") or fnmatch(base, "*POSCAR*"):
        return 'vasp'
    raise ValueError('Unknown file format: {!r}'.format(fmt or fname))


class GeneralIO:
    def __init__(self, gcell):
        self.gcell = gcell

    def write_file(self, fname=None, fmt=None):
        fname = fname or ""
        kind = fileformat(fname, fmt)
        if kind == 'yaml':
            writer = YamlOutput(self.gcell)
        else:
            writer = VaspOutput(self.gcell)
        if fname:
            writer.write_file(fname)
        else:
            print(writer.__str__())

    @classmethod
    def from_file(cls, fname, fmt=None):
        fname = fname or ""
        kind = fileformat(fname, fmt)
        if kind == 'yaml':
            return YamlInput(fname).get_cell()
        return VaspInput(fname).get_cell()
