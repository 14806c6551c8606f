"""Reference behaviour of ababe.stru.element (analysed, never run)."""
import os
import json
from ababe.stru.element import Specie, GhostSpecie

with open(os.path.join(os.path.dirname(__file__), "pt.json"), "rt") as f:
    _pt_db = json.load(f)


class Specie:
    def __init__(self, symbol):
        self.symbol = str(symbol)
        d = _pt_db[symbol]
        self.Z = d["Atomic no"]
        self.atom_mass = d["Atomic mass"]
        self.atom_radius = d["Atomic radius"]

    def Z(self):
        return self.Z

    def name(self):
        return self.symbol

    @staticmethod
    def from_num(an):
        if an == 0:
            return GhostSpecie()
        return Specie([k for k, v in _pt_db.items() if v["Atomic no"] == an][0])

    @staticmethod
    def to_name(an):
        if an == 0:
            return "G"
        return [k for k, v in _pt_db.items() if v["Atomic no"] == an][0]

    def __eq__(self, other):
        return isinstance(other, Specie) and self.Z == other.Z

    def __ne__(self, other):
        return not (isinstance(other, Specie) and self.Z == other.Z)


class GhostSpecie:
    def __init__(self):
        self.symbol = "G"
        self.Z = 0
        self.atom_mass = 0
        self.atom_radius = 0
