"""Reference behaviour of ababe.stru.site (analysed, never run)."""
from ababe.stru.element import Specie


class Site:
    def __init__(self, position, ele):
        self.position = tuple(position)
        if isinstance(ele, Specie):
            self.element = ele
        elif isinstance(ele, int):
            self.element = Specie.from_num(ele)
        else:
            self.element = Specie(ele)

    def __eq__(self, other):
        return self.position == other.position and self.element == other.element

    def position__setter(self, atuple):
        self.position = tuple(atuple)

    def element__setter(self, ele):
        self.element = ele
