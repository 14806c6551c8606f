"""What each generating command writes, as a function of its options (parsed, never executed)."""
import os
import random
import click
import numpy as np
import yaml
from ababe.io.io import GeneralIO
from ababe.stru.element import Specie
from ababe.stru.scaffold import GeneralCell
from ababe.stru.sogen import OccupyGenerator
from ababe.stru.grid import SuperLatticeGenerator, SuperLatticeGenerator2D
from ababe.stru.restriction import MinDistanceRestriction
from ababe.stru.io import VaspPOSCAR, YamlOutput


def _out(text):
    os.makedirs(os.path.join(os.getcwd(), text))


def _target(element, numbers):
    return int(numbers[1]) if element is None else Specie(element).Z


def _keep(c, trs, primitive_only):
    for name, d in trs:
        if not MinDistanceRestriction((Specie(name), d)).is_satisfied(c):
            return False
    return c.is_primitive() if primitive_only else True


def _form(c, refined):
    return c.get_refined_pcell() if refined else c


def suplat(input, comment, volumn, ld, outmode):
    cell = GeneralIO.from_file(click.format_filename(input))
    if not cell.is_primitive():
        raise ValueError
    gen = SuperLatticeGenerator2D if ld else SuperLatticeGenerator
    _out('{}'.format(comment or 'default'))
    for sl in gen.hnfs_from_n(cell, volumn):
        GeneralIO(sl.to_general_cell().get_shaped_cell()).write_file('x.{}'.format(outmode))


def ocumaker(input, comment, element, speckle, nspeckle, trs, refined, outmode):
    cell = GeneralIO.from_file(click.format_filename(input))
    z = _target(element, cell.numbers)
    n = np.where(cell.numbers == z)[0].size - 1 if nspeckle is None else nspeckle
    new = Specie('G') if speckle is None else Specie(speckle)
    _out('{}'.format(comment or cell.comment))
    for level in OccupyGenerator(cell).all_speckle_gen_of_ele(n, Specie.from_num(z), new):
        for c in level:
            if _keep(c, trs, True):
                GeneralIO(_form(c, refined)).write_file('x.{}'.format(outmode))


def ocubiter(input, comment, element, speckle, nspeckle, trs, refined, outmode, mpr):
    cell = GeneralIO.from_file(click.format_filename(input))
    z = _target(element, cell.numbers)
    n = np.where(cell.numbers == z)[0].size // 2 + 1 if nspeckle is None else nspeckle
    new = Specie('G') if speckle is None else Specie(speckle)
    _out('{}'.format(comment or cell.comment))
    for c in OccupyGenerator(cell).gen_nodup_of_ele(Specie.from_num(z), n, new):
        if _keep(c, trs, mpr):
            GeneralIO(_form(c, refined)).write_file('x.{}'.format(outmode))


def _settings_cell(s, zoom):
    k = zoom if zoom is not None else (s['zoom'] if 'zoom' in s else 1)
    return GeneralCell(np.array(s['lattice']) * k, np.array(s['positions']), np.array(s['numbers']))


def _settings_comment(s, comment):
    return comment if comment is not None else (s['comment'] if 'comment' in s else 'default')


def ocutenter(input, comment, element, speckle, nspeckle, zoom, trs, refined, outmode, mpr):
    s = yaml.safe_load(open(click.format_filename(input), 'r'))
    cell = _settings_cell(s, zoom)
    z = _target(element, np.array(s['numbers']))
    _out('{}'.format(_settings_comment(s, comment)))
    kind = VaspPOSCAR if outmode == 'vasp' else YamlOutput
    g = OccupyGenerator(cell).gen_nodup_trinary_alloy(Specie(speckle[0]), nspeckle[0], Specie(speckle[1]),
                                                      nspeckle[1], Specie.from_num(z))
    for c in g:
        if _keep(c, trs, mpr):
            kind(_form(c, refined), 1).write('x')


def ocumakert(input, comment, element, speckle, zoom, trs, refined, outmode):
    s = yaml.safe_load(open(click.format_filename(input), 'r'))
    cell = _settings_cell(s, zoom)
    z = _target(element, np.array(s['numbers']))
    n = np.where(np.array(s['numbers']) == z)[0].size
    _out('{}'.format(_settings_comment(s, comment)))
    kind = VaspPOSCAR if outmode == 'vasp' else YamlOutput
    for n1 in range(1, n - 1):
        for n2 in range(1, n - n1):
            g = OccupyGenerator(cell).gen_nodup_trinary_alloy(Specie(speckle[0]), n1, Specie(speckle[1]), n2,
                                                              Specie.from_num(z))
            for c in g:
                if _keep(c, trs, True):
                    kind(_form(c, refined), 1).write('x')
