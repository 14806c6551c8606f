"""What each transforming command writes, as a function of its options (parsed, never executed)."""
import os
import click
import numpy as np
from ababe.io.io import GeneralIO
from ababe.stru.element import Specie
from ababe.stru.scaffold import ModifiedCell
from ababe.stru.clarifier import VerboseAtomRemoveClarifier


def _stem(input):
    return os.path.basename(click.format_filename(input)).split('.')[0]


def atclear(input, cenele, radius, ele, refined):
    cell = ModifiedCell.from_gcell(GeneralIO.from_file(click.format_filename(input)))
    c = VerboseAtomRemoveClarifier(Specie(cenele), radius, Specie(ele)).clarify(cell).to_gcell()
    GeneralIO(c.get_refined_pcell() if refined else c).write_file('{}_ACLR.vasp'.format(_stem(input)))


def perturb(input, radius):
    cell = ModifiedCell.from_gcell(GeneralIO.from_file(click.format_filename(input)))
    cell.perturb(radius)
    GeneralIO(cell.to_gcell()).write_file('{}_PURB.vasp'.format(_stem(input)))


def supcell(input, scale, outmode):
    cell = GeneralIO.from_file(click.format_filename(input))
    out = GeneralIO(cell.supercell(np.diag(np.array(scale))))
    if outmode == 'stdio':
        out.write_file(fname=None, fmt='vasp')
    else:
        out.write_file('{}_SUPC.{}'.format(_stem(input), outmode))


def pcell(input, outmode):
    cell = GeneralIO.from_file(click.format_filename(input))
    out = GeneralIO(cell.get_refined_pcell())
    if outmode == 'stdio':
        out.write_file(fname=None, fmt='vasp')
    else:
        out.write_file('{}_PRIMC.{}'.format(_stem(input), outmode))
