"""Which functions each property depends on, compared with their reference descriptions."""
SG = 'ababe.stru.sogen:'
SC = 'ababe.stru.scaffold:'
S2 = 'ababe.stru.scaffold2d:'
BB = 'ababe.stru.buckyball:'
GR = 'ababe.stru.grid:'
EL = 'ababe.stru.element:'
ST = 'ababe.stru.site:'
CL = 'ababe.stru.clarifier:'
RE = 'ababe.stru.restriction:'
SI = 'ababe.stru.io:'
IO = 'ababe.io.io:'
VA = 'ababe.io.vasp:'
YA = 'ababe.io.yaml:'
DS = 'ababe.mlearn.dsutils:'
AR = 'ababe.mlearn.arrange:'
AA = 'ababe.mlearn.arrangeAgent:'
MC = 'ababe.mlearn.mcts:'


def q(prefix, cls, names):
    return [prefix + (cls + '.' if cls else '') + n for n in names.split()]


OG = 'OccupyGenerator'
GC = 'GeneralCell'
MO = 'ModifiedCell'

SYMPERM = q(SC, GC, '__init__ get_symmetry get_symmetry_permutation')
NODUP = q(SG, OG, '__init__ gen_2nodup_gen') + q(SG, '', 'numbers2id') + q(SC, GC, 'id')
DUP = q(SG, OG, 'gen_dup_unitary gen_dup gen_dup_of_ele')
ADD1 = q(SG, OG, 'gen_add_one_speckle_unitary gen_add_one_speckle gen_add_one_speckle_of_ele')
CELL = q(SC, GC, '__init__ numbers@setter')

SPEC_OBLIGATIONS = {
    'C01': NODUP + SYMPERM
    + q(SG, OG, 'gen_nodup_unitary gen_nodup gen_nodup_of_ele gen_nodup_trinary_alloy')
    + q(SG, '', 'gen_nodup_cstru get_permutation_cell get_new_id_seq')
    + q(SC, GC, 'numbers@setter') + q(SC, 'CStru', 'get_cell get_lattice get_positions get_atoms')
    + q(BB, 'Structure', 'to_nodup_generator _get_atom_seq_identifier get_symmetry_permutation'),
    'C02': DUP + q(SG, OG, '__init__ gen_nodup_trinary_alloy') + q(SC, GC, '__init__ get_wyckoffs')
    + q(SC, 'SitesGrid', 'gen_speckle') + q(SC, 'CStru', 'gen_speckle')
    + q(BB, 'Structure', 'gen_speckle to_gen') + q(EL, 'Specie', 'Z __init__'),
    'C03': ADD1 + NODUP + q(SG, OG, 'all_speckle_gen_unitary all_speckle_gen all_speckle_gen_of_ele')
    + q(SC, GC, '__init__ get_speckle_num get_wyckoffs numbers@setter')
    + q(BB, 'Structure', 'add_one_speckle_generator help_add_one_speckle all_speckle_gen get_speckle_num '
        'to_nodup_generator to_gen _get_atom_seq_identifier get_symmetry_permutation'),
    'C04': q(SG, OG, '__init__ is_equivalent') + q(SG, '', 'is_stru_equal') + SYMPERM + q(SC, GC, 'numbers@setter')
    + q(SC, 'CStru', 'get_cell get_lattice get_positions get_atoms'),
    'C05': SYMPERM + q(SG, '', 'get_permutation_cell get_new_id_seq')
    + q(SC, 'CStru', 'get_cell get_lattice get_positions get_atoms')
    + q(BB, 'Structure', '_get_new_id_seq'),
    'C06': q(SC, GC, '__init__ numbers@setter get_speckle_num comment id get_spacegroup get_symmetry get_wyckoffs '
             'is_primitive get_refined_cell get_refined_pcell'),
    'C07': q(SC, GC, '__init__ supercell get_frac_from_mat')
    + q(GR, 'SuperLatticeCell', '__init__ to_general_cell get_frac_from_H'),
    'C08': q(GR, 'SuperLatticeGenerator', 'hnfs_from_n_dups') + q(GR, 'SuperLatticeGenerator2D', 'hnfs_from_n_dups')
    + q(GR, 'SuperLatticeCell', '__init__'),
    'C09': q(GR, 'SuperLatticeCell', '__init__ __eq__') + q(GR, 'SuperLatticeGenerator', 'hnfs_from_n')
    + q(GR, 'SuperLatticeGenerator2D', 'hnfs_from_n') + q(SC, GC, 'get_symmetry'),
    'C10': q(SC, GC, 'get_cartesian') + q(SC, MO, 'get_cartesian_from_frac get_frac_from_cart perturb translate_sites '
                                          'positions numbers __init__') + q(SC, GC, '__init__')
    + q(ST, 'Site', '__init__ position@setter'),
    'C11': q(SC, MO, '__init__ __iter__ __len__ __setitem__ __getitem__ __delitem__ __eq__ positions numbers append '
             'insert pop extend from_gcell to_gcell append_site remove_site remove_sites append_sites copy')
    + q(ST, 'Site', '__init__ __eq__ position@setter element@setter') + q(SC, GC, '__init__'),
    'C12': q(SC, MO, 'get_points_incell_insphere in_euclidean_discance remove_sites remove_site __iter__ __getitem__ '
             '__delitem__ __len__ positions get_cartesian_from_frac get_frac_from_cart')
    + q(CL, 'AtomRemoveClarifier', '__init__ clarify') + q(CL, 'VerboseAtomRemoveClarifier', '__init__ clarify'),
    'C13': q(RE, 'MinDistanceRestriction', '__init__ is_satisfied') + q(RE, 'SpaceGroupRestriction', '__init__ is_satisfied')
    + q(SG, '', 'is_speckle_disjunct') + q(SC, GC, 'supercell get_frac_from_mat get_cartesian get_spacegroup __init__'),
    'C14': q(VA, 'VaspOutput', '__init__ get_string write_file __repr__ __str__')
    + q(SI, 'VaspPOSCAR', '__init__ get_string __repr__ __str__ write') + q(SC, GC, 'get_cartesian __init__')
    + q(EL, 'Specie', 'from_num to_name name Z __init__'),
    'C15': q(VA, 'VaspInput', '__init__ from_string get_cell') + q(SC, GC, '__init__') + q(EL, 'Specie', '__init__ Z'),
    'C16': q(YA, 'YamlInput', '__init__ from_string get_cell')
    + q(YA, 'YamlOutput', '__init__ get_string write_file __repr__ __str__') + q(YA, 'MyYAML', 'dump')
    + q(SI, 'YamlOutput', '__init__ get_string write __repr__ __str__') + q(SC, GC, '__init__ comment'),
    'C17': q(IO, 'GeneralIO', '__init__ write_file from_file'),
    'C18': q(SC, GC, 'is_primitive get_refined_pcell get_shaped_cell') + q(RE, 'MinDistanceRestriction', '__init__ is_satisfied'),
    'C19': q(IO, 'GeneralIO', '__init__ write_file from_file') + q(SI, 'VaspPOSCAR', '__init__ get_string write')
    + q(SI, 'YamlOutput', '__init__ get_string write'),
    'C20': q(VA, 'VaspOutput', 'write_file') + q(YA, 'YamlOutput', 'write_file') + q(YA, 'MyYAML', 'dump')
    + q(SI, 'VaspPOSCAR', 'write') + q(SI, 'YamlOutput', 'write') + q(IO, 'GeneralIO', 'write_file'),
    'C21': [],
    'C22': q(SC, 'SitesGrid', 'deepCopy') + q(SC, MO, 'copy from_gcell to_gcell') + DUP + ADD1,
    'C23': [],
    'C24': q(EL, 'Specie', '__init__ Z name from_num to_name __eq__ __ne__') + q(EL, 'GhostSpecie', '__init__')
    + q(ST, 'Site', '__init__ element@setter __eq__'),
    'C25': q(DS, 'RandomPopSet', '__init__ __len__ __iter__ __contains__ add push discard get_random random_pop'),
    'C26': q(AR, '', 'random_walk_arrange') + q(AA, 'Boron2dArrangeProblem', '__init__ get_start_position is_goal get_neighbors')
    + q(AA, 'FCC3dArrangeProblem', '__init__ get_start_position is_goal get_neighbors')
    + q(SC, 'CStru', 'get_neighbors get_midpoint get_id_matrix') + q(S2, 'CStru2d', 'get_neighbors get_midpoint')
    + q(DS, 'RandomPopSet', '__init__ __len__ __iter__ __contains__ add push discard get_random random_pop'),
    'C27': q(MC, 'TreeNode', '__init__ expand select update update_recursive get_value is_leaf is_root')
    + q(MC, 'MCTS', '__init__ _playout _evaluate_rollout get_move update_with_move'),
    'C28': q(SC, 'SitesGrid', '__init__ sea __getitem__ __setitem__ __eq__ deepCopy to_array from_array random_fill')
    + q(SC, 'CStru', '__init__ get_array __eq__ from_array get_cell get_gcell get_lattice get_positions get_atoms '
                  'get_midpoint get_id_matrix')
    + q(S2, 'SitesGrid2d', '__init__ sea __eq__ get_array from_array') + q(S2, 'CStru2d', '__init__ get_array get_midpoint'),
    'C29': q(BB, 'Structure', '__init__ get_symmetry_permutation to_nodup_generator _get_atom_seq_identifier get_symmetry '
             'get_spacegroup'),
    'C30': q(SC, GC, '__init__ numbers@setter get_spacegroup get_symmetry get_wyckoffs is_primitive get_refined_cell '
             'get_refined_pcell get_shaped_cell'),
    'C31': [],
}
