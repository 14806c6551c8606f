"""Writes /verif/properties.jsonl (the property texts live here, one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "De-duplication keeps exactly the first structure of every symmetry orbit",
  "Whatever stream of candidate structures is de-duplicated (occupation generators, grid structures, buckyballs), a candidate is emitted, unchanged and in stream order, exactly when no candidate emitted before it is carried onto it by a symmetry operation of the parent structure. No candidate is dropped for any other reason, no symmetry operation is left out, and two de-duplications never influence each other.",
  ["inputs", "histories"], "every parent structure, every symmetry group and every stream of candidates of any length",
  "Tests compare a handful of emitted counts for three small parents; a filter that forgets an orbit, skips an operation or confuses two structures for other parents, species or stream lengths gives the same counts there.",
  ["ababe/stru/sogen.py", "ababe/stru/buckyball.py", "ababe/stru/scaffold.py"],
  [("orbit bookkeeping of the occupation generator", "ababe/stru/sogen.py: OccupyGenerator.gen_2nodup_gen, _update_isoset, numbers2id; ababe/stru/scaffold.py: GeneralCell.id"),
   ("non-duplicate entry points", "ababe/stru/sogen.py: gen_nodup_unitary, gen_nodup, gen_nodup_of_ele, gen_nodup_trinary_alloy, gen_nodup_cstru"),
   ("buckyball filter", "ababe/stru/buckyball.py: Structure.to_nodup_generator")],
  [("orbit set", "identifiers of all symmetry images of the structures emitted so far", "local of the de-duplicating generators")],
  ["the yielded stream"])

p("C02", "Candidate enumeration covers every site choice exactly once",
  "For every parent structure, new species and count n, enumerating substitutions yields exactly one candidate for each way of choosing n of the eligible sites: all sites, the sites with the given Wyckoff letter, the sites of the given element, and for two new species two disjoint choices of n1 and n2 sites. In each candidate the chosen sites carry the new species while every other site, the lattice and the positions are those of the parent.",
  ["inputs"], "every parent structure, element, Wyckoff letter, species and n, including 0 and more than the eligible sites",
  "Tests count candidates for n=3 on two cells; they never look at which sites changed or at mixed parents where eligibility matters.",
  ["ababe/stru/sogen.py", "ababe/stru/scaffold.py", "ababe/stru/buckyball.py"],
  [("combinations of eligible indices over a copy of the parent occupation", "ababe/stru/sogen.py: gen_dup_unitary, gen_dup, gen_dup_of_ele, _gen_dup_trinary_alloy"),
   ("grid and buckyball variants", "ababe/stru/scaffold.py: SitesGrid.gen_speckle, CStru.gen_speckle; ababe/stru/buckyball.py: Structure.gen_speckle")],
  None, ["the yielded structures"])

p("C03", "Level-by-level substitution: each level is complete and separately consumable",
  "Adding one more atom of a species to a stream of structures yields, for every structure of the stream and every eligible site that does not yet hold the species, the structure with that site replaced, each distinct result once. The level-by-level generators produce one stream per total count from one above the parent's own count up to the requested maximum, level k being the de-duplicated one-atom extension of all of level k-1, whatever the order in which or extent to which the caller consumes the streams.",
  ["inputs", "histories"], "every parent, species, eligibility rule and maximum; every consumption order of the returned streams",
  "Tests consume the streams in order for two parents and only compare lengths of four levels; parents that already contain the species and out-of-order consumption are not exercised.",
  ["ababe/stru/sogen.py", "ababe/stru/buckyball.py"],
  [("one-atom extension", "ababe/stru/sogen.py: gen_add_one_speckle_unitary, gen_add_one_speckle, gen_add_one_speckle_of_ele; ababe/stru/buckyball.py: add_one_speckle_generator"),
   ("levels over split iterators", "ababe/stru/sogen.py: all_speckle_gen_unitary, all_speckle_gen, all_speckle_gen_of_ele; ababe/stru/buckyball.py: all_speckle_gen")],
  None, ["the outer and inner streams"])

p("C04", "Structure equivalence is decided by the parent's symmetry and nothing else",
  "Two occupations of one parent are reported equivalent exactly when at least one symmetry operation of the parent carries the whole occupation of one onto that of the other. Every operation is tried and every site is compared; for grid structures the comparison is made on all sites in canonical order.",
  ["inputs"], "every parent, every pair of occupations, every number of sites",
  "Tests assert three positive cases and no negative ones; a test that answers yes too easily or skips operations passes.",
  ["ababe/stru/sogen.py"],
  [("equivalence over symmetry permutations", "ababe/stru/sogen.py: OccupyGenerator.is_equivalent"),
   ("equivalence of grid structures under given operations", "ababe/stru/sogen.py: is_stru_equal, _get_id_seq")],
  None, ["the boolean result"])

p("C05", "Every symmetry operation becomes one site permutation in the cell's own order",
  "The site permutations of a cell contain, for each symmetry operation the symmetry finder reports for that cell, one permutation: the canonical site order of the positions after rotating (operation applied to column coordinates) and translating them. The same canonical ordering that arranges the cell's own sites is used, and no operation is added, dropped or altered.",
  ["inputs"], "every cell and every operation of its space group",
  "Tests count the permutations of one orthorhombic-looking cell, where a transposed rotation or a lost translation leaves the count unchanged.",
  ["ababe/stru/scaffold.py", "ababe/stru/sogen.py"],
  [("permutations of a cell", "ababe/stru/scaffold.py: GeneralCell.get_symmetry_permutation, get_symmetry"),
   ("permutations of a grid cell", "ababe/stru/sogen.py: get_permutation_cell, get_new_id_seq")],
  None, ["the returned permutation table"])

p("C06", "Cells keep every site's position and species paired in one canonical order",
  "A cell built from lattice, positions and species numbers holds exactly those sites, positions and numbers reordered by one common permutation that sorts the positions reduced into the unit cell lexicographically by x, then y, then z. Everything derived from the cell (the data handed to the symmetry finder, atom count, identifier, composition comment, per-species counts) describes the cell's current occupation, also after the occupation is replaced.",
  ["inputs", "histories"], "every lattice, position array (also outside [0,1)) and occupation, and every later replacement of the occupation",
  "Tests build cells whose positions are already nearly sorted and check counts and one comment string.",
  ["ababe/stru/scaffold.py"],
  [("canonical ordering", "ababe/stru/scaffold.py: GeneralCell.__init__, GeneralCell._get_new_id_seq"),
   ("derived data", "ababe/stru/scaffold.py: GeneralCell.spg_cell, numbers (setter), num_count, id, comment, get_speckle_num")],
  [("cell state", "lattice, sorted positions, sorted numbers and the tuple given to the symmetry finder", "GeneralCell instances")],
  ["properties of a cell"])

p("C07", "Supercells contain every atom of every image exactly once",
  "Expanding a cell by an integer matrix multiplies the lattice by that matrix from the left and yields, for each atom of the cell and each lattice translation inside the supercell, exactly one site of that atom's species at the corresponding position. This holds for diagonal expansion and for superlattice matrices alike.",
  ["inputs"], "every cell, every upper-triangular integer matrix with positive diagonal",
  "Tests look at one doubled single-species cell and at atom counts; species pairing in multi-species cells and non-diagonal matrices are not checked.",
  ["ababe/stru/scaffold.py", "ababe/stru/grid.py"],
  [("supercell of a cell", "ababe/stru/scaffold.py: GeneralCell.supercell, get_frac_from_mat"),
   ("superlattice to cell", "ababe/stru/grid.py: SuperLatticeCell.to_general_cell, get_frac_from_H")],
  None, ["the resulting cell"])

p("C08", "Superlattice enumeration lists every Hermite normal form of a volume once",
  "For every volume factor n the candidate superlattices are exactly the upper-triangular integer matrices with positive diagonal product n whose entries above a diagonal element are non-negative and smaller than it, each once; in the two-dimensional variant exactly those leaving the third axis untouched. All candidates refer to the given unit cell.",
  ["inputs"], "every n >= 1 and every unit cell",
  "Tests compare list lengths for a few n in 3D and do not exercise the 2D generator at all.",
  ["ababe/stru/grid.py"],
  [("divisor loops", "ababe/stru/grid.py: SuperLatticeGenerator.hnfs_from_n_dups, SuperLatticeGenerator2D.hnfs_from_n_dups")],
  None, ["the returned candidates and their coefficient matrices"])

p("C09", "Superlattices are merged exactly when a symmetry of the unit cell maps them",
  "Two superlattices compare equal exactly when, for at least one rotation of the unit cell, the rotated second lattice expressed in the first has only integer coefficients (to three decimals). The reduced list keeps the first of each class of equal candidates, in order, and drops nothing else, in 2D and in 3D.",
  ["inputs"], "every unit cell, rotation and pair of superlattices",
  "Tests check counts for cubic and hexagonal cells, for one generator only.",
  ["ababe/stru/grid.py"],
  [("superlattice equality", "ababe/stru/grid.py: SuperLatticeCell.__eq__"),
   ("reduction", "ababe/stru/grid.py: SuperLatticeGenerator.hnfs_from_n, SuperLatticeGenerator2D.hnfs_from_n")],
  None, ["equality results and the reduced list"])

p("C10", "Coordinate conversions and displacements are exact in the cell's own lattice",
  "Cartesian coordinates are the fractional ones times the lattice (row vectors) and the reverse conversion uses the inverse of that same lattice; asking for one element returns exactly that element's sites. Translating a site adds the given Cartesian vector to that site only, and a perturbation moves every site once, each by its own random direction with length equal to the requested distance.",
  ["inputs", "histories"], "every lattice (also non-orthogonal), every position, every displacement and every random draw",
  "Tests use nearly orthogonal or symmetric cases and only check that a perturbed structure differs.",
  ["ababe/stru/scaffold.py"],
  [("cell conversion", "ababe/stru/scaffold.py: GeneralCell.get_cartesian"),
   ("editable-cell conversion and motion", "ababe/stru/scaffold.py: ModifiedCell.get_cartesian_from_frac, get_frac_from_cart, translate_sites, perturb")],
  None, ["returned coordinates, site positions"])

p("C11", "Editing a cell changes exactly the sites named and loses nothing else",
  "An editable cell built from positions and numbers, or from a cell, has one site per entry in the same order, and converting back gives a cell with the same lattice, positions and species. Appending, inserting, replacing, popping and removing by index affect exactly the named sites and keep the others in order, duplicates in an index list counting once; a copy shares nothing with its original, and cells compare equal exactly when lattice, positions and species agree.",
  ["inputs", "histories"], "every cell, every sequence of edits, every index list",
  "Tests run one edit each on one cell; equality of cells of different size, and interaction of copy and later edits, are not exercised.",
  ["ababe/stru/scaffold.py", "ababe/stru/site.py"],
  [("site sequence", "ababe/stru/scaffold.py: ModifiedCell (constructor, sequence methods, remove_sites, append_sites, copy, __eq__, from_gcell, to_gcell)"),
   ("site", "ababe/stru/site.py: Site")],
  None, ["sites, positions and numbers of the cell"])

p("C12", "Sphere queries are periodic and clarifying removes exactly what they select",
  "A site is selected by a sphere query exactly when some image of it in the 27 neighbouring cells lies strictly closer to the centre than the radius and, if an element is given, it is of that element. Clarifying a cell removes, for each centre in turn (given points, or every site of the centre element present at the start), exactly the sites selected at that moment, keeps all others, and refuses anything that is not an editable cell.",
  ["inputs", "histories"], "every cell, radius, element, list of centres and removal order",
  "Tests use one cell with one or two well separated centres, where stale indices or skipped centres do not show.",
  ["ababe/stru/scaffold.py", "ababe/stru/clarifier.py"],
  [("sphere query", "ababe/stru/scaffold.py: ModifiedCell.get_points_incell_insphere, in_euclidean_discance"),
   ("clarifiers", "ababe/stru/clarifier.py: AtomRemoveClarifier.clarify, VerboseAtomRemoveClarifier.clarify")],
  None, ["selected sites, remaining sites"])

p("C13", "Structure restrictions accept exactly the structures that satisfy them",
  "The minimum-distance restriction accepts a structure exactly when every pair of atoms of the named element, periodic neighbours included, is farther apart than the limit, which is trivially so when the element is absent. The space-group restriction accepts exactly the listed international numbers, and the speckle-disjunct test accepts a grid structure exactly when no two speckles, periodic images included, are within 1.01.",
  ["inputs"], "every structure, element, limit and list of space groups",
  "Tests check one accepting and one rejecting structure; missing element, boundary distance and periodic pairs along each axis are not covered.",
  ["ababe/stru/restriction.py", "ababe/stru/sogen.py"],
  [("restrictions", "ababe/stru/restriction.py: MinDistanceRestriction, SpaceGroupRestriction"),
   ("speckle disjunct", "ababe/stru/sogen.py: is_speckle_disjunct, _min_dist, _pool_sites, _index2coor")],
  None, ["the boolean result"])

p("C14", "POSCAR output lists species, counts and coordinates consistently",
  "In every POSCAR text the species line, the count line and the coordinate block use the same species order (ascending atomic number), each count equals the number of coordinate lines of that species, vacancies appear nowhere, and each coordinate line carries the position of one site and that site's own symbol. The lattice lines are the cell's lattice rows, and coordinates are written in the mode the header declares.",
  ["inputs"], "every cell, site order, species mix (vacancies included), scale and coordinate mode",
  "Tests compare the text of one two-atom cell.",
  ["ababe/io/vasp.py", "ababe/stru/io.py"],
  [("POSCAR writers", "ababe/io/vasp.py: VaspOutput; ababe/stru/io.py: VaspPOSCAR")],
  None, ["the text returned and the file written"])

p("C15", "POSCAR input yields the lattice, species and positions the file states",
  "Reading a POSCAR applies the scale factor to the lattice (a negative one as target volume), assigns to each coordinate line the species of its block in file order, reads as many coordinate lines as there are atoms, and interprets them as fractional or Cartesian as the file declares. The resulting cell holds exactly these sites.",
  ["inputs"], "every POSCAR text with any scale, species blocks and coordinate mode",
  "One file with scale 1 in direct mode is read by the tests.",
  ["ababe/io/vasp.py"],
  [("POSCAR reader", "ababe/io/vasp.py: VaspInput.from_string, VaspInput.get_cell")],
  None, ["the arrays and the cell returned"])

p("C16", "YAML output and input agree on every field",
  "The YAML text of a cell contains its comment, lattice, positions, numbers and scale under the names the reader looks up, each holding that cell's own data in site order with vacancies kept as number 0. Reading multiplies the lattice by the scale, leaves positions and numbers as stated, and the written scale never changes the lattice on re-reading.",
  ["inputs"], "every cell and every YAML structure file",
  "Tests compare one two-atom text with scale 1 and read one file.",
  ["ababe/io/yaml.py", "ababe/stru/io.py"],
  [("YAML reader and writer", "ababe/io/yaml.py: YamlInput, YamlOutput"), ("legacy writer", "ababe/stru/io.py: YamlOutput")],
  None, ["the text, the arrays and the cell returned"])

p("C17", "File format selection is the same for reading and writing and never guesses",
  "For every file name and explicit format, reading and writing select the same format: YAML for format yaml or a name containing .yaml, otherwise VASP for format vasp, a name ending in .vasp or containing POSCAR; directories in the path do not matter. Any other combination is refused with a clear error, and without a file name the text goes to standard output.",
  ["inputs", "configurations"], "every file name, path and format argument",
  "Tests use six names; unknown names, upper case and directories containing a format word are not tried.",
  ["ababe/io/io.py"],
  [("format dispatch", "ababe/io/io.py: GeneralIO.write_file, GeneralIO.from_file")],
  None, ["which reader or writer is used"])

p("C18", "Commands write exactly the structures that pass the requested filters",
  "Each occupation command writes a generated structure exactly when it is primitive (unless the user asked to keep supercells, where the command has that option) and satisfies every distance restriction given; refined output is the refined primitive cell and unrefined output the structure itself. The superlattice command writes every distinct superlattice in shaped form, and refuses a non-primitive input.",
  ["inputs", "configurations"], "every input structure and every combination of filter and refinement options",
  "No test runs a command.",
  ["ababe/cmdline/apps/occupymaker.py", "ababe/cmdline/apps/occupybiter.py", "ababe/cmdline/apps/occupytenter.py", "ababe/cmdline/apps/occupymakert.py", "ababe/cmdline/apps/superlattice.py"],
  [("filter before writing", "run() of the occupation apps"), ("primitive check", "ababe/cmdline/apps/superlattice.py: App.__init__")],
  None, ["files written"])

p("C19", "Every command-line option reaches the computation it names",
  "For every command, each declared option and argument is delivered to the computation it names: input file, target element, substituted species, numbers, scale, comment, radius, restrictions, refinement, output mode and dimensionality each affect the command's result as their own, never another one's, and no given value is replaced by a default. Defaults apply only when the option is absent: vacancy as species, the second site's element as target, and the documented counts.",
  ["configurations", "inputs"], "every command and every combination of options",
  "No test invokes the command line.",
  ["ababe/cmdline/runabalib.py", "ababe/cmdline/runatilib.py", "ababe/cmdline/apps"],
  [("option declarations and application construction", "ababe/cmdline/runabalib.py, ababe/cmdline/runatilib.py"),
   ("application constructors", "ababe/cmdline/apps/*.py: App.__init__")],
  None, ["the output of the commands"])

p("C20", "Commands touch only their own output and never overwrite a result of the run",
  "Given a comment that is a plain name, a command creates files only inside the output directory it creates for the run under the current directory (or one result file there named after the input), removes nothing but a previous output directory of that same name, and never modifies its input. Each structure a run writes gets a file of its own, so no result of a run is overwritten by another.",
  ["inputs", "configurations", "histories"], "every command, option set, number of structures and random draw",
  "No test runs a command; name collisions need thousands of structures.",
  ["ababe/cmdline/apps", "ababe/cmdline/runatilib.py", "ababe/io", "ababe/stru/io.py"],
  [("output directories and file names", "run() of the apps"), ("writers", "write_file/write of the output classes")],
  None, ["file system effects"])

p("C21", "No reachable path fails on an undefined name, attribute or signature",
  "On every path of every function of the package each name read is bound, each module, class and instance attribute or method used on the package's own and imported objects exists, and every call to a function of the package matches its signature. In particular error and clean-up branches that ordinary use never reaches do not end in a name, attribute or argument error.",
  ["inputs", "programs"], "every function and every path through it",
  "Tests execute the ordinary paths only; a missing import in a clean-up branch goes unseen.",
  ["ababe"],
  [("imports, definitions and calls", "all modules of the package")],
  None, ["exceptions raised"])

p("C22", "Computations never modify the structures and arrays they are given",
  "Apart from the documented mutators (editable cells, grid item assignment, occupation replacement, search-tree and random-pop-set updates), no operation changes an array, list or object received from the caller or held by another object: parents stay as they were while candidates are produced from them. The species and positions of a structure handed out are not changed by producing later ones (only the lattice, which nothing modifies, may be shared), no state left by one computation affects another, and copies of grids and editable cells are independent of their originals.",
  ["inputs", "histories"], "every operation, every argument, every later use of its results",
  "Tests look at results, never at the arguments afterwards, and never modify a copy.",
  ["ababe/stru", "ababe/io", "ababe/cmdline/apps", "ababe/mlearn"],
  [("copy before write", "every in-place update in the package")],
  None, ["arguments and earlier results after a call"])

p("C23", "Results are deterministic: only the documented random features draw randomness",
  "Enumeration, symmetry, supercell, conversion, restriction and file-format results depend only on their inputs: no random draw, clock, environment variable, process state or unordered iteration influences them. Randomness is used only by perturbation, random filling, the random walk and the random part of output names, and no library call seeds or replaces the global generators.",
  ["inputs", "histories", "configurations"], "every public operation and every process in which it runs",
  "A test sees one run; it cannot see that another process or another order of calls would give another result.",
  ["ababe"],
  [("effects of every function", "all modules of the package")],
  None, ["results of repeated runs"])

p("C24", "Element symbols, numbers and species objects correspond one to one",
  "Every symbol of the element table has its own atomic number, number 0 is the vacancy symbol G and only that, and the table's symbols and numbers agree with the periodic table. Looking up a species by number and a number or name by species are inverse to each other for the whole table, species compare equal exactly when their numbers do, and a site built from a species, a number or a symbol holds that species.",
  ["inputs"], "every symbol and number of the table",
  "Tests look up boron and the vacancy.",
  ["ababe/stru/element.py", "ababe/stru/pt.json", "ababe/stru/site.py"],
  [("element table", "ababe/stru/pt.json"), ("species", "ababe/stru/element.py: Specie, GhostSpecie"), ("site element", "ababe/stru/site.py: Site")],
  None, ["species attributes"])

p("C25", "The random-pop set is a set whose pop removes exactly the item it returns",
  "After any sequence of insertions and removals the set contains exactly the items added and not removed, each once; length, membership and iteration agree. A random draw returns a current item (each reachable), and a random pop removes exactly the item it returns.",
  ["histories", "inputs"], "every sequence of operations and every random draw",
  "The existing tests of this class cannot run (its name is shadowed in the test file).",
  ["ababe/mlearn/dsutils.py"],
  [("index map and item list kept in step", "ababe/mlearn/dsutils.py: RandomPopSet")],
  [("map/list", "map[item] is the index of item in list", "RandomPopSet instances")],
  ["len, in, iteration, pop results"])

p("C26", "The random arrangement walk visits connected, distinct sites up to the goal",
  "A random arrangement starts at the problem's start position, grows only by neighbours of sites already placed that are not placed yet, never visits a site twice, and stops exactly when the goal reports the current number of sites as reached. Neighbours of a site are exactly the other grid sites within the distance threshold.",
  ["histories", "inputs"], "every arrangement problem, grid size and random draw",
  "Tests check the number of distinct sites of one run per problem.",
  ["ababe/mlearn/arrange.py", "ababe/mlearn/arrangeAgent.py", "ababe/stru/scaffold.py", "ababe/stru/scaffold2d.py"],
  [("random walk", "ababe/mlearn/arrange.py: random_walk_arrange"),
   ("problems", "ababe/mlearn/arrangeAgent.py"),
   ("neighbours", "ababe/stru/scaffold.py: CStru.get_neighbors; ababe/stru/scaffold2d.py: CStru2d.get_neighbors")],
  None, ["the returned path"])

p("C27", "Tree search keeps visit counts, values and the chosen move consistent",
  "Every evaluation counts one visit at each node from the root to the evaluated leaf, ancestors first, the node value being the mean of the values backed up through it and the exploration bonus following the prior, the parent's visits and the own visits. Selection takes the child of highest value plus bonus, the returned move is the most visited child of the root, existing children are never replaced on expansion, and the caller's state is never changed.",
  ["histories", "inputs"], "every policy, value function, game and number of playouts",
  "No test touches the tree search.",
  ["ababe/mlearn/mcts.py"],
  [("node statistics", "ababe/mlearn/mcts.py: TreeNode"), ("search", "ababe/mlearn/mcts.py: MCTS")],
  None, ["chosen moves and node statistics"])

p("C28", "Grid structures and crystal cells describe the same sites",
  "The species array of a grid and the grid built from an array are inverse to each other, and the cell of a grid structure has lattice row k multiplied by the grid size along axis k, one site per grid point at its index divided by the grid size, and the species of that very point. Every grid point is stored on its own: setting one changes that one and no other. Copying a grid or its size, equality and item access always refer to the same depth, width, length order.",
  ["inputs"], "every grid size (also unequal sides), lattice and species arrangement",
  "Tests use cubic or tiny grids.",
  ["ababe/stru/scaffold.py", "ababe/stru/scaffold2d.py"],
  [("grid", "ababe/stru/scaffold.py: SitesGrid; ababe/stru/scaffold2d.py: SitesGrid2d"), ("grid structure", "ababe/stru/scaffold.py: CStru")],
  None, ["arrays, cells, copies"])

p("C29", "The buckyball symmetry table is the full icosahedral permutation group",
  "The shipped site-permutation table consists of 120 distinct permutations of the 60 sites, contains the identity, is closed under composition, and is used completely when buckyball structures are de-duplicated. The shipped coordinates are 60 distinct sites on a common sphere, each with exactly three nearest neighbours, and every permutation of the table preserves all their distances.",
  ["inputs"], "every row of the table and every product of two rows; every site",
  "Tests check the number of structures with up to three atoms only; a damaged row changes larger counts or none.",
  ["ababe/stru/buckyball.py", "ababe/stru/bucky_permu_table.npy", "ababe/stru/buckyball.json"],
  [("permutation table", "ababe/stru/bucky_permu_table.npy"), ("coordinates", "ababe/stru/buckyball.json"), ("users", "ababe/stru/buckyball.py: Structure")],
  None, ["the table and its uses"])

p("C30", "Standardised, primitive and shaped cells come from the whole cell, as named",
  "The refined cell is the symmetry finder's standardised conventional cell, the refined primitive cell its primitive one, both computed from the cell's current lattice, positions and numbers at the cell's own tolerance. The shaped cell keeps every atom with its own species, and a cell is primitive exactly when its primitive cell has as many atoms as it has; space group and Wyckoff letters are those of the current cell.",
  ["inputs"], "every cell and tolerance",
  "Tests check one non-primitive cell and one space group.",
  ["ababe/stru/scaffold.py"],
  [("symmetry finder calls", "ababe/stru/scaffold.py: GeneralCell.get_refined_cell, get_refined_pcell, get_shaped_cell, is_primitive, get_spacegroup, get_wyckoffs, get_symmetry")],
  None, ["the returned cells and answers"])

p("C31", "Reading a structure file never executes anything in it",
  "Input files are treated as data: on no path from a command or reader is file content or an option value evaluated, unpickled, imported, passed to a shell, or loaded with a YAML loader that can construct arbitrary objects. This holds for every command and every input format.",
  ["inputs", "configurations"], "every input file and option value",
  "Tests read benign files.",
  ["ababe/cmdline/runabalib.py", "ababe/cmdline/runatilib.py", "ababe/io", "ababe/stru"],
  [("loaders", "ababe/io/yaml.py: YamlInput; ababe/cmdline/runabalib.py: ocutenter, ocumakert; json/npy loading in ababe/stru")],
  None, ["effects of reading a file"])

# --- not decided by static analysis (listed under not_applicable) ---
p("C40", "Rounding never confuses or reorders sites of nearby coordinates",
  "For every cell whose sites are farther apart than the tolerance, the canonical order and all symmetry permutations are unaffected by coordinate noise below the tolerance, so that a symmetry operation always yields the true site permutation.",
  ["inputs"], "every cell and every floating-point perturbation below tolerance",
  "Tests use coordinates with a few decimals.", ["ababe/stru/scaffold.py"],
  [("rounding to three decimals", "ababe/stru/scaffold.py: GeneralCell._get_new_id_seq")], None, ["permutations"])
p("C41", "Writing and re-reading a structure preserves it to the printed precision",
  "For every cell, writing it in either format and reading it back gives the same species and, to four decimals, the same lattice and positions up to canonical ordering.",
  ["inputs"], "every cell with arbitrary real coordinates",
  "Tests never read back what they wrote.", ["ababe/io/vasp.py", "ababe/io/yaml.py"],
  [("six-decimal output, four-decimal input", "ababe/io")], None, ["round-tripped cells"])
p("C42", "Enumeration time and memory stay proportional to the number of candidates",
  "Enumerating and de-duplicating uses time and memory proportional to the number of candidates times the number of symmetry operations and never needs all candidates at once.",
  ["inputs"], "every parent and count",
  "Tests run small sizes.", ["ababe/stru/sogen.py"],
  [("lazy generators", "ababe/stru/sogen.py")], None, ["time and memory"])
p("C43", "The number of emitted structures is the physical count of inequivalent ones",
  "For every parent the number of emitted structures equals the number of orbits given by Burnside's lemma for the parent's space group as found by the symmetry finder.",
  ["inputs"], "every parent",
  "Tests compare a few published counts.", ["ababe/stru/sogen.py", "ababe/stru/scaffold.py"],
  [("symmetry finder results", "spglib")], None, ["counts"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
