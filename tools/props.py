#!/opt/venv/bin/python
"""Writes properties.jsonl (run from /verif)."""
import json
P = []
CORE, SYS, ATOM = "src/pyscal/core.py", "src/pyscal/system.cpp", "src/pyscal/atom.cpp"


def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


IC = ["inputs", "configurations"]
NEIGH = ["Atom.neighbors", "Atom.neighbor_distance", "Atom.neighbor_vector", "Atom.neighbor_weights", "Atom.coordination", "Atom.cutoff"]

p("C01", "Cutoff neighbor search is exact under periodic boundaries",
  "After find_neighbors with the cutoff method and a number as cutoff (below half the smallest width of the periodic system searched), the neighbors of every atom are exactly the atoms and periodic images nearer than the cutoff, each listed once. The parallel lists agree: every entry has the true displacement and distance, a weight of one, and an index leading to an atom at that place. This holds for orthogonal and triclinic cells of either handedness, atoms in or outside the cell, systems that are extended internally (few atoms), searched pair by pair, and searched with cell lists (many atoms).",
  IC, "every arrangement of atoms, every cell, every admissible cutoff, every system size",
  "tests count neighbors of perfect cubic crystals in a few orthogonal boxes; errors at faces, in tilted cells, at the size limits of the three search paths or at particular cutoffs cannot be excluded by them",
  [CORE, SYS], [("get_all_neighbors_normal / get_all_neighbors_cells", SYS), ("get_abs_distance, convert_to_spherical and cell lists", SYS), ("System.find_neighbors, embedding of small systems", CORE)], NEIGH)
p("C02", "Type filters select exactly the neighbors of the admitted types",
  "With filter='type' a neighbor search lists only neighbors of the host's own type and with filter='type_r' only those of other types, and it omits none that the method would otherwise select. For methods that pick a number of nearest atoms the choice is made among admitted atoms; for adaptive, SANN and Voronoi searches the neighbors found are then filtered. Without a filter types have no influence.",
  IC, "every arrangement and assignment of types, all neighbor methods",
  "only the cutoff method is tested with a filter, on one binary crystal",
  [CORE, SYS], [("filter argument of each search", SYS)], NEIGH)
p("C03", "The number method finds exactly the nmax nearest neighbors",
  "With the number method every atom gets exactly nmax neighbors, and no atom or periodic image that is not listed is nearer than one that is listed; the cutoff reported for the atom is the distance of its last neighbor. If some atom has fewer than nmax candidates in the search radius set by threshold, a RuntimeError is raised instead of an incomplete answer.",
  IC, "every arrangement, nmax and threshold, small and large systems, all cell shapes",
  "tests look at the count of neighbors in perfect crystals where all shells are complete",
  [CORE, SYS], [("get_all_neighbors_bynumber", SYS)], NEIGH)
p("C04", "Adaptive and SANN searches use the cutoff their definition gives",
  "With cutoff='adaptive' (or 0) an atom's neighbors are those closer than padding times the mean distance of its nlimit nearest atoms, and with cutoff='sann' the m nearest, m >= 3 being the first for which the sum of the m smallest distances over m-2 is below the next distance. The cutoff used is reported for the atom. A search whose radius is too small for that raises an error (or is repeated with a larger one), never giving a wrong list.",
  IC, "every arrangement, every padding, nlimit and threshold",
  "tests use perfect bcc and fcc crystals, for which many wrong cutoffs select the same shells",
  [CORE, SYS], [("get_all_neighbors_adaptive", SYS), ("get_all_neighbors_sann", SYS)], NEIGH)
p("C05", "Distances are minimum image distances in the user's cell",
  "The displacement and distance between two atoms are those to the image whose cell coordinates relative to the other atom lie within half a cell, which for orthogonal cells (and any distance below half the smallest width) is the shortest over all images. Distances are symmetric, displacements antisymmetric, and neither changes when an atom is moved by whole cell vectors or when a neighbor search has extended the system internally.",
  IC, "all pairs of positions, all cells, before and after searches",
  "one distance in one cubic box is tested",
  [CORE, SYS], [("get_abs_distance", SYS), ("System.get_distance", CORE)], ["System.get_distance"])
p("C06", "Voronoi tessellation partitions the cell and gives consistent neighbors",
  "After a Voronoi neighbor search the volumes of the atoms are positive and add up to the volume of the cell, neighbor relations are mutual with equal and opposite displacements, and face weights (areas to the power voroexp, over their sum) add up to one per atom. The faces are those of the true tessellation: the polyhedron's vertices are equidistant from the atom and from the neighbors whose faces meet there, and no atom is closer. The Voronoi vector counts faces with 3, 4, 5 and 6 edges and the averaged volume is the mean over the atom and its neighbors.",
  IC, "every arrangement of atoms in orthogonal periodic cells, small and large, every exponent",
  "tests look at the Voronoi vector and volume of one atom in perfect crystals",
  [CORE, SYS, ATOM], [("get_all_neighbors_voronoi", SYS), ("find_average_volume", SYS)], ["Atom.volume", "Atom.avg_volume", "Atom.vorovector", "Atom.vertex_vectors", "Atom.vertex_positions", "Atom.face_perimeters", "Atom.face_vertices", "Atom.edge_lengths"] + NEIGH)
p("C07", "Steinhardt q_l equal the weighted bond order sums and are rotation invariant",
  "For l from 2 to 12, the value q_l of an atom is sqrt(4 pi/(2l+1) sum_m |q_lm|^2), q_lm being the weighted mean of spherical harmonics over its neighbors; equivalently q_l^2 is the weighted mean of the Legendre polynomial P_l over all ordered pairs of its bonds. The components reported reproduce the value, values lie in [0, 1], and they depend only on the angles between bonds, so rotating or inverting the arrangement does not change them.",
  IC, "every arrangement, all l, neighbors from all methods including Voronoi weights",
  "tests compare mean values for perfect bcc, fcc, hcp and sc crystals, in which bonds point only in a few symmetric directions",
  [CORE, SYS, ATOM], [("calculate_q, PLM/YLM", SYS), ("Atom.get_q", ATOM)], ["System.calculate_q", "System.get_qvals", "Atom.get_q", "Atom.get_qlm"])
p("C08", "Averaged parameters average over the atom and its neighbors, by condition",
  "The averaged value of q_l is the norm of the mean of the complex vectors q_lm of the atom and all of its neighbors, each counted once. With only_averaged conditions in force, only neighbors having the same condition value as the host count, for both q_l and its average; without neighbors the value is that of the atom itself.",
  IC, "every arrangement, every assignment of conditions, systems extended internally included",
  "tests check averaged values only in perfect crystals where all atoms agree, and no conditions",
  [CORE, SYS, ATOM], [("calculate_aq", SYS), ("calculate_q with condition", SYS)], ["System.get_qvals(averaged=True)", "Atom.get_q"])
p("C09", "Solid atoms are exactly those meeting the bond criteria; cluster is largest",
  "A bond of two neighbors is solid when the normalised scalar product s_ij of their q vectors is larger than the threshold; an atom is solid exactly when it has more solid bonds than bonds (or a larger fraction, if bonds is below one) and its mean s_ij is larger than avgthreshold (smaller, for both, when right is False). The number of solid bonds and the s_ij values are reported per atom, and with cluster=True the number returned is the size of the largest cluster of mutually connected solid atoms, whose members alone are marked as belonging to it.",
  IC, "every arrangement, thresholds, counts and fractions, both senses",
  "one perfect crystal with default thresholds is tested, where every atom is solid with margin",
  [CORE, SYS], [("find_solid_atoms, get_number_from_bond", SYS), ("System.find_solids", CORE)], ["System.find_solids", "Atom.solid", "Atom.sij", "Atom.avg_sij", "Atom.bonds", "Atom.largest_cluster"])
p("C10", "Clusters are the connected components of the atoms meeting the condition",
  "cluster_atoms gives two atoms the same cluster number exactly if both meet the condition and a chain of neighboring atoms that meet it connects them, also across periodic boundaries; others get -1. The size of the largest cluster is returned and exactly the members of a largest cluster are flagged as such.",
  IC, "every neighbor graph, every condition (attribute or function), every cutoff",
  "tests cluster a perfect crystal with a condition that selects one convex region",
  [CORE, SYS], [("find_clusters, cluster recursion", SYS), ("find_largest_cluster", SYS), ("System.cluster_atoms", CORE)], ["System.cluster_atoms", "System.find_largestcluster", "Atom.cluster", "Atom.largest_cluster", "Atom.surface"])
p("C11", "Common neighbor analysis classifies atoms by their bond signatures",
  "calculate_cna labels an atom fcc, hcp or icosahedral exactly when the signatures (common neighbors, bonds among them, largest and smallest number of these per common neighbor) of its 12 nearest neighbors are those of the structure, and bcc when the signatures of its 14 nearest are, with the fixed cutoff for the given lattice constant or the adaptive cutoff from the neighbor distances without one. All other atoms are labelled as unidentified, and the dictionary returned counts each label over the atoms of the system.",
  IC, "every arrangement of atoms, small and large systems, adaptive and conventional",
  "tests use one perfect crystal per structure",
  [CORE, SYS], [("identify_cn12 / identify_cn14", SYS), ("get_cna_neighbors", SYS), ("System.calculate_cna", CORE)], ["System.calculate_cna", "Atom.structure"])
p("C12", "Diamond structure identification follows its definition",
  "identify_diamond labels an atom cubic or hexagonal diamond exactly when the common neighbor signatures of its 12 second neighbors (the 4 nearest of its 4 nearest atoms) are those of fcc or hcp, marks atoms nearest to such an atom and the neighbors of those as first and second shell, and leaves all others as unidentified. The dictionary returned counts every label over the atoms of the system.",
  IC, "every arrangement, small and large systems",
  "one perfect diamond crystal is tested",
  [CORE, SYS], [("identify_diamond_structure", SYS), ("get_diamond_neighbors", SYS)], ["System.identify_diamond", "Atom.structure"])
p("C13", "The centrosymmetry parameter is the sum of the smallest pair norms",
  "The centrosymmetry parameter of an atom, for an even number n of nearest neighbors, is the sum of the n/2 smallest values of |r_i + r_j|^2 over all pairs of the n nearest neighbors. It is never negative, zero for an atom at a centre of inversion of its neighbors, and scales with the square of the length unit.",
  IC, "every arrangement and every even number of neighbors",
  "tests look at a perfect crystal, where the answer is zero, and at one displaced arrangement in a range",
  [CORE, SYS], [("calculate_centrosymmetry", SYS)], ["System.calculate_centrosymmetry", "Atom.centrosymmetry"])
p("C14", "Angular criteria are computed from all pairs of neighbors",
  "The angular parameter of an atom is the sum of (cos t + 1/3)^2 over the six pairs of its four nearest neighbors. The chi parameters count, over all pairs of its neighbors, how many cosines fall into each of the nine fixed intervals, so that they add up to n(n-1)/2.",
  IC, "every arrangement, every neighbor list, systems extended internally included",
  "tests use perfect diamond, bcc and fcc crystals, whose few angles are far from the interval limits",
  [CORE], [("System.calculate_angularcriteria", CORE), ("System.calculate_chiparams", CORE)], ["Atom.angular", "Atom.chiparams"])
p("C15", "Short range order parameters follow from the types in the neighbor shells",
  "The Warren-Cowley parameter of an atom is one minus the fraction of neighbors of the given type in its shell over the concentration of that type; calculate_sro and calculate_pmsro average it over atoms as documented, for the first shell (distance up to the mean neighbor distance) and, on request, the second. Compositions count every atom of the system once.",
  IC, "every arrangement, types, compositions and reference types",
  "one ordered binary crystal is tested",
  [CORE], [("System.calculate_sro", CORE), ("System.calculate_pmsro", CORE), ("System.get_concentration", CORE)], ["System.calculate_sro", "System.calculate_pmsro", "Atom.sro", "System.get_concentration"])
p("C16", "Disorder is the mean squared difference of bond order vectors",
  "The disorder of an atom is the mean over its neighbors of s_ii + s_jj - 2 s_ij, the scalar products of q vectors of the atom and the neighbor; the averaged value is the mean over the atom and its neighbors. It is never negative and zero where all neighbors have the same environment.",
  IC, "every arrangement and l, systems extended internally included",
  "tests look at one perfect crystal, for which the value is zero",
  [CORE, SYS], [("find_average_disorder, calculate_disorder", SYS)], ["System.calculate_disorder", "Atom.disorder", "Atom.avg_disorder"])
p("C17", "Local entropy is the trapezoidal integral of the smoothed distribution",
  "The entropy parameter of an atom is -2 pi rho k integral (g ln g - g + 1) r^2 dr, g being the distribution of its neighbor distances smoothed with Gaussians, with the density of the system or (local=True) of the atom's own neighborhood, and always finite. The averaged value is the mean over the atom and its neighbors, or the weighted mean by the switching function.",
  IC, "every arrangement and parameter set",
  "one perfect crystal is tested to two digits",
  [CORE, SYS], [("entropy, trapezoid_integration", SYS), ("calculate_average_entropy", SYS)], ["System.calculate_entropy", "Atom.entropy", "Atom.avg_entropy"])
p("C18", "The radial distribution counts every pair distance exactly once per atom",
  "calculate_rdf is the histogram of distances between all ordered pairs of atoms in the chosen range, divided by shell volume, density and number of atoms. Every pair is counted in exactly one bin, in its periodic minimum image, and the pair distances reported are all pairs once.",
  IC, "every arrangement, number of bins and range, every system size and cell",
  "the position of one peak in one crystal is tested",
  [CORE, SYS], [("System.calculate_rdf", CORE), ("get_pairdistances", SYS)], ["System.calculate_rdf"])
p("C19", "A System gives back the atoms and the box it was given",
  "After any sequence of assigning atoms, adding atoms, setting single atoms and assigning the box, the system reports exactly the atoms last assigned or set, in order, with their positions, ids, types and custom values, the number of atoms and the box. Internal extension by neighbor searches never shows in these.",
  ["histories", "inputs"], "every sequence of operations on the atoms and box",
  "tests set atoms once and look at the count",
  [CORE, SYS], [("System.atoms, set_atoms, add_atoms, get_atom, set_atom, box", CORE), ("embedding of small systems", CORE)], ["System.atoms", "System.natoms", "System.box", "System.get_atom"])
p("C20", "Results depend on the current atoms and arguments, not on the history",
  "What a calculation reports for a system after any earlier sequence of searches and calculations equals what it reports for a fresh system with the same atoms and box. Repeating a calculation gives the same results, and reset_neighbors leaves no neighbor data behind.",
  ["histories"], "every sequence of neighbor searches and calculations before the one looked at",
  "tests build a fresh system for each calculation",
  [CORE, SYS, ATOM], [("reset_all_neighbors", SYS), ("flags neighbors_found, voronoiused, usecells", CORE)], ["all results on Atom"])
p("C21", "Structures written to file are read back the same",
  "A system written to a LAMMPS dump (plain, gzipped, with custom columns) or POSCAR file, or converted to ASE, and read back has the same number of atoms, positions (to the precision written), box including tilt, types or species, ids and custom values, in the same order.",
  IC, "every system, box, species assignment, set of custom columns and file format",
  "tests check the number of atoms after a round trip",
  [CORE, "src/pyscal/formats/lammps.py", "src/pyscal/formats/vasp.py", "src/pyscal/formats/ase.py", "src/pyscal/traj_process.py"], [("write_snap / read_snap", "src/pyscal/formats/lammps.py"), ("convert_snap", "src/pyscal/formats/ase.py")], ["System.to_file", "System.read_inputfile"])
p("C22", "Every form of LAMMPS dump and POSCAR is read to the same atoms",
  "Reading does not depend on how a file presents the data: column order, scaled or plain coordinates, offset origins, extra columns, several snapshots (each frame separately) and compression yield the same positions relative to the origin, types, ids and box. Fixed, direct or Cartesian POSCAR files and species counts assign every atom its position and type.",
  IC, "every arrangement of columns, coordinates, headers and frames",
  "a handful of example files are read and their atoms counted",
  ["src/pyscal/formats/lammps.py", "src/pyscal/formats/vasp.py", "src/pyscal/traj_process.py"], [("read_snap", "src/pyscal/formats/lammps.py"), ("read_snap", "src/pyscal/formats/vasp.py"), ("split_trajectory", "src/pyscal/traj_process.py")], ["System.read_inputfile"])
p("C23", "A Trajectory gives exactly the chosen blocks, changed only where asked",
  "Slicing, indexing, adding and iterating a trajectory yields exactly the frames of the file that were named, in order; converting them to systems or writing them gives the data of those frames. Loading, changing columns and unloading frames affects exactly those frames, and nothing else in the file or in other slices.",
  ["histories", "inputs"], "every sequence of loading, slicing, adding, changing, converting and writing",
  "tests take one slice of one trajectory",
  ["src/pyscal/trajectory.py"], [("Trajectory, Timeslice", "src/pyscal/trajectory.py")], ["Trajectory", "Timeslice"])
p("C24", "Generated crystals have the sites, cell and composition of the structure",
  "make_crystal gives, for every structure and repetition, the number of atoms of that many unit cells, inside a box of the stated dimensions, at exactly the lattice sites with the types of the structure and with unique ids; noise displaces each atom about its site and nothing else.",
  IC, "every structure, lattice constant, ratio and repetition",
  "tests count atoms for some structures",
  ["src/pyscal/crystal_structures.py"], [("make_crystal", "src/pyscal/crystal_structures.py")], ["make_crystal"])
p("C25", "Results do not depend on origin, atom order, cell choice or supercell",
  "Translating all atoms, moving atoms by whole cell vectors, relabelling them, choosing another cell of the same lattice, turning or mirroring everything along the axes, or repeating the system leaves every per-atom result unchanged (and the neighbors correspond).",
  IC, "every arrangement and every transformation that leaves the arrangement the same",
  "tests look at single presentations of perfect crystals",
  [CORE, SYS], [("neighbor searches and what is computed from them", SYS)], ["all results on Atom"])
p("C26", "Repeating, remapping and cubic extraction keep the arrangement",
  "repeat yields all copies of every atom, displaced by whole cell vectors, with type kept and unique ids, in the enlarged box. remap_atoms brings atoms back into the box by whole cell vectors, and extract_cubic_box yields exactly the atoms inside the cube.",
  IC, "every system, repetition and box",
  "one crystal is repeated and its atoms counted",
  [CORE], [("System.repeat", CORE), ("System.remap_atoms", CORE), ("System.extract_cubic_box", CORE)], ["System.repeat", "System.remap_atoms", "System.extract_cubic_box"])
p("C27", "Invalid requests are refused and change nothing",
  "Unknown methods, filters, conditions and formats, parameters outside their range, missing files, calculations whose neighbors are missing and indices out of range raise an error and change nothing: not the atoms, the box, the neighbors, nor earlier results. A neighbor search that cannot be answered raises an error, leaves atoms and box as they were, and no incomplete lists of neighbors.",
  ["inputs", "histories"], "every invalid argument at every point of a history",
  "few invalid arguments are tried, and what they leave behind is not looked at",
  [CORE, "src/pyscal/trajectory.py", "src/pyscal/crystal_structures.py"], [("argument checks", CORE)], ["exceptions"])
p("C28", "Queries and exports leave the system unchanged",
  "Reading attributes, getting values, computing distances or distributions and writing files change nothing: all per-atom results, atoms and box are as before, and atoms, lists and boxes handed out are copies whose change does not reach into the system until assigned (the dictionary custom of an atom is shared).",
  ["histories"], "every query at every point of a history",
  "not tested",
  [CORE], [("getters and exports", CORE)], ["all"])
p("C29", "Surveys of environments and tetrahedral voids list exactly the atoms meant",
  "compare_atomic_env tells the distinct Voronoi volumes (rounded to the precision asked for, in ascending order) of the atoms of a type with the number of atoms that have each, and their distinct Voronoi vectors, next to the volumes they belong to where they correspond one to one. find_tetrahedral_voids lists exactly the atoms whose Voronoi vector has four quadrangles and which have exactly four neighbors within the given fraction of the smallest neighbor distance, with their type, volume and position (in units of the cell vectors unless asked otherwise). What is printed and what is returned agree.",
  IC, "every structure file, atom type and precision",
  "not tested",
  ["src/pyscal/misc.py"], [("compare_atomic_env", "src/pyscal/misc.py"), ("find_tetrahedral_voids", "src/pyscal/misc.py")], ["compare_atomic_env", "find_tetrahedral_voids"])
p("C30", "An Atom holds what it was given, and travels through a System unchanged",
  "Every attribute of an Atom reads back as last assigned, and assigning one changes no other, except that new neighbors have weights of one and start without distances. Steinhardt parameters set by order, as list, or all at once are the same however they are read (get_q, allq, allaq, System.get_qvals). Values of the wrong kind or length and orders outside 2-12 are refused and change nothing. Assigned to a System of any size, set and fetched again, an atom has all its attributes; it is a copy, whose change does not reach the other until it is set.",
  ["histories", "inputs"], "every sequence of assignments to atoms, and of storing them in and fetching them from a System",
  "tests read and write a few attributes once",
  [ATOM, "src/pyscal/atom_binding.cpp", SYS, CORE], [("accessors of Atom", ATOM), ("System.atoms, get_atom, set_atom, iter_atoms", CORE)], ["attributes of Atom", "System.get_qvals"])
p("C31", "Energies from LAMMPS reach the atoms they belong to, and their averages",
  "calculate_energy hands LAMMPS the current cell, positions and types, with the pair style, coefficients and mass it is given, and sets the energy of each atom to the one LAMMPS tells for the atom at its place, whatever ids the atoms have and in whatever order LAMMPS lists them. With averaged=True, avg_energy is the mean over the atom and its neighbors: those found before, or else those of the adaptive cutoff. The name of a species may be given alone or in a list. Without LAMMPS, pair style or coefficients, or when LAMMPS fails, an error is raised and energies stay. Nothing else about the system changes, and no file is left behind.",
  ["inputs", "configurations", "fault_sequences"], "every system, ids of atoms, order of LAMMPS' answer, and failure of LAMMPS",
  "no test runs calculate_energy", [CORE, "src/pyscal/routines.py"], [("System.calculate_energy", CORE), ("get_energy_atom", "src/pyscal/routines.py")], ["Atom.energy", "Atom.avg_energy"])
p("C32", "Plots show each chosen atom once, in the cell and in its own color",
  "System.show draws the twelve edges of the cell and one marker for each atom for which filterby (an attribute or custom key; all atoms if not given) holds, at its position brought back into the cell by whole cell vectors, whatever the shape of the cell. With colorby (an attribute, custom key, or qx/aqx) the color of a marker is the value of its own atom. Every press of the button draws a figure of its own with the radius chosen. The system is unchanged.",
  ["inputs", "configurations", "histories"], "every system, choice of color and filter, and sequence of renderings",
  "no test plots a system", ["src/pyscal/visualization.py", CORE], [("plot_system, plot_3d, create_box_plot", "src/pyscal/visualization.py"), ("System.show", CORE)], ["the figure shown"])
with open("properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
