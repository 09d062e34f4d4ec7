"""What decides each property: driver, trace specification, exhaustive models, level."""

CHECKS = {}


def add(pid, driver, trace, models=(), level="model_checking", technique=None, assumptions=(), also=(), behaviours=(600, 4000)):
    """also: further (driver, trace) pairs; behaviours: how many are generated at random from the
    specification (quick, thorough), for drivers that replay those"""
    CHECKS[pid] = dict(pid=pid, parts=[(driver, trace)] + list(also), models=list(models), level=level,
                       technique=technique or "TLA+ specification: exhaustive TLC models, and recorded runs of the code validated against it by TLC",
                       assumptions=list(assumptions), behaviours=behaviours)


GRID = "positions and cells of the cases lie on a grid of 1/64 length units, so that expected results are exact"

add("C01", "nbr", "TraceNbr", ["MCCells"], assumptions=[GRID])
add("C02", "nbr", "TraceNbr", ["MCSelect"], assumptions=[GRID])
add("C03", "nbr", "TraceNbr", ["MCSelect"], assumptions=[GRID])
add("C04", "nbr", "TraceNbr", ["MCSelect"], assumptions=[GRID])
add("C05", "nbr", "TraceNbr", ["MCCells"], assumptions=[GRID])
ADDN = "bond order uses fixed point numbers with 20 bits: q_l^2 is compared to within 7e-4"
add("C07", "bond", "TraceBond", ["MCBond"], assumptions=[GRID, ADDN])
add("C08", "bond", "TraceBond", ["MCBond"], assumptions=[GRID, ADDN])
add("C09", "bond", "TraceBond", ["MCBond", "MCCluster"], assumptions=[GRID, ADDN])
add("C10", "bond", "TraceBond", ["MCCluster"], assumptions=[GRID, "clusters are looked at where the neighbor relation is mutual"])
add("C16", "bond", "TraceBond", ["MCBond"], assumptions=[GRID, ADDN])
CNAN = "atoms whose signature or order of neighbors is within rounding of a tie may have any of the labels that are then possible"
add("C11", "env", "TraceEnv", ["MCCna"], assumptions=[GRID, CNAN])
add("C12", "env", "TraceEnv", ["MCDiamond"], assumptions=[GRID, CNAN])
add("C13", "env", "TraceEnv", ["MCEnv"], assumptions=[GRID])
add("C14", "env", "TraceEnv", ["MCEnv"], assumptions=[GRID])
add("C15", "env", "TraceEnv", ["MCSro"], assumptions=[GRID])
FLT = "volumes, areas, entropies and distributions are compared as numbers with 15 bits: to 1 part in 100 (volumes, areas), 400 (entropy), 1200 (distribution)"
add("C06", "field", "TraceField", ["MCField"], assumptions=[GRID, FLT])
add("C17", "field", "TraceField", ["MCField"], assumptions=[GRID, FLT])
add("C18", "field", "TraceField", ["MCField"], assumptions=[GRID, FLT])
HIST = "behaviours of the machine in System.tla, generated by TLC (all up to a length, longer ones at random), replayed on Systems and judged step by step"
for pid in ("C19", "C20", "C27", "C28"):
    add(pid, "system", behaviours=(300 if pid == "C19" else 600, 4000), trace="TraceSystem", models=[("SystemGen", "MCSystem"), ("SystemGen", "Gen" + pid), ("SystemGen", "Gen" + pid + "Steps")]
        + ([("SystemGen", "GenC20Pairs")] if pid == "C20" else []),
        technique="TLA+ state machine: " + HIST, assumptions=[GRID, "real numbers of results are compared to within 3e-5"])
FILES = "what a file says is read by the recording harness word by word (numbers to integers), and interpreted by the specification"
add("C21", "files", "TraceFiles", ["MCFiles"], assumptions=[FILES, "boxes in dumps are oriented as LAMMPS requires"])
add("C22", "files", "TraceFiles", ["MCFiles"], assumptions=[FILES, "POSCAR files are read by way of ASE, whose reading is covered as used"])
add("C23", "traj", "TraceTraj", [("TrajGen", "MCTraj"), ("TrajGen", "GenC23"), ("TrajGen", "GenC23Steps")], behaviours=(800, 6000),
    technique="TLA+ state machine: behaviours of the machine in Trajectory.tla, generated by TLC (all up to a length, longer ones at random), replayed on trajectories and judged step by step",
    assumptions=[FILES, "all frames of a file have the same number of atoms"])
add("C24", "construct", "TraceConstruct", ["MCCrystal"], assumptions=["sites of the conventional cells lie on twelfths of the lattice constant"])
add("C25", "inv", "TraceInvariance", ["MCInvariance"], assumptions=["positions and cells lie on a grid of 1/1024 length units; real numbers are compared to within a few units of 1e-5",
    "a number of nearest atoms is told up to atoms at exactly the same distance"])
add("C26", "construct", "TraceConstruct", ["MCCrystal"], assumptions=[GRID])
add("C29", "survey", "TraceSurvey", ["MCSurvey"], assumptions=[GRID, "Voronoi cells are those a System finds for the same file, which C06 judges"])
add("C30", "atom", "TraceAtom", [("AtomGen", "MCAtom"), ("AtomGen", "GenC30"), ("AtomGen", "GenC30Steps")], behaviours=(300, 3000),
    technique="TLA+ state machine: behaviours of the machine in Atom.tla, generated by TLC (every operation between storing and fetching, longer ones at random), replayed on Atoms and a System and judged step by step",
    assumptions=["values assigned are multiples of 1/64"])
add("C31", "outside", "TraceOutside", ["MCOutside"], assumptions=["a stand-in for LAMMPS reads the data file, tells an energy for each place, and lists atoms in any order", "species are listed in alphabetical order"])
add("C32", "outside", "TraceOutside", ["MCOutside"], assumptions=[GRID, "buttons of the widget are pressed, and figures looked at, by the driver"])
