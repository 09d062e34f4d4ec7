#!/opt/venv/bin/python
"""Updates the "fixed" list of known-findings.json from the fix: commits of /repo (run from /verif)."""
import json, subprocess
KEYS = [("new atoms had no initial", "C30"), ("lists of the wrong length", "C30"), ("calculate_energy", "C31"), ("averaged energies", "C31"), ("filtered out of a plot", "C32"), ("plotting again", "C32"), ("plotted outside the box", "C32"), ("switching function", "C17"), ("uses whole cell vectors", "C26"), ("compare_atomic_env", "C29"), ("tetrahedral_voids", "C29"), ("repeat gives new atoms", "C26"), ("one and a half boxes", "C05"), ("Voronoi tessellation of tri", "C06"), ("Voronoi neighbors of tri", "C06"), ("Voronoi cells of images", "C25"), ("boxes whose components add", "C25"),
        ("out of range read", "C27"), ("images of an atom stayed", "C20"), ("unknown methods and filters", "C27"),
        ("a neighbor search that failed", "C27"), ("assigning an empty list", "C27"), ("changing the box returned", "C28"), ("frenkel", "C09"), ("right keyword", "C09"), ("calculate_disorder", "C16"), ("local entropy", "C17"),
        ("entropy is not NaN", "C17"), ("sann", "C04"), ("adaptive neighbors after voronoi", "C20"),
        ("vertex_positions", "C20"), ("cna mixed", "C20"), ("cna and centro", "C11"), ("cell lists were used", "C01"),
        ("more than a box length", "C01"), ("never released", "C20"), ("the filter of voronoi", "C02"),
        ("number and sann neighbors", "C02"), ("number neighbors left", "C03"), ("set_atom wrote", "C19"),
        ("without any cluster", "C10"), ("more than 300", "C01"), ("methods that modify", "C10"),
        ("calculate_angularcriteria", "C14"), ("voronoi cells of triclinic", "C06"), ("a new box", "C19"),
        ("extract_cubic", "C26"), ("atoms added", "C19"), ("rdf", "C18"), ("remap_atoms", "C26"), ("clusters", "C10"),
        ("Atom.bonds", "C09"), ("loc of atoms", "C22"), ("origin of triclinic", "C22"), ("tilt", "C21"),
        ("conversion to ase", "C21"), ("every format", "C21"), ("adding time slices", "C23"), ("iteration over", "C23"),
        ("blocks", "C23"), ("to_dict", "C23"), ("short range order", "C15"), ("volume of cells", "C03"),
        ("adaptive cutoff", "C04"), ("distances in small", "C05"), ("kept the cutoff", "C20"),
        ("write_snap", "C21"), ("tetrahedral", "C29"), ("condition of a clustering", "C20"), ("cutoff given for one clustering", "C20"), ("negative m", "C07"), ("cna in narrow", "C11"), ("area cutoff of calculate_vorovector", "C06")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s", "d074442..HEAD"], capture_output=True, text=True).stdout
out = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    p = [v for k, v in KEYS if k in s]
    if not p:
        print("no property for", s)
        continue
    out.append("fixed: property=%s %s %s" % (p[0], h[:10], s[5:]))
k = json.load(open("known-findings.json"))
k["fixed"] = out
json.dump(k, open("known-findings.json", "w"), indent=1)
print(len(out))
