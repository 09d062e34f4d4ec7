"""C19, C20, C27, C28: histories of operations on a System, generated from the specification."""
import hashlib, json, os, re, sys
import numpy as np
from harness import pv
from harness.pv import UNIT, rng, attempt, BIG

LIMIT = 24          # atoms whose results are looked at in large systems


def histories(pattern):
    """Behaviours that TLC wrote."""
    out = []
    work = os.environ.get("VERIF_WORK", ".")
    for f in sorted(os.listdir(work)):
        if re.match(pattern, f):
            for line in open(os.path.join(work, f)):
                m = re.match(r'"HIST (.*)"$', line.strip())
                if m:
                    out.append(json.loads(m.group(1).replace('\\"', '"')))
    return out


# ---------------------------------------------------------------------------------------
def tilt_of(box, r):
    b = [list(v) for v in box]
    m = box[0][0] // 4
    b[1][0], b[2][0], b[2][1] = (r.choice([-1, 1]) * r.randint(m // 2, m) for _ in range(3))
    return b


def arrangement(k, r):
    if k == 1:
        box = pv.cell_ortho(r, 240, 300)
        pos = pv.random_positions(r, box, 12, minsep=70)
    elif k == 2:
        box = tilt_of(pv.cell_ortho(r, 240, 300), r)
        pos = pv.random_positions(r, box, 10, minsep=60)
    elif k == 3:
        box, pos = pv.fcc(2, 128)
        pos = pv.jitter(r, pos, 6)
    else:
        box = pv.cell_ortho(r, 600, 660)
        pos = pv.random_positions(r, box, r.choice([197, 198, 203]), minsep=60)
    n = len(pos)
    types = [r.choice([1, 1, 2]) for _ in range(n)]
    types[0], types[1] = 1, 2
    atoms = [{"p": p, "t": t, "id": i, "c": 0} for p, t, i in zip(pos, types, r.sample(range(1, 3 * n), n))]
    big = [[x + (20 if i == j else 0) for j, x in enumerate(v)] for i, v in enumerate(box)]
    new = pv.random_positions(r, box, n + 5, minsep=24) if k != 4 else pv.random_positions(r, box, 5, minsep=24)
    new = [p for p in new if all(abs(p[c] - q[c]) > 0 for q in pos for c in range(3))][:5]
    mk = lambda ps, i0: [{"p": p, "t": r.choice([1, 2]), "id": i0 + i, "c": 0} for i, p in enumerate(ps)]
    return {"box": box, "alt": [big, tilt_of(big, r)], "atoms": atoms, "extra": [mk(new[:3], 10001), mk(new[3:], 20001)]}


def make_atoms(recs):
    from pyscal.catom import Atom
    out = []
    for a in recs:
        x = Atom(pos=[v * UNIT for v in a["p"]], id=a["id"], type=a["t"])
        x.custom = {"c": a["c"]}
        out.append(x)
    return out


def ubox(b):
    return [[x * UNIT for x in v] for v in b]


# ---------------------------------------------------------------------------------------
class Run:
    """A System together with what the operations refer to."""

    def __init__(self, case, base=None):
        self.case = case
        self.s = pv.core().System()
        self.k = None
        if base is not None:
            self.k = base["k"]
            self.s.box = ubox(base["box"])
            self.s.atoms = make_atoms(base["atoms"])

    def do(self, op):
        """Performs an operation; returns what it reports beyond the attributes of atoms."""
        s, o, k, m = self.s, op["o"], op["k"], op["m"]
        C = self.case
        if o == "assign":
            self.k = k
            a = C["arr"][k - 1]
            s.box = ubox(a["box"])
            s.atoms = make_atoms(a["atoms"])
        elif o == "rebox":
            s.box = ubox(C["arr"][self.k - 1]["alt"][k - 1])
        elif o == "add":
            s.add_atoms(make_atoms(C["arr"][self.k - 1]["extra"][k - 1]))
        elif o == "setpos":
            a = s.get_atom(k - 1 if k else s.natoms - 1)
            a.pos = [x + y * UNIT for x, y in zip(a.pos, C["moves"][m - 1])]
            s.set_atom(a)
        elif o == "settype":
            a = s.get_atom(k - 1 if k else s.natoms - 1)
            a.type = m
            s.set_atom(a)
        elif o == "setcustom":
            a = s.get_atom(k - 1 if k else s.natoms - 1)
            a.custom = {"c": m}
            s.set_atom(a)
        elif o == "reassign":
            s.atoms = s.atoms
        elif o == "cut":
            s.find_neighbors(method="cutoff", cutoff=(C["cuts"][k - 1] + .5) * UNIT, filter=[None, "type"][m])
        elif o == "num":
            s.find_neighbors(method="number", nmax=k, threshold=5, filter=[None, "type", "type_r"][m])
        elif o == "adp":
            s.find_neighbors(method="cutoff", cutoff="adaptive", threshold=5, padding=[1.2, 1.35][k - 1], nlimit=[6, 4][k - 1])
        elif o == "sann":
            s.find_neighbors(method="cutoff", cutoff="sann", threshold=4)
        elif o == "vor":
            s.find_neighbors(method="voronoi", voroexp=k)
        elif o == "reset":
            s.reset_neighbors()
        elif o == "q":
            s.calculate_q(k)
        elif o == "qav":
            s.calculate_q([k], averaged=True)
        elif o == "qcond":
            s.calculate_q(k, averaged=True, condition=lambda a: a.type == 1)
        elif o == "clear":
            s.calculate_q(k, clear_condition=True)
        elif o == "aq":
            s.calculate_q(k, only_averaged=True)
        elif o == "solid":
            if k == 1:
                return s.find_solids(bonds=4, threshold=0.2, avgthreshold=0.1)
            return s.find_solids(bonds=0.5, threshold=0.4, avgthreshold=0.3, right=False, cluster=False)
        elif o == "clus":
            if k == 1:
                return s.cluster_atoms("solid")
            return s.cluster_atoms(lambda a: a.type == 1, cutoff=0 if k == 2 else (C["cuts"][0] - 9.5) * UNIT)
        elif o == "dis":
            s.calculate_disorder(averaged=True, q=k)
        elif o == "ang":
            s.calculate_angularcriteria()
        elif o == "chi":
            s.calculate_chiparams()
        elif o == "sro":
            return [float(x) for x in s.calculate_sro(reference_type=k, shells=2)]
        elif o == "pm":
            return [float(x) for x in s.calculate_pmsro(reference_type=1, compare_type=k, shells=2)]
        elif o == "ent":
            s.calculate_entropy(3.0, sigma=0.25, rstart=0.4, h=0.05, local=(k == 2), averaged=True)
        elif o == "vv":
            s.calculate_vorovector()
        elif o == "cna":
            return s.calculate_cna(lattice_constant=None if k == 0 else 2.1)
        elif o == "dia":
            return s.identify_diamond()
        elif o == "csm":
            s.calculate_centrosymmetry(nmax=k)
        elif o == "rdf":
            g, x = s.calculate_rdf(histobins=20, histomin=0.25 * UNIT, histomax=(C["cuts"][1] + 30.5) * UNIT)
            return [float(v) for v in g]
        elif o == "pairs":
            return sorted(s.get_pairdistances())[:200]
        elif o == "fail":
            if k == 1:
                s.find_neighbors(method="number", nmax=190, threshold=1)
            elif k == 2:
                s.find_neighbors(method="cutoff", cutoff="adaptive", threshold=1, nlimit=150)
            else:
                s.find_neighbors(method="number", nmax=150, threshold=1.1, filter="type_r")
        elif o == "bad":
            BAD[(k - 1) % len(BAD)](s)
        else:
            return QUERY[o](s)


def _raise(x):
    raise x


def _set_far(s):
    a = s.get_atom(0)
    a.loc = s.ntotal + 5
    s.set_atom(a)


def _assign(s, name, v):
    setattr(s, name, v)


def _crystal(name, **kw):
    import pyscal.crystal_structures as pcs
    return pcs.make_crystal(name, **kw)


def _traj():
    from pyscal.trajectory import Trajectory
    return Trajectory("no-such-file.dump")


BAD = [
    lambda s: s.find_neighbors(method="nonsense", cutoff=2.0),
    lambda s: s.find_neighbors(method="cutoff"),
    lambda s: s.find_neighbors(method="number", nmax=6, threshold=0.5),
    lambda s: s.find_neighbors(method="cutoff", cutoff="sann", threshold=0),
    lambda s: s.find_neighbors(method="cutoff", cutoff=0, threshold=0.9),
    lambda s: s.find_neighbors(method="cutoff", cutoff=2.0, filter="bogus"),
    lambda s: s.calculate_q(1),
    lambda s: s.calculate_q(13),
    lambda s: s.calculate_q([6, 14]),
    lambda s: s.calculate_q(6, condition="nonexistent"),
    lambda s: s.calculate_q(6, condition=lambda a: 5),
    lambda s: s.find_solids(q=1),
    lambda s: s.find_solids(q=6.5),
    lambda s: s.find_solids(threshold=2),
    lambda s: s.find_solids(avgthreshold=-0.1),
    lambda s: s.find_solids(bonds=1.5),
    lambda s: s.find_solids(bonds="six"),
    lambda s: s.find_solids(threshold="high"),
    lambda s: s.cluster_atoms("nonexistent"),
    lambda s: s.cluster_atoms(lambda a: 7),
    lambda s: s.calculate_centrosymmetry(nmax=3),
    lambda s: s.calculate_centrosymmetry(nmax=-2),
    lambda s: s.calculate_disorder(q=13),
    lambda s: s.calculate_sro(reference_type=5),
    lambda s: s.calculate_pmsro(reference_type=9),
    lambda s: s.calculate_pmsro(reference_type=1, compare_type=9),
    lambda s: s.get_qvals(1),
    lambda s: s.get_qvals([4, 20], averaged=True),
    lambda s: s.read_inputfile("no-such-file.dat"),
    lambda s: s.read_inputfile("no-such-file.dat", format="poscar"),
    lambda s: s.read_inputfile("no-such-file.dat", format="nonsense"),
    lambda s: s.to_file("refused.dat", format="nonsense"),
    lambda s: s.to_file("refused.dat", customkeys=["c"], customvals=[[1, 2], [3, 4]]),
    lambda s: s.to_file("refused.dat", customkeys=["nonexistent"]),
    lambda s: s.get_atom(s.ntotal),
    lambda s: s.get_atom(-1),
    _set_far,
    lambda s: _assign(s, "atoms", []),
    lambda s: s.get_custom(s.get_atom(0), ["nonexistent"]),
    lambda s: s.to_ase(["A", "B", "C", "D", "E"]),
]


def q_rep(s):
    out = s.repeat((1, 1, 0), scale_box=False)
    out[0].pos = [0.1, 0.2, 0.3]
    return None


def q_mutatoms(s):
    for a in s.atoms:
        a.pos = [9.0, 9.5, 9.25]
        a.type = 77
        a.id = 5
        a.neighbors = [0, 1]
        a.cluster = 99
        a.solid = 1
        a.condition = 1
        a.set_q(6, 0.77)
    l = s.atoms
    del l[0]


def q_mutatom(s):
    a = s.get_atom(1)
    a.pos = [1.0, 1.0, 1.0]
    a.type = 5
    a.structure = 9
    p = a.pos
    p[0] = 7
    for b in s.iter_atoms():
        b.type = 8


def q_mutbox(s):
    b = s.box
    b[0][0] = 1000.0
    b[1] = [0, 0, 0]


def q_lists(s):
    a = s.get_atom(0)
    for l in (a.neighbors, a.neighbor_distance, a.neighbor_vector, a.neighbor_weights, a.pos, a.allq, a.sij):
        if len(l):
            l[0] = l[-1]
            del l[-1]
    qv = s.get_qvals(6)
    qv[0] = 12.0


def q_file(s):
    s.to_file("out.dump")
    s.to_file("out.dump", customkeys=["c", "condition"])
    s.to_file("out.dump.gz", compressed=True)
    os.remove("out.dump")


def q_poscar(s):
    s.to_file("out.poscar", format="poscar", species=["Fe", "Ni"][:len(set(a.type for a in s.atoms))])


def q_ase(s):
    sp = ["Fe", "Ni", "Cu"][:len(set(a.type for a in s.atoms))]
    x = s.to_ase(sp)
    x.positions += 1


QUERY = {
    "getq": lambda s: (s.get_qvals(4), s.get_qvals([4, 6], averaged=True), s.get_atom(0).get_q(6), s.get_atom(0).get_qlm(6)) and None,
    "dist": lambda s: (s.get_distance(s.get_atom(0), s.get_atom(1)), s.get_distance(s.get_atom(2), s.get_atom(1), vector=True)) and None,
    "conc": lambda s: s.get_concentration() and None,
    "file": q_file, "poscar": q_poscar, "ase": q_ase, "rep": q_rep, "mutatoms": q_mutatoms, "mutatom": q_mutatom,
    "mutbox": q_mutbox, "lists": q_lists,
    "custom": lambda s: s.get_custom(s.get_atom(1), ["c", "q6", "volume"]) and None,
    "iter": lambda s: [a.pos for a in s.iter_atoms()] and None,
}


# ---------------------------------------------------------------------------------------
FIELDS = {
    "nbr": lambda a: (a.neighbors, a.neighbor_distance, a.neighbor_vector, a.coordination, a.neighbor_weights),
    "cutoff": lambda a: a.cutoff,
    "cond": lambda a: a.condition,
    "q": lambda a: (a.allq, a.get_qlm(6), a.get_qlm(4)),
    "aq": lambda a: (a.allaq, a.get_qlm(6, averaged=True)),
    "sij": lambda a: (a.sij, a.avg_sij),
    "solid": lambda a: a.solid,
    "bonds": lambda a: a.bonds,
    "cluster": lambda a: a.cluster,
    "largest": lambda a: a.largest_cluster,
    "structure": lambda a: a.structure,
    "vol": lambda a: (a.volume, a.avg_volume),
    "geom": lambda a: (a.face_vertices, a.face_perimeters, a.vertex_numbers, a.vertex_vectors, a.vertex_positions),
    "vv": lambda a: (list(a.vorovector), a.edge_lengths),
    "dis": lambda a: a.disorder,
    "avdis": lambda a: a.avg_disorder,
    "ang": lambda a: a.angular,
    "chi": lambda a: [int(x) for x in a.chiparams],
    "csm": lambda a: a.centrosymmetry,
    "sro": lambda a: a.sro,
    "ent": lambda a: (a.entropy, a.avg_entropy),
}


def snapshot(s):
    """One word for each field: it changes whenever the field of some atom does."""
    atoms = s.atoms[:60]
    out = {}
    for f, fn in FIELDS.items():
        h = hashlib.sha1()
        for a in atoms:
            h.update(repr(fn(a)).encode())
        out[f] = h.hexdigest()[:10]
    return out


def base_obs(s):
    """Atoms and box, by every way of looking at them."""
    at = s.atoms
    recs = [{"p": pv.grid(a.pos), "t": int(a.type), "id": int(a.id), "c": int(a.custom.get("c", -9)) if len(a.custom) == 1 else -8} for a in at]
    same = len(at) == s.natoms == len(list(s.iter_atoms()))
    for i, (a, b) in enumerate(zip(at, s.iter_atoms())):
        g = s.get_atom(i)
        same = same and g.pos == a.pos == b.pos and g.id == a.id == b.id and g.type == a.type and g.loc == a.loc == i
    return {"box": [pv.grid(v) for v in s.box], "atoms": recs, "same": bool(same)}


def neighbors_of(atoms):
    out = []
    for a in atoms:
        l = sorted((pv.grid(v), pv.q(d, 1e5), pv.q(w, 1e5)) for v, d, w in zip(a.neighbor_vector, a.neighbor_distance, a.neighbor_weights))
        out += [a.coordination, len(a.neighbors)] + [x for v, d, w in l for x in v + [d, w]]
    return out


def clusters_of(atoms):
    first = {}
    return [(-1 if a.cluster == -1 else first.setdefault(a.cluster, i)) for i, a in enumerate(atoms)]


def sorted_sij(atoms):
    out = []
    for a in atoms:
        l = sorted((pv.grid(v), pv.q(x, 1e5)) for v, x in zip(a.neighbor_vector, a.sij))
        out += [x for v, y in l for x in [y]]
    return out


def observe(op, run, ret):
    """Everything that the operation reports, as integers."""
    s, o = run.s, op["o"]
    full = s.atoms
    atoms = full[:LIMIT]
    Q = lambda xs, sc=1e5: [pv.q(x, sc) for x in xs]
    if o in ("cut", "num", "adp", "sann", "reset", "vor"):
        out = neighbors_of(atoms) + Q(a.cutoff for a in atoms) + [a.condition for a in atoms]
        if o == "vor":
            out += Q([a.volume for a in atoms] + [a.avg_volume for a in atoms])
            for a in atoms:
                out += sorted(a.face_vertices) + [len(a.vertex_numbers), len(a.vertex_vectors), len(a.vertex_positions)]
        return out
    if o in ("q", "qcond", "qav", "clear", "aq"):
        out = []
        if o != "aq":
            out += Q(s.get_qvals(op["k"])[:LIMIT]) + Q(a.get_q(op["k"]) for a in atoms)
        if o in ("qcond", "qav", "aq"):
            out += Q(s.get_qvals(op["k"], averaged=True)[:LIMIT])
        return out
    if o == "solid":
        out = [a.solid for a in full] + [a.bonds for a in full] + Q(a.avg_sij for a in atoms) + sorted_sij(atoms)
        if op["k"] == 1:
            out += clusters_of(full) + [int(ret)] + largest_of(full)
        return [int(x) for x in out]
    if o == "clus":
        return [int(ret)] + clusters_of(full) + largest_of(full)
    if o == "dis":
        return Q([a.disorder for a in atoms] + [a.avg_disorder for a in atoms])
    if o == "ang":
        return Q(a.angular for a in atoms)
    if o == "chi":
        return [int(x) for a in atoms for x in a.chiparams]
    if o in ("sro", "pm"):
        ref = op["k"] if o == "sro" else 1
        return Q(ret) + Q(x for a in atoms if a.type == ref for x in a.sro)
    if o == "ent":
        return Q([a.entropy for a in atoms] + [a.avg_entropy for a in atoms], 1e4)
    if o == "vv":
        return [int(x) for a in atoms for x in a.vorovector] + Q(sorted(x for a in atoms for e in a.edge_lengths for x in e), 1e4)
    if o in ("cna", "dia"):
        return [int(ret[k]) for k in sorted(ret)] + [a.structure for a in full]
    if o == "csm":
        return Q(a.centrosymmetry for a in atoms)
    if o in ("rdf", "pairs"):
        return Q(ret)
    return []


def largest_of(atoms):
    """flags of the largest cluster; which of several equally large ones is chosen is left open"""
    sizes = {}
    for a in atoms:
        if a.cluster != -1:
            sizes[a.cluster] = sizes.get(a.cluster, 0) + 1
    top = sorted(sizes.values())[-2:]
    if len(top) == 2 and top[0] == top[1]:
        return [sum(bool(a.largest_cluster) for a in atoms)]
    return [int(bool(a.largest_cluster)) for a in atoms]


# ---------------------------------------------------------------------------------------
class Machine:
    """The part of System.tla that says which operations make up the recipe of a result; TLC
    derives the same again when it judges the case."""
    SEARCH = ("cut", "num", "adp", "sann", "vor")
    AUX = ("cna", "dia", "csm")
    STRUCT = ("assign", "rebox", "add", "setpos", "settype", "setcustom", "reassign")

    def __init__(self):
        self.reset([])

    def reset(self, nb):
        self.nb, self.cond, self.q, self.qc, self.sol = nb, [], {4: [], 6: []}, {4: [], 6: []}, []
        self.ext = getattr(self, "ext", False)

    def recipe(self, op):
        o, k = op["o"], op["k"]
        known = self.nb and self.nb != "stale"
        if o in self.SEARCH + self.AUX:
            return [op]
        if o in ("q", "qav", "solid"):
            return self.nb + self.cond + [op] if known else []
        if o in ("qcond", "clear", "ang", "chi", "ent", "sro", "pm", "vv"):
            return self.nb + [op] if known else []
        if o == "aq":
            return self.q[k] + [op] if self.q[k] and self.qc[k] == self.cond else []
        if o == "dis":
            return self.q[k] + [op] if self.q[k] else []
        if o == "clus":
            if not known:
                return []
            return (self.sol + [op] if self.sol else []) if k == 1 else self.nb + [op]
        if o in ("rdf", "pairs"):
            return [] if self.ext else [op]
        return []

    def apply(self, op, failed):
        o, k = op["o"], op["k"]
        rec = self.recipe(op)
        if o == "setcustom":
            return
        if o in self.STRUCT:
            self.reset([] if self.nb == [] else "stale")
            if o in ("assign", "reassign", "rebox", "add"):
                self.ext = False
        elif o in self.SEARCH + self.AUX:
            self.reset([] if failed else [op])
            self.ext = self.ext or o == "vor"
        elif o in ("reset", "fail"):
            self.reset([])
        elif failed:
            return
        elif o in ("q", "qav"):
            self.q[k], self.qc[k] = rec, self.cond
        elif o == "qcond":
            self.q[k], self.cond, self.qc[k] = rec, [op], [op]
        elif o == "clear":
            self.q[k], self.cond, self.qc[k] = rec, [], []
        elif o == "solid":
            self.q[6], self.qc[6], self.sol = rec, self.cond, rec


def play(case, hist):
    """Runs a history; records every step."""
    run, steps, m = Run(case), [], Machine()
    cache = {}
    for op in hist:
        recipe = m.recipe(op)
        ret, err = attempt(lambda: run.do(op))
        name = err.split(":")[0]
        m.apply(op, bool(err))
        st = {"op": op, "err": name, "msg": err[:120], "obs": [], "ref": [], "recipe": recipe, "referr": ""}
        st["base"] = base_obs(run.s)
        st["h"] = snapshot(run.s)
        if op["o"] == "reset":
            st["obs"] = [run.s.get_atom(i).coordination + len(run.s.get_atom(i).neighbors) + len(run.s.get_atom(i).neighbor_distance)
                         + len(run.s.get_atom(i).neighbor_vector) for i in range(run.s.natoms)]
        if recipe:
            if not err:
                st["obs"] = observe(op, run, ret)
            b = dict(st["base"], k=run.k)
            key = json.dumps([b, recipe])
            if key not in cache:
                fresh = Run(case, b)

                def go():
                    x = None
                    for p in recipe:
                        x = fresh.do(p)
                    return observe(op, fresh, x)
                r, e = attempt(go)
                cache[key] = (r or [], e.split(":")[0])
            st["ref"], st["referr"] = cache[key]
        steps.append(st)
    return steps


def make_case(r, ks):
    arr = [arrangement(k, r) if k in ks else None for k in (1, 2, 3, 4)]
    arr = [a if a else {"box": [], "alt": [], "atoms": [], "extra": []} for a in arr]
    return {"arr": arr, "cuts": [r.randint(105, 112), r.randint(125, 140)],
            "moves": [[r.randint(-30, 30) for _ in range(3)] for _ in range(2)]}


def run(rec):
    prop = sys.argv[2]
    hists = histories(r".*Gen%s.*\.log$" % prop)
    if not hists:
        raise SystemExit("no histories of the specification")
    seen = set()
    for i, h in enumerate(hists):
        key = json.dumps(h)
        if key in seen:
            continue
        seen.add(key)
        if not rec.start({"history": [[x["o"], x["k"], x["m"]] for x in h]}):
            continue
        r = rng("system", prop, i)
        case = make_case(r, {x["k"] for x in h if x["o"] == "assign"})
        rec.case(dict(case, steps=play(case, h)), tags=sorted({x["o"] for x in h}))


if __name__ == "__main__":
    pv.main(run)
