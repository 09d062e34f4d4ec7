"""C25: results for two descriptions of one periodic arrangement."""
import itertools, math
import numpy as np
from harness import pv
from harness.pv import THOROUGH, rng, attempt
from harness.drivers.env import primitive, stacked, random_stack

U = 1.0 / 1024          # fine grid: no two distances of a case are equal by accident


# ------------------------------------------------------------------------------- systems
def scaled(cell, pos, k=16):
    return [[k * x for x in v] for v in cell], [[k * x for x in p] for p in pos]


def first(r, m):
    """cell, positions, types, kind; a spacing of neighbors of 2.5 to 4 length units"""
    k = m % 10
    amp = r.choice([20, 60, 150])
    if k in (0, 1):
        cell, pos = [pv.fcc, pv.bcc][k]([2, 2, r.choice([2, 3])], 2 * r.randint(80, 120))
        kind = "crystal"
    elif k == 2:
        cell, pos = stacked(r, random_stack(r, r.choice([4, 6])), 2, 2 * r.randint(80, 110))
        kind = "crystal"
    elif k == 3:
        cell, pos = pv.diamond([2, 2, r.choice([1, 2])], 4 * r.randint(70, 90))
        kind = "diamond"
    elif k in (4, 5):
        cell, pos = primitive(["fcc", "bcc"][k - 4], [3, 3, r.choice([3, 4])], 2 * r.randint(90, 120))
        kind = "crystal"
    elif k == 6:
        n = r.choice([12, 30, 60])
        L = int(140 * n ** (1 / 3.))
        cell = pv.cell_lammps(r, L, L + 30)
        pos = pv.random_positions(r, cell, n, minsep=80)
        kind = "gas"
    elif k == 7:
        n = r.choice([12, 30, 60])
        L = int(140 * n ** (1 / 3.))
        cell = pv.cell_general(r, L, L + 30, lefthanded=r.random() < .5)
        pos = pv.random_positions(r, cell, n, minsep=80)
        kind = "gas"
    elif k == 8:
        n = r.choice([1, 3, 7])
        L = int(150 * max(2, n) ** (1 / 3.))
        cell = pv.cell_ortho(r, L, L + 30)
        pos = pv.random_positions(r, cell, n, minsep=80)
        kind = "few"
    else:
        cell, pos = [pv.fcc, pv.bcc][r.randrange(2)]([3, 3, r.choice([4, 6])], 2 * r.randint(80, 110))
        amp = r.choice([150, 300])
        kind = "crystal"
    cell, pos = scaled(cell, pos)
    if k not in (6, 7, 8):
        pos = pv.jitter(r, pos, amp)
        if k in (0, 1, 9) and r.random() < .4:          # a vacancy
            del pos[r.randrange(len(pos))]
    else:
        pos = pv.jitter(r, pos, 7)
    types = [r.choice([1, 1, 2]) for _ in pos]
    types[0] = 1
    if len(types) > 1:
        types[1] = 2
    return cell, pos, types, kind, amp


# ------------------------------------------------------------------------------- descriptions
ID = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def turns():
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            out.append([[s[i] if p[i] == k else 0 for k in range(3)] for i in range(3)])
    return out


TURNS = turns()


def other_cell(r, cell, wmin):
    """whole combinations of cell vectors that span the same lattice"""
    for _ in range(200):
        M = np.array(ID)
        for _ in range(r.randint(1, 4)):
            i, k = r.sample(range(3), 2)
            how = r.randrange(4)
            if how < 2:
                M[i] += r.choice([-1, 1]) * M[k]
            elif how == 2:
                M[[i, k]] = M[[k, i]]
            else:
                M[i] *= -1
        c = (M @ np.array(cell)).tolist()
        if M.tolist() != ID and min(pv.widths(c)) >= wmin:
            return M.tolist()
    return [[0, 1, 0], [0, 0, 1], [1, 0, 0]]


def second(r, how, cell, pos, types, wmin, reps=None):
    n = len(pos)
    w = {"R": ID, "M": ID, "shift": [0, 0, 0], "of": list(range(n)), "cells": [[0, 0, 0] for _ in range(n)]}
    if "turn" in how:
        w["R"] = r.choice(TURNS)
    if "cell" in how:
        w["M"] = other_cell(r, cell, wmin)
    if "repeat" in how:
        of, cells = [], []
        for m in itertools.product(*[range(k) for k in reps]):
            for j in range(n):
                of.append(j)
                cells.append([sum(m[i] * w["M"][i][k] for i in range(3)) for k in range(3)])
        w["M"] = [[reps[i] * x for x in w["M"][i]] for i in range(3)]
        w["of"], w["cells"] = of, cells
    if "move" in how:
        f = r.choice([1, 1, 2])
        for c in w["cells"]:
            s = [r.randint(-f, f) if r.random() < .5 else 0 for _ in range(3)]
            for k in range(3):
                c[k] += sum(s[i] * w["M"][i][k] for i in range(3))
    if "shift" in how:
        w["shift"] = [r.randint(-2 * 4096, 2 * 4096) for _ in range(3)]
    if "label" in how:
        p = list(range(len(w["of"])))
        r.shuffle(p)
        w["of"], w["cells"] = [w["of"][i] for i in p], [w["cells"][i] for i in p]
    R, M = np.array(w["R"]), np.array(w["M"])
    tc = np.array(cell) @ R.T
    b = {"cell": (M @ tc).tolist(),
         "pos": (np.array(pos)[w["of"]] @ R.T + np.array(w["cells"]) @ tc + np.array(w["shift"])).tolist(),
         "types": [types[i] for i in w["of"]]}
    w["of"] = [i + 1 for i in w["of"]]
    return b, w


# ------------------------------------------------------------------------------- results
def reach(cell, n):
    """half the smallest width of the periodic system that is searched"""
    ext = 1
    if n < 200:
        ext = 2 * math.ceil(int(math.ceil((200 - n) / n) ** (1 / 3.)) / 2) + 1
    return 0.49 * ext * min(pv.widths(cell))


class Results:
    def __init__(self, a, hosts):
        self.a, self.hosts, self.out = a, hosts, []

    def of(self, ids):
        s = pv.make_system(self.a["cell"], self.a["pos"], self.a["types"], unit=U, ids=ids)
        return s

    def atoms(self, s):
        return [s.get_atom(h) for h in self.hosts]

    def add(self, name, kind, tol, fn, ties=False, dep=""):
        v, err = attempt(fn)
        self.out.append((name, kind, tol, v if v is not None else [], err.split(":")[0], ties, dep))

    def scal(self, s, name, get, tol=2, scale=1e5, dep=""):
        def fn():
            out = []
            for a in self.atoms(s):
                v = get(a)
                v = list(v) if isinstance(v, (list, tuple, np.ndarray)) else [v]
                out.append([pv.q(x, scale) for x in v])
            return out
        self.add(name, "atom", tol, fn, dep=dep)

    def nbr(self, s, name, ties=False):
        def fn():
            allat = s.get_all_atoms()
            return [[{"v": pv.grid(v, U), "t": allat[i].type, "w": pv.q(w, 1e5)}
                     for i, v, w in zip(a.neighbors, a.neighbor_vector, a.neighbor_weights)] for a in self.atoms(s)]
        self.add(name, "nbr", 0, fn, ties)


def results(a, hosts, ids, p):
    """Everything that is compared, in the same order for any description."""
    R = Results(a, hosts)
    s = R.of(ids)
    t = p["tag"]
    if t == "cutoff":
        s.find_neighbors(method="cutoff", cutoff=p["cut"] * U, filter=p["filter"])
        R.nbr(s, "Neighbors")
        R.scal(s, "Coordination", lambda x: [x.coordination, x.cutoff])
        s.calculate_q(list(range(2, 13)), averaged=True)
        R.scal(s, "Q", lambda x: [x.get_q(l) for l in range(2, 13)])
        R.scal(s, "AveragedQ", lambda x: [x.get_q(l, averaged=True) for l in range(2, 13)])
        s.calculate_disorder(averaged=True, q=6)
        R.scal(s, "Disorder", lambda x: [x.disorder, x.avg_disorder])
        s.calculate_q(p["l"], averaged=True, condition=lambda x: x.type == 1)
        R.scal(s, "ConditionalQ", lambda x: [x.get_q(p["l"], averaged=True), x.condition])
        if p["filter"] is None:
            R.add("Sro", "sys", 2, lambda: pv.qv(s.calculate_sro(reference_type=1, average=True, shells=1), 1e5))
            R.scal(s, "SroAtoms", lambda x: x.sro if x.type == 1 else [])
            R.add("PmSro", "sys", 2, lambda: pv.qv(s.calculate_pmsro(reference_type=1, compare_type=2, shells=1), 1e5))
    elif t == "order":
        s.find_neighbors(method="cutoff", cutoff=p["cut"] * U)
        s.find_solids(bonds=p["bonds"], threshold=p["thr"], avgthreshold=p["avg"], cluster=False, right=p["right"])
        R.scal(s, "Solid", lambda x: [x.solid, x.bonds, x.avg_sij])
        if p["one"]:
            s.cluster_atoms("solid", largest=True)
            R.add("Clusters", "part", 0, lambda: [x.cluster for x in R.atoms(s)])
        s.cluster_atoms(lambda x: x.type == 2, largest=True, cutoff=p["near"] * U)
        if p["one"]:
            R.add("TypeClusters", "part", 0, lambda: [x.cluster for x in R.atoms(s)])
        R.scal(s, "Clustered", lambda x: [int(x.cluster != -1)])
    elif t == "angles":
        s.find_neighbors(method="cutoff", cutoff=p["cut"] * U)
        s.calculate_angularcriteria()
        ang = [list(pv.qv([x.angular], 1e5)) for x in R.atoms(s)]
        if p["chi"]:                # not where an atom has its own images as neighbors (chi-antiparallel)
            s.calculate_chiparams()
            R.scal(s, "Chi", lambda x: [int(y) for y in x.chiparams])
        s.find_neighbors(method="number", nmax=4, threshold=5)
        R.nbr(s, "Four", True)
        R.add("Angular", "atom", 2, lambda: ang, dep="Four")
    elif t == "entropy":
        s.find_neighbors(method="cutoff", cutoff=p["cut"] * U)
        s.calculate_entropy(p["cut"] * U, sigma=0.25, rstart=0.5, h=0.1, local=p["local"], averaged=True)
        R.scal(s, "Entropy", lambda x: [x.entropy, x.avg_entropy], tol=3, scale=1e4)
        s.calculate_entropy(p["cut"] * U, sigma=0.25, rstart=0.5, h=0.1, local=p["local"], averaged=True,
                            switching_function=True, ra=p["ra"] * p["cut"] * U, N=p["NM"][0], M=p["NM"][1])
        R.scal(s, "EntropySwitched", lambda x: [x.entropy, x.avg_entropy], tol=3, scale=1e4)
    elif t == "number":
        s.find_neighbors(method="number", nmax=p["nmax"], threshold=p["thr"])
        R.nbr(s, "Nearest", True)
        R.scal(s, "NearestCutoff", lambda x: [x.cutoff])
        s.calculate_q([4, 6, 7])
        R.scal(s, "NearestQ", lambda x: [x.get_q(l) for l in (4, 6, 7)], dep="Nearest")
    elif t in ("adaptive", "sann"):
        if t == "sann":
            s.find_neighbors(method="cutoff", cutoff="sann", threshold=p["thr"])
        else:
            s.find_neighbors(method="cutoff", cutoff=0, threshold=p["thr"], padding=p["pad"], nlimit=p["nlimit"])
        R.nbr(s, t, True)
        R.scal(s, t + "Cutoff", lambda x: [x.cutoff, x.coordination])
        s.calculate_q([6], averaged=True)
        R.scal(s, t + "Q", lambda x: [x.get_q(6), x.get_q(6, averaged=True)], dep=t)
    elif t == "voronoi":
        s.find_neighbors(method="voronoi", voroexp=p["exp"])
        R.scal(s, "Volume", lambda x: [x.volume, x.avg_volume], tol=3, scale=1e4)
        R.nbr(s, "Voronoi")
        s.calculate_vorovector()
        R.scal(s, "VoroVector", lambda x: [int(y) for y in x.vorovector])
        s.calculate_q([4, 6], averaged=True)
        R.scal(s, "VoroQ", lambda x: [x.get_q(4), x.get_q(6)])
        R.scal(s, "VoroAveragedQ", lambda x: [x.get_q(4, averaged=True), x.get_q(6, averaged=True)])
    elif t == "cna":
        R.add("CnaCounts", "count", 0, lambda: [v for k, v in sorted(s.calculate_cna(lattice_constant=p["lat"]).items())])
        R.scal(s, "Cna", lambda x: [x.structure])
    elif t == "diamond":
        R.add("DiamondCounts", "count", 0, lambda: [v for k, v in sorted(s.identify_diamond().items())])
        R.scal(s, "Diamond", lambda x: [x.structure])
    elif t == "csm":
        s.calculate_centrosymmetry(nmax=p["nmax"])
        csm = [list(pv.qv([x.centrosymmetry], 1e4)) for x in R.atoms(s)]
        s.find_neighbors(method="number", nmax=p["nmax"], threshold=5)
        R.nbr(s, "Even", True)
        R.add("Centrosymmetry", "atom", 3, lambda: csm, dep="Even")
    elif t == "rdf":
        R.add("Rdf", "sys", 3, lambda: pv.qv(s.calculate_rdf(histobins=p["bins"], histomin=0.013, histomax=p["cut"] * U)[0], 1e4))
    elif t == "composition":
        R.add("Concentration", "count", 0, lambda: [int(v) for k, v in sorted(s.get_concentration().items())])
    return R.out


def calculations(r, kind, n, W, spacing, one):
    """what to compare; W: half width, spacing: mean distance of neighbors"""
    cut = lambda lo, hi: int(min(r.uniform(lo, hi) * spacing, W)) + .5
    base = cut(1.05, 1.9)
    if base < 0.5 * spacing:
        return []
    p = [dict(tag="cutoff", cut=base, filter=r.choice([None, None, "type", "type_r"]), l=r.choice([4, 6, 9])),
         dict(tag="order", cut=base, bonds=r.choice([0.5, 4, 6]), thr=r.choice([.3, .5]), avg=r.choice([.2, .5]),
              right=r.random() < .7, one=one, near=int(r.uniform(.7, 1.2) * base) + .25),
         dict(tag="composition")]
    if n > 1 or W > 2.5 * spacing:
        thr = r.choice([2, 3, 4])
        if W > 1.9 * spacing:
            p += [dict(tag="number", nmax=r.choice([4, 7, 12]), thr=thr),
                  dict(tag="adaptive", thr=thr, pad=r.choice([1.2, 1.4]), nlimit=r.choice([4, 6])),
                  dict(tag="sann", thr=thr), dict(tag="csm", nmax=r.choice([4, 8, 12])),
                  dict(tag="angles", cut=cut(1.6, 1.9), chi=kind != "few"), dict(tag="cna", lat=None)]
            if kind == "crystal":
                p.append(dict(tag="cna", lat=r.uniform(1.35, 1.5) * spacing * U))
            if kind == "diamond" or r.random() < .2:
                p.append(dict(tag="diamond"))
        p.append(dict(tag="entropy", cut=cut(1.5, 2.5), local=r.random() < .4, ra=r.choice([0.61, 0.83]), NM=r.choice([(6, 12), (3, 8)])))
        if one:                     # the normalisation is by the number of atoms searched
            p.append(dict(tag="rdf", cut=cut(1.5, 2.5), bins=r.choice([20, 50])))
        p.append(dict(tag="voronoi", exp=r.choice([1, 1, 2, 3])))
    return p


HOWS = [("shift",), ("label",), ("move",), ("cell",), ("repeat",), ("turn",), ("shift", "label"), ("cell", "shift"),
        ("repeat", "label"), ("move", "shift"), ("repeat", "cell"), ("turn", "move"), ("turn", "cell", "label"),
        ("shift", "label", "move", "cell", "turn"), ("shift", "label", "move", "cell", "turn", "repeat")]


def run(rec):
    for m in range(104 if not THOROUGH else 700):
        r = rng("inv", m)
        cell, pos, types, kind, amp = first(r, m)
        n = len(pos)
        how = HOWS[(m // 10 + m) % len(HOWS)]
        reps = None
        if "repeat" in how:
            reps = r.choice([[2, 1, 1], [1, 3, 1], [1, 1, 2], [2, 2, 1], [2, 2, 2]])
            if kind == "few":
                reps = [r.randint(2, 4) for _ in range(3)]
            while n * np.prod(reps) > (300 if not THOROUGH else 600):
                reps[reps.index(max(reps))] -= 1
            if (m == 44 or THOROUGH and m % 40 == 4) and kind == "crystal":      # more than enough atoms for cell lists
                k = math.ceil((4100 / n) ** (1 / 3.))
                reps = [k, k, k]
        spacing = (abs(pv.det3(cell)) / n) ** (1 / 3.) * {"crystal": 1.12, "diamond": .87}.get(kind, 1.0)
        b, w = second(r, how, cell, pos, types, 0.7 * min(pv.widths(cell)), reps)
        a = {"cell": cell, "pos": pos, "types": types}
        W = min(reach(cell, n), reach(b["cell"], len(b["pos"])))
        if not rec.start({"arrangement": m, "kind": kind, "how": list(how), "n": n, "reps": reps}):
            continue
        hosts = list(range(len(b["pos"])))
        if len(hosts) > 90:
            hosts = sorted(r.sample(hosts, 90))
        ids = r.sample(range(1, 10 * len(b["pos"])), len(b["pos"])) if "label" in how else None
        calc = calculations(r, kind, n, W, spacing, "repeat" not in how)
        if len(b["pos"]) > 1000:
            calc = [c for c in calc if c["tag"] in ("cutoff", "number", "adaptive", "sann", "csm", "cna")][:8]
        q = []
        for c in calc:
            x, ea = attempt(lambda: results(a, list(range(n)), None, c))
            y, eb = attempt(lambda: results(b, hosts, ids, c))
            if ea or eb:
                q.append({"name": c["tag"], "kind": "sys", "tol": 0, "a": [], "b": [], "erra": ea.split(":")[0], "errb": eb.split(":")[0], "ties": False, "dep": ""})
                continue
            for u, v in zip(x, y):
                q.append({"name": u[0], "kind": u[1], "tol": u[2], "a": u[3], "b": v[3], "erra": u[4], "errb": v[4], "ties": u[5], "dep": u[6]})
        rec.case({"kind": kind, "how": list(how), "a": a, "b": b, "w": w, "hosts": [h + 1 for h in hosts], "q": q,
                  "calc": [c["tag"] for c in calc]},
                 [kind, "+".join(how)] + [c["tag"] for c in calc])


if __name__ == "__main__":
    pv.main(run)
