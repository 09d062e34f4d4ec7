"""C06, C17, C18: Voronoi cells, entropy, radial distribution."""
import math, sys
import numpy as np
from harness import pv
from harness.pv import UNIT, rng, attempt
from harness.drivers.nbr import structures, reach, K_for, inner_reps, outside
from harness.drivers.bond import linklists, shell_cut
from harness.drivers.env import cna_structures, dia_structures


def is_ortho(cell):
    return not any(cell[i][j] for i in range(3) for j in range(3) if i != j)


def flt(x):
    """A nonnegative number as mantissa and exponent; anything else has the mantissa -1"""
    x = float(x)
    if not (math.isfinite(x) and x >= 0):
        return [-1, 0]
    m, e = math.frexp(x)
    return [int(round(m * 2 ** 24)), e - 24 if m else 0]


def faces_of(numbers):
    out, st = [], 0
    while st < len(numbers):
        k = numbers[st]
        out.append([int(x) + 1 for x in numbers[st + 1:st + 1 + k]])
        st += k + 1
    return out


def voro_structures(r):
    out = [(nm, c, p, True) for nm, c, p, _ in structures(r, ("small", "mid")) if is_ortho(c) or len(p) >= 8]
    out += [(nm, c, p, not nm.endswith("-0")) for nm, c, p, _ in cna_structures(r)]
    for lh in (False, True):
        c = pv.cell_general(r, 250, 330, lefthanded=lh)
        p = pv.random_positions(r, c, r.choice([16, 60, 205]), minsep=22)
        out.append(("skewed", c, outside(r, c, p), True))
    # a layer, a rod and an empty half
    c = pv.cell_ortho(r, 600, 700)
    out.append(("half", c, [[p[0] // 2, p[1], p[2]] for p in pv.random_positions(r, c, 120, minsep=50)], True))
    return [x for x in out if abs(pv.det3(x[1])) < 2 ** 31]


def run_voro(rec, salt, nh, reps):
    S64 = 64 / UNIT
    for rep in range(reps):
        r = rng(salt, rep)
        for name, cell, pos, generic in voro_structures(r):
            n = len(pos)
            exp = r.choice([1, 1, 2, 3, 0])
            ecut, acut = r.choice([(50, 10), (50, 10), (100, 30), (20, 2), (0, 0)])
            vor = r.random() < 0.6
            again = r.random() < 0.3
            what = {"scenario": name, "n": n, "exp": exp, "ecut": ecut, "acut": acut}
            full = set(r.sample(range(n), min(n, nh)))
            if not rec.start(what):
                continue

            def go():
                s = pv.make_system(cell, pos)
                if again:
                    s.find_neighbors(method="voronoi", voroexp=2)
                s.find_neighbors(method="voronoi", voroexp=exp)
                if vor:
                    s.calculate_vorovector(edge_cutoff=ecut / 1000., area_cutoff=acut / 1000.)
                atoms = s.atoms
                nb = linklists(cell, pos, atoms, set(range(n)), 1e6)
                obs, rmax = [], 1
                for h in range(n):
                    a = atoms[h]
                    o = {"h": h + 1, "n": nb[h], "avg": pv.q(a.avg_volume, UNIT ** -3), "cut": pv.q(a.cutoff, 100 / UNIT),
                         "full": h in full, "X": [], "XP": [], "faces": [], "fv": [], "per": [], "edges": [], "vv": [], "far": 0}
                    if h in full:
                        X = a.vertex_vectors
                        o["X"] = [pv.qv(X[3 * i:3 * i + 3], S64) for i in range(len(X) // 3)]
                        o["XP"] = [pv.qv(x, S64) for x in a.vertex_positions]
                        o["faces"] = faces_of(a.vertex_numbers)
                        o["fv"] = [int(x) for x in a.face_vertices]
                        o["per"] = pv.qv(a.face_perimeters, S64)
                        m = math.sqrt(max(sum(x * x for x in v) for v in o["X"])) / 64
                        rmax = max(rmax, m)
                        o["far"] = int((2 * m) ** 2) + 1
                        if vor:
                            o["edges"] = [pv.qv(e, S64) for e in a.edge_lengths]
                            o["vv"] = [int(x) for x in a.vorovector]
                    else:
                        o["n"] = [dict(e) for e in nb[h]]
                        o["faces"] = [[]] * len(nb[h])
                    obs.append(o)
                return obs, pv.qv([a.volume for a in atoms], UNIT ** -3), rmax
            res, err = attempt(go)
            obs, vols, rmax = res or ([], [], 1)
            rec.case(dict(what, kind="voro", cell=cell, pos=pos, types=[1] * n, filter=0, K=K_for(cell, 0, 2 * rmax + 1),
                          generic=generic, obs=obs, vols=vols, err2=err),
                     tags=["ghost" if n < 200 else "direct", "exp%d" % exp, "vector" if vor else "cells", "generic" if generic else "degenerate"])


def run_ent(rec, salt, nh, reps):
    for rep in range(reps):
        r = rng(salt, rep)
        S = [x[:3] for x in structures(r, ("small", "mid")) if len(x[2]) > 2] + [(nm, c, p) for nm, c, p, _ in cna_structures(r)]
        for name, cell, pos in S:
            n = len(pos)
            c = shell_cut(r, cell, n, 6, 16)
            how = r.choice(["cutoff", "cutoff", "adaptive"]) if n > 20 else "cutoff"
            kw = dict(method="cutoff", cutoff=(c + .5) * UNIT) if how == "cutoff" else dict(method="cutoff", cutoff="adaptive")
            sigma = r.randint(10, 20)
            h10 = r.choice([40, 51, 64])                   # 1024ths
            r0 = r.choice([1, 64, 300, 700])
            top = 1024 * (c + .5) * UNIT * r.choice([0.8, 1.0, 1.15])
            steps = max(3, int((top - r0) / h10))
            local = r.random() < 0.4
            avg = r.choice([0, 1, 2, 2])
            ra = int((c + .5) * r.choice([0.6, 0.8, 1.1])) * 4 + 1      # quarter grid units
            N, M = r.choice([(6, 12), (6, 12), (4, 8), (3, 9)])
            exact = False
            if avg == 2 and r.random() < 0.4:
                # exactly as long as some bond
                d = np.array(pos, float)[1:] - np.array(pos[0])
                d = np.sqrt((d ** 2).sum(axis=1))
                d = [x for x in d if x < c + .5 and x == int(x)]
                exact = bool(d)
                ra = int(4 * min(d)) if d else ra
            again = r.random() < 0.3
            types = [r.randint(1, 3) for _ in pos]
            what = {"scenario": name, "n": n, "kw": kw, "local": local, "avg": avg, "sigma": sigma, "steps": steps, "N": N, "M": M}
            full = set(r.sample(range(n), min(n, nh)))
            if not rec.start(what):
                continue

            def go():
                s = pv.make_system(cell, pos, types)
                s.find_neighbors(**kw)
                a = dict(sigma=sigma / 64., rstart=r0 / 1024., h=h10 / 1024., local=local)
                rm = (r0 + (steps + .5) * h10) / 1024.
                if again:
                    s.calculate_entropy(0.9 * rm, **dict(a, local=not local))
                s.calculate_entropy(rm, averaged=avg > 0, switching_function=avg == 2, ra=ra / 256. if avg == 2 else None, N=N, M=M, **a)
                atoms = s.atoms
                hs = sorted(full) + [h for h in range(n) if h not in full][:2 * nh]
                nb = linklists(cell, pos, atoms, set(hs))
                obs = [{"h": h + 1, "n": nb[h], "full": h in full, "cut": pv.q(atoms[h].cutoff, 65536),
                        "ment": flt(-atoms[h].entropy), "avg": pv.q(atoms[h].avg_entropy, 1e5)} for h in hs]
                return obs, [pv.q(x.entropy, 1e5) for x in atoms]
            res, err = attempt(go)
            obs, ent = res or ([], [])
            rec.case(dict(what, kind="ent", cell=cell, pos=pos, types=types, r0=r0 * 1024, h=h10 * 1024, ra=ra * 64, obs=obs, ent=ent, err2=err),
                     tags=["ghost" if n < 200 else "direct", how, "local" if local else "global", "avg%d" % avg] + ["bond=ra"] * exact)


def tied(cell, pos, m):
    """In a skewed cell, does some pair have two images that are equally near in cell coordinates?"""
    if is_ortho(cell):
        return False
    inv = np.linalg.inv(np.array(cell, float) * m)
    p = np.array(pos, float)
    f = (p[:, None] - p[None, :]) @ inv
    f = f[:, :, None, :] + np.array([[a, b, c] for a in range(m) for b in range(m) for c in range(m)]) / m
    return bool((abs(f - np.floor(f) - 0.5) < 1e-6).any())


def run_rdf(rec, salt, reps):
    for rep in range(reps):
        r = rng(salt, rep)
        S = [x[:3] for x in structures(r, ("small", "mid")) if len(x[2]) > 1] + [(nm, c, p) for nm, c, p, _ in cna_structures(r) if len(p) < 300]
        for name, cell, pos in S:
            n = len(pos)
            # pair distances
            m = 2 * inner_reps(n) + 1
            if tied(cell, pos, m):
                continue
            if n * m ** 3 <= 150 and abs(pv.det3(cell)) * m ** 3 < 4e8 or 200 <= n <= 220:
                what = {"scenario": name, "n": n, "what": "pairs"}
                if rec.start(what):
                    d, err = attempt(lambda: [pv.q((x / UNIT) ** 2, 1) for x in pv.make_system(cell, pos).get_pairdistances()])
                    rec.case(dict(what, kind="pairs", cell=cell, pos=pos, reps=m, d2=d or [], err2=err), tags=["pairs"])
            # fewer than 200 atoms are seen with their images
            ghost = n < 200
            if n * n * m ** 3 > 200000 or (not is_ortho(cell) and abs(pv.det3(cell)) * m ** 3 > 4e8):
                continue
            for twice in (False, True):
                bins = r.choice([1, 3, 10, 40, 100])
                L = max(pv.widths(cell)) * (m if ghost else 1)
                e0 = r.choice([-1, 0, int(0.1 * L), int(0.3 * L)])
                w = max(1, int(r.choice([0.5, 0.8]) * L / bins))
                if e0 == -1 and r.random() < 0.5:
                    e0 = int(r.randint(0, 40))
                what = {"scenario": name, "n": n, "bins": bins, "e0": e0, "w": w, "ghost": ghost, "searched": twice}
                if not rec.start(what):
                    continue

                def go():
                    s = pv.make_system(cell, pos)
                    if twice:
                        s.find_neighbors(method="cutoff", cutoff=0.3 * min(pv.widths(cell)) * UNIT)
                    lo, hi = (e0 + .5) * UNIT, (e0 + bins * w + .5) * UNIT
                    g, rr = s.calculate_rdf(histobins=bins, histomin=lo, histomax=hi)
                    return [flt(x) for x in g], [pv.q(x, 10 / UNIT) for x in rr]
                res, err = attempt(go)
                g, rr = res or ([], [])
                rec.case(dict(what, kind="rdf", cell=cell, pos=pos, reps=m if ghost else 1, g=g, rr=rr, err2=err),
                         tags=["rdf", "extended" if ghost else "plain", "ortho" if is_ortho(cell) else "skew"])


def run(rec):
    prop = sys.argv[2]
    t = pv.THOROUGH
    if prop == "C06":
        run_voro(rec, "C06", 40 if t else 12, 15 if t else 2)
    elif prop == "C17":
        run_ent(rec, "C17", 12 if t else 3, 12 if t else 2)
    elif prop == "C18":
        run_rdf(rec, "C18", 20 if t else 3)


if __name__ == "__main__":
    pv.main(run)
