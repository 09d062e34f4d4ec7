"""C11 - C15: common neighbor analysis, diamond, centrosymmetry, angles, short range order."""
import math, sys
import numpy as np
from harness import pv
from harness.pv import UNIT, rng, attempt
from harness.drivers.nbr import structures, reach, K_for, radius, outside
from harness.drivers.bond import linklists, shell_cut


def stacked(r, layers, n, a=240, diamond=False):
    """close packed layers in a given order of A, B, C; orthogonal cell of n x n"""
    b, h = int(round(a * math.sqrt(3))), a * math.sqrt(2. / 3)
    pos = []
    off = {"A": (0.0, 0.0), "B": (0.5, 1. / 6), "C": (0.0, 1. / 3)}
    off = {"A": (0, 0), "B": (0, 1. / 3), "C": (0.5, 1. / 6)}
    H = int(round(h * len(layers)))
    for z, L in enumerate(layers):
        for i in range(n):
            for j in range(n):
                for bx, by in ((0, 0), (0.5, 0.5)):
                    x, y = (i + bx + off[L][0]) * a, (j + by + off[L][1]) * b
                    pos.append([int(round(x)), int(round(y)), int(round(z * h))])
                    if diamond:
                        pos.append([int(round(x)), int(round(y)), int(round(z * h + 0.75 * h))])
    cell = [[n * a, 0, 0], [0, n * b, 0], [0, 0, H]]
    return cell, [[p[0] % cell[0][0], p[1] % cell[1][1], p[2] % H] for p in pos]


def random_stack(r, m):
    """m layers, no two neighboring layers the same, also across the boundary"""
    while True:
        s = [r.choice("ABC")]
        while len(s) < m:
            s.append(r.choice([x for x in "ABC" if x != s[-1]]))
        if s[0] != s[-1]:
            return "".join(s)


def primitive(kind, n, a):
    """skewed cells of cubic crystals"""
    v = {"fcc": [[0, a // 2, a // 2], [a // 2, 0, a // 2], [a // 2, a // 2, 0]],
         "bcc": [[-(a // 2), a // 2, a // 2], [a // 2, -(a // 2), a // 2], [a // 2, a // 2, -(a // 2)]]}[kind]
    cell = [[n[k] * x for x in v[k]] for k in range(3)]
    pos = [[i * v[0][m] + j * v[1][m] + k * v[2][m] for m in range(3)]
           for i in range(n[0]) for j in range(n[1]) for k in range(n[2])]
    return cell, pos


def ico_cluster(r):
    phi = (1 + 5 ** .5) / 2
    s = 120
    pts = [[0, 0, 0]]
    for a in (-1, 1):
        for b in (-phi, phi):
            pts += [[0, a, b], [a, b, 0], [b, 0, a]]
    th = r.random() * 6
    ct, st = math.cos(th), math.sin(th)
    out = [[int(round(500 + s * (p[0] * ct - p[1] * st))), int(round(500 + s * (p[0] * st + p[1] * ct))), int(round(500 + s * p[2]))] for p in pts]
    cell = [[1000, 0, 0], [0, 1000, 0], [0, 0, 1000]]
    while len(out) < 40:
        p = [r.randrange(1000) for _ in range(3)]
        if sum((x - 500) ** 2 for x in p) > 420 ** 2:
            out.append(p)
    return cell, out


def turned(r, cell, pos):
    """The same arrangement with its axes permuted and mirrored, and shifted."""
    perm = r.sample(range(3), 3)
    sh = [r.randint(-30, 30) for _ in range(3)]
    if any(cell[i][j] for i in range(3) for j in range(3) if i != j):
        sh = [0, 0, 0]
    c2 = [[cell[perm[i]][perm[j]] for j in range(3)] for i in range(3)]
    return c2, [[p[perm[j]] + sh[j] for j in range(3)] for p in pos]


def cna_structures(r):
    """name, cell, pos, lattice constant (0: none)"""
    out = []

    def add(name, cp, lat, amps):
        cell, pos = cp
        amp = r.choice(amps)
        pos = pv.jitter(r, pos, amp) if amp else [list(p) for p in pos]
        if r.random() < 0.3 and len(pos) > 60:
            for _ in range(r.choice([1, 2])):
                pos.pop(r.randrange(len(pos)))
        cell, pos = turned(r, cell, pos)
        r.shuffle(pos)
        out.append(("%s-%d" % (name, amp), cell, pos, lat))
    small = [0, 4, 12, 25, 40]
    add("fcc2", pv.fcc(2, 256), 256, small)
    add("fcc1", pv.fcc(1, 256), 256, [0, 6])
    add("fcc4", pv.fcc(4, 240), 240, small)
    add("bcc2", pv.bcc(2, 200), 200, small[:4])
    add("bcc3", pv.bcc(3, 200), 200, small[:4])
    add("bcc5", pv.bcc(5, 192), 192, small[:4])
    add("bcc-prim", primitive("bcc", (3, 3, 4), 200), 200, small[:3])
    add("fcc-prim", primitive("fcc", (4, 3, 3), 256), 256, small[:4])
    add("fcc-prim-mid", primitive("fcc", (6, 6, 6), 240), 240, small[:4])
    add("hcp", stacked(r, "AB" * 2, 3), int(round(240 * 2 ** .5)), small)
    add("hcp-mid", stacked(r, "AB" * 3, 5), int(round(240 * 2 ** .5)), small)
    for m in (6, 9):
        add("stack%d" % m, stacked(r, random_stack(r, m), 3), int(round(240 * 2 ** .5)), small[:4])
    add("ico", ico_cluster(r), 0, [0, 4])
    add("sc", pv.sc(4, 160), 0, [3, 6])
    # half fcc, half squeezed to bcc (Bain)
    cell, pos = pv.bcc(4, 192)
    k = r.choice([1.41, 1.3, 1.2, 1.1])
    add("bain", ([cell[0], cell[1], [0, 0, int(cell[2][2] * k)]], [[p[0], p[1], int(p[2] * k)] for p in pos]), 0, [0, 3])
    c = pv.cell_general(r, 560, 600)
    out.append(("random", c, pv.random_positions(r, c, 60, minsep=80), 0))
    return out


def far_of(cell, n, k=15):
    """a squared radius within which there are surely k atoms"""
    vol = abs(pv.det3(cell)) / n
    return int((3.1 * vol ** (1 / 3.)) ** 2)


def run_cna(rec, salt, nh, reps):
    for rep in range(reps):
        r = rng(salt, rep)
        for name, cell, pos, lat in cna_structures(r):
            n = len(pos)
            for mode in ("adaptive", "conventional"):
                if mode == "conventional" and not lat:
                    continue
                what = {"scenario": name, "mode": mode, "n": n}
                hs = sorted(r.sample(range(n), min(n, 40 if name.startswith("ico") else nh)))
                if not rec.start(what):
                    continue

                def go():
                    s = pv.make_system(cell, pos)
                    st = s.calculate_cna() if mode == "adaptive" else s.calculate_cna(lattice_constant=lat * UNIT)
                    assert sorted(st) == ["bcc", "fcc", "hcp", "ico", "others"], sorted(st)
                    return [int(a.structure) for a in s.atoms], [int(st[k]) for k in ("others", "fcc", "hcp", "bcc", "ico")]
                res, err = attempt(go)
                labels, counts = res or ([], [])
                far = int(1.1 * far_of(cell, n))
                rec.case(dict(what, kind="cna", cell=cell, pos=pos, types=[1] * n, filter=0, K=K_for(cell, 0, math.sqrt(far)),
                              far=far, lat=lat if mode != "adaptive" else 0, labels=labels, counts=counts,
                              hosts=[h + 1 for h in hs], err2=err),
                         tags=[mode, name.split("-")[0], "ghost" if n < 200 else "direct"] + ["label%d" % labels[h] for h in hs if labels])


def dia_structures(r):
    out = []

    def add(name, cp, amps):
        cell, pos = cp
        amp = r.choice(amps)
        pos = pv.jitter(r, pos, amp) if amp else [list(p) for p in pos]
        if r.random() < 0.5 and len(pos) > 60:
            for _ in range(r.choice([1, 2, 5])):
                pos.pop(r.randrange(len(pos)))
        cell, pos = turned(r, cell, pos)
        r.shuffle(pos)
        out.append(("%s-%d" % (name, amp), cell, pos))
    small = [0, 4, 10, 25]
    add("dia2", pv.diamond(2, 352), small)
    add("dia1", pv.diamond(1, 352), [0, 3])
    add("dia3", pv.diamond(3, 352), small)
    add("hex", stacked(r, "AB" * 2, 3, diamond=True), small)
    add("hex-small", stacked(r, "AB", 2, diamond=True), small)
    for m in (4, 6, 7):
        add("stack%d" % m, stacked(r, random_stack(r, m), 3, diamond=True), small)
    add("fcc", pv.fcc(3, 256), [5])
    # a grain of diamond: part of the atoms is displaced at random
    cell, pos = pv.diamond(3, 352)
    cut = r.randint(300, 800)
    out.append(("grain", cell, [pv.jitter(r, [p], 60)[0] if p[0] > cut else p for p in pos]))
    # the same for hexagonal and mixed stackings
    for name, layers in (("hexgrain", "AB" * 2), ("stackgrain", random_stack(r, 6))):
        cell, pos = stacked(r, layers, 4, a=r.choice([240, 220]), diamond=True)
        lo = r.randint(300, 480)
        pos = [pv.jitter(r, [p], r.choice([30, 60]))[0] if p[0] > lo else p for p in pos]
        r.shuffle(pos)
        out.append((name, cell, pos))
    return out


def run_dia(rec, salt, nh, reps):
    for rep in range(reps):
        r = rng(salt, rep)
        for name, cell, pos in dia_structures(r):
            n = len(pos)
            for lists in (False, True):
                again = lists and r.random() < 0.5
                what = {"scenario": name, "n": n, "lists": lists, "again": again}
                hs = sorted(r.sample(range(n), min(n, nh)))
                if not rec.start(what):
                    continue

                def go():
                    s = pv.make_system(cell, pos)
                    nb = []
                    if lists:
                        s.find_diamond_neighbors()
                        atoms = s.atoms
                        nb = [[pv.grid(v) for v in atoms[h].neighbor_vector] for h in hs]
                    st = s.identify_diamond(find_neighbors=not again)
                    return [int(a.structure) for a in s.atoms], \
                        [int(st[k]) for k in ("others", "fcc", "hcp", "bcc", "ico", "cubic diamond", "cubic diamond 1NN",
                                              "cubic diamond 2NN", "hex diamond", "hex diamond 1NN", "hex diamond 2NN")], nb
                res, err = attempt(go)
                labels, counts, nb = res or ([], [], [])
                far = int(0.6 * far_of(cell, n))
                rec.case(dict(what, kind="dia", cell=cell, pos=pos, types=[1] * n, filter=0, K=K_for(cell, 0, math.sqrt(far)),
                              far=far, labels=labels, counts=counts, hosts=[h + 1 for h in hs], lists=nb, err2=err),
                         tags=[name.split("-")[0], "ghost" if n < 200 else "direct"] + ["label%d" % labels[h] for h in hs if labels])


def run_csm(rec, salt, nh, reps):
    for rep in range(reps):
        r = rng(salt, rep)
        S = [(nm, c, p) for nm, c, p, _ in cna_structures(r)] + [x[:3] for x in structures(r, ("mid",))] \
            + [x[:3] for x in structures(r, ("small",)) if len(x[2]) > 8]
        # perfect crystals in which a few atoms are out of place, some by little
        for name, (cell, pos) in (("dent-fcc", pv.fcc(r.choice([3, 4]), 240)), ("dent-bcc", pv.bcc(r.choice([4, 5]), 192))):
            pos = [list(p) for p in pos]
            for i in r.sample(range(len(pos)), 6):
                amp = r.choice([1, 3, 8, 25])
                pos[i] = [x + r.randint(-amp, amp) for x in pos[i]]
            S.append((name, cell, pos))
        for name, cell, pos in S:
            n = len(pos)
            nmax = r.choice([12, 12, 8, 14, 2, 6, 10])
            what = {"scenario": name, "n": n, "nmax": nmax}
            hs = sorted(r.sample(range(n), min(n, nh)))
            if name.startswith("dent"):
                # those around an atom out of place
                P, L = np.array(pos), np.diag(np.array(cell))
                base = pv.fcc(round(L[0] / 240), 240)[1] if name == "dent-fcc" else pv.bcc(round(L[0] / 192), 192)[1]
                moved = [i for i in range(n) if list(base[i]) != list(pos[i])]
                d = P[moved[:2]][:, None] - P[None]
                d = np.linalg.norm(d - L * np.rint(d / L), axis=2)
                hs = sorted(set(moved) | {int(j) for row in d for j in np.argsort(row)[:nh // 2]})
            if not rec.start(what):
                continue

            def go():
                s = pv.make_system(cell, pos)
                if r.random() < 0.5:
                    vals = s.calculate_centrosymmetry(nmax=nmax)
                else:
                    s.calculate_centrosymmetry(nmax=nmax, get_vals=False)
                    vals = s.get_centrosymmetry()
                obs = pv.neighbor_obs(s, hs)
                atoms = s.atoms
                for o, h in zip(obs, hs):
                    o["csm"] = pv.q(atoms[h].centrosymmetry, 1 / UNIT ** 2)
                return obs, len(vals) == n and all(v == a.centrosymmetry for v, a in zip(vals, atoms))
            res, err = attempt(go)
            obs, same = res or ([], True)
            far = min(int(1.3 * far_of(cell, n)), int((reach(cell, n) - 2) ** 2))
            rec.case(dict(what, kind="csm", cell=cell, pos=pos, types=[1] * n, filter=0, K=K_for(cell, 0, math.sqrt(far)),
                          far=far, obs=obs, same=same, err2=err),
                     tags=["nmax%d" % nmax, "ghost" if n < 200 else "direct"])


def ang_structures(r):
    # bonds of bcc come in opposite pairs
    out = [("opposite", pv.bcc(4, 64)[0], pv.bcc(4, 64)[1]), ("opposite", pv.bcc(6, 100)[0], pv.bcc(6, 100)[1])]
    out += [(nm, c, p) for nm, c, p in dia_structures(r)]
    out += [(nm, c, p) for nm, c, p, _ in cna_structures(r)]
    return out + [x[:3] for x in structures(r, ("small", "mid")) if len(x[2]) > 2]


def run_ang(rec, salt, nh, reps):
    for rep in range(reps):
        r = rng(salt, rep)
        for name, cell, pos in ang_structures(r):
            n = len(pos)
            kind = "chi" if name == "opposite" else r.choice(["ang", "chi"])
            how = "cutoff" if name == "opposite" else r.choice(["cutoff", "number", "voronoi", "adaptive"])
            if kind == "ang" and how != "cutoff":
                how = "number"
            c = shell_cut(r, cell, n, 8, 12)
            if name == "opposite":
                c = pos[2][2] * 9 // 10
            skewed = any(cell[i][j] for i in range(3) for j in range(3) if i != j)
            if how in ("number", "adaptive") and n < 12 or how == "voronoi" and (skewed or n < 9):
                how = "cutoff"
            kw = {"cutoff": dict(method="cutoff", cutoff=(c + .5) * UNIT), "number": dict(method="number", nmax=r.choice([4, 6, 9])),
                  "voronoi": dict(method="voronoi"), "adaptive": dict(method="cutoff", cutoff="adaptive")}[how]
            angles = r.random() < 0.3
            what = {"scenario": name, "n": n, "what": kind, "kw": kw}
            hs = sorted(r.sample(range(n), min(n, nh)))
            if not rec.start(what):
                continue

            def go():
                s = pv.make_system(cell, pos)
                s.find_neighbors(**kw)
                if kind == "ang":
                    s.calculate_angularcriteria()
                else:
                    s.calculate_chiparams(angles=angles)
                obs = []
                atoms = s.atoms
                for h in hs:
                    a = atoms[h]
                    v = [pv.grid(x) for x in a.neighbor_vector]
                    if kind == "ang":
                        obs.append({"h": h + 1, "v": v, "ang": pv.q(a.angular, 2 ** 20)})
                    else:
                        obs.append({"h": h + 1, "v": v, "chi": [int(x) for x in a.chiparams],
                                    "cos": [pv.q(x, 2 ** 20) for x in a.custom["cosines"]] if angles else []})
                return obs
            obs, err = attempt(go)
            rec.case(dict(what, kind=kind, obs=obs or [], angles=angles, err2=err), tags=[kind, how, "ghost" if n < 200 else "direct"])


def run_sro(rec, salt, reps):
    for rep in range(reps):
        r = rng(salt, rep)
        S = [x[:3] for x in structures(r, ("small", "mid")) if len(x[2]) > 2] + [(nm, c, p) for nm, c, p, _ in cna_structures(r)]
        for name, cell, pos in S:
            n = len(pos)
            pm = r.random() < 0.5
            T = r.choice([(1, 2), (1, 2, 3), (1, 2, 4)]) if pm else (1, 2)
            p = r.choice([0.15, 0.5, 0.8])
            types = [T[0] if r.random() < p else r.choice(T[1:]) for _ in range(n)]
            for k, t in enumerate(T[:n]):
                types[k] = t
            ref = r.choice(T)
            cmp = r.choice(T)
            delta = r.random() < 0.6
            shells = r.choice([1, 2, 2])
            average = r.random() < 0.7
            if len(set(types)) < len(T):
                continue
            c = shell_cut(r, cell, n, 8, 20)
            skewed = any(cell[i][j] for i in range(3) for j in range(3) if i != j)
            kw = dict(method="cutoff", cutoff=(c + .5) * UNIT)
            if r.random() < .3 and n > 20:
                kw = dict(method="number", nmax=14, threshold=3) if skewed else dict(method="voronoi")
            what = {"scenario": name, "n": n, "pm": pm, "ref": ref, "cmp": cmp, "delta": delta, "shells": shells, "kw": kw}
            if not rec.start(what):
                continue

            def go():
                s = pv.make_system(cell, pos, types)
                s.find_neighbors(**kw)
                if pm:
                    avg = s.calculate_pmsro(reference_type=ref, compare_type=cmp, average=average, shells=shells, delta=delta)
                else:
                    avg = s.calculate_sro(reference_type=ref, average=average, shells=shells)
                atoms = s.atoms
                need = {i for i in range(n) if types[i] == ref}
                nb = linklists(cell, pos, atoms, need)
                obs = [{"h": h + 1, "v": [e["v"] for e in nb[h]], "j": [e["j"] for e in nb[h]],
                        "sro": [pv.q(x, 1e6) for x in atoms[h].sro]} for h in sorted(need)]
                conc = s.get_concentration()
                return obs, [pv.q(x, 1e6) for x in avg] if average and kw["method"] == "cutoff" else [], [[int(k), int(v)] for k, v in conc.items()]
            res, err = attempt(go)
            obs, avg, conc = res or ([], [], [])
            rec.case(dict(what, kind="sro", cell=cell, pos=pos, types=types, obs=obs, avg=avg, conc=conc, noconc=False, err2=err),
                     tags=["pmsro" if pm else "sro", "shells%d" % shells, kw["method"], "ghost" if n < 200 else "direct"])


def run(rec):
    prop = sys.argv[2]
    t = pv.THOROUGH
    if prop == "C11":
        run_cna(rec, "C11", 24 if t else 10, 20 if t else 3)
    elif prop == "C12":
        run_dia(rec, "C12", 24 if t else 14, 20 if t else 4)
    elif prop == "C13":
        run_csm(rec, "C13", 20 if t else 8, 20 if t else 5)
    elif prop == "C14":
        run_ang(rec, "C14", 30 if t else 12, 24 if t else 8)
    elif prop == "C15":
        run_sro(rec, "C15", 30 if t else 8)


if __name__ == "__main__":
    pv.main(run)
