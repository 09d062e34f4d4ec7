"""C29: surveys of structures in files (pyscal.misc)."""
import contextlib, io, os, re, shutil, tempfile
import numpy as np
from harness import pv
from harness.pv import THOROUGH, UNIT, rng, attempt

SPECIES = ["Al", "Cu", "Fe"]          # types 1, 2, 3


def structures(r, m):
    """cell, positions, types in grid units"""
    k = m % 6
    a = 4 * r.randint(40, 70)
    if k in (0, 1, 2):                 # interstitial atoms in bcc: tetrahedral and octahedral places
        reps = [r.choice([2, 3]), 3, r.choice([2, 3, 4])]
        cell, pos = pv.bcc(reps, a)
        tet = [[a // 2, a // 4, 0], [a // 4, 0, a // 2], [0, a // 2, a // 4], [3 * a // 4, a // 2, 0]]
        octa = [[a // 2, a // 2, 0], [a // 2, 0, 0], [0, 0, a // 2]]
        extra, t = [], []
        for _ in range(r.randint(1, 3)):
            o = [a * r.randrange(n) for n in reps]
            e = r.choice(tet if r.random() < .7 else octa)
            x = [u + v for u, v in zip(o, e)]
            if all(sum((((u - v + L // 2) % L) - L // 2) ** 2 for u, v, L in zip(x, y, [a * n for n in reps])) > a * a for y in extra):
                extra.append(x)
                t.append(r.randint(2, 3))
        types = [1 if r.random() < .9 else 2 for _ in pos]
        if k == 1:
            amp = r.choice([1, 2, 4])
            pos, extra = pv.jitter(r, pos, amp), pv.jitter(r, extra, amp)
        pos, types = pos + extra, types + t
    elif k == 3:
        cell, pos = pv.fcc([3, 3, r.choice([2, 3])], a)
        types = [r.choice([1, 1, 1, 2]) for _ in pos]
        pos.append([a // 4] * 3)
        types.append(2)
        del pos[r.randrange(len(pos) - 1)]
        types = types[:len(pos) - 1] + [2]
    elif k == 4:
        cell, pos = pv.diamond([2, 2, 2], a)
        types = [1 if i % 2 else 2 for i in range(len(pos))]
        pos = pv.jitter(r, pos, 2)
    else:
        L = 40 * r.randint(6, 9)
        cell = pv.cell_general(r, L, L + 40) if m % 12 == 5 else pv.cell_ortho(r, L, L + 60)
        pos = pv.random_positions(r, cell, r.choice([20, 40, 64]), minsep=30)
        types = [r.randint(1, 3) for _ in pos]
    o = sorted(range(len(pos)), key=lambda i: types[i])    # POSCAR lists one species after another
    types = [types[i] for i in o]
    pos = [pos[i] for i in o]
    u = sorted(set(types))
    return cell, pos, [u.index(t) + 1 for t in types], [SPECIES[i - 1] for i in u]


def num(x):
    return repr(x * UNIT)


def write(path, form, cell, pos, types, names):
    n = len(pos)
    if form == "poscar":
        L = ["made", "1.0"] + [" ".join(num(x) for x in v) for v in cell] + [" ".join(names)]
        L += [" ".join(str(types.count(i + 1)) for i in range(len(names))), "Cartesian"]
        L += [" ".join(num(x) for x in p) for p in pos]
    else:
        L = ["ITEM: TIMESTEP", "0", "ITEM: NUMBER OF ATOMS", str(n), "ITEM: BOX BOUNDS pp pp pp"]
        L += ["0.0 " + num(cell[k][k]) for k in range(3)] + ["ITEM: ATOMS id type x y z"]
        L += ["%d %d %s" % (i + 1, types[i], " ".join(num(x) for x in pos[i])) for i in range(n)]
    open(path, "w").write("\n".join(L) + "\n")


def cells_of(path, form, scale):
    s = pv.core().System()
    s.read_inputfile(path, format=form)
    s.find_neighbors(method="voronoi")
    s.calculate_vorovector()
    return [{"t": a.type, "p": pv.grid(a.pos), "vol": pv.q(a.volume, scale), "vv": [int(x) for x in a.vorovector],
             "d": pv.qv(a.neighbor_distance, 1e5)} for a in s.atoms]


def fp(text):
    return [int(x) for x in text.split()] if "x" not in text else []


def told_env(path, form, t, prec, printed, whole):
    misc = __import__("pyscal.misc", fromlist=["x"])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        kw = {} if form == "poscar" else {"format": form}
        x = misc.compare_atomic_env(path, atomtype=t, precision=prec, print_results=printed, return_system=whole, **kw)
    sysn = -1
    if whole:
        s = x if printed else x[1]
        sysn = s.natoms
        x = None if printed else x[0]
    if printed:
        lines = out.getvalue().strip().splitlines()
        head = int(lines[0].split()[0])
        rows = [re.match(r"voro fingerprint = <(.*)>, vol = ([-\d.]+), counts = (\d+)", l).groups() for l in lines[1:]]
        return sysn, head, [pv.q(v, 10 ** prec) for _, v, _ in rows], [fp(f) for f, _, _ in rows], [int(c) for _, _, c in rows]
    vols, vecs, counts = x
    return sysn, -1, [pv.q(v, 10 ** prec) for v in vols], [fp(f) for f in vecs], [int(c) for c in counts]


def told_voids(path, form, p, printed, whole, direct):
    misc = __import__("pyscal.misc", fromlist=["x"])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        kw = {} if form == "poscar" else {"format": form}
        x = misc.find_tetrahedral_voids(path, print_results=printed, return_system=whole, direct_coordinates=direct, precision=p / 1000., **kw)
    types, vols, pos = x[:3]
    sysn = x[3].natoms if whole else -1
    head = -1
    at = (lambda v: pv.qv(v, 1e5)) if direct else (lambda v: pv.grid(v))
    told = [{"t": int(t), "vol": pv.q(v, 1e6), "x": at(y)} for t, v, y in zip(types, vols, pos)]
    if not len(types) == len(vols) == len(pos):
        told = told + told + [{"t": -1, "vol": 0, "x": [0, 0, 0]}]
    if printed:
        lines = out.getvalue().strip().splitlines()
        head = 0 if lines[0].startswith("no atoms") else int(lines[0].split()[0])
        rows = [re.match(r"(\d+)  volume ([-\d.]+) type (\d+) at ([-\d.]+), ([-\d.]+), ([-\d.]+)", l).groups() for l in lines[1:]]
        told = [{"t": int(r[2]), "vol": pv.q(r[1], 1e6), "x": at([float(y) for y in r[3:]])} for r in rows]
    return sysn, head, told


def run(rec):
    d = tempfile.mkdtemp(prefix="verif-survey-")
    try:
        for m in range(96 if not THOROUGH else 700):
            r = rng("survey", m)
            cell, pos, types, names = structures(r, m)
            form = "poscar" if m % 12 == 5 or r.random() < .6 else "lammps-dump"
            printed, whole = r.random() < .4, r.random() < .5
            path = os.path.join(d, "structure")
            for kind in ("env", "void"):
                t = r.randint(1, len(names))
                prec = r.choice([2, 2, 1, 3, 0])
                p = r.choice([100, 100, 30, 250])
                direct = r.random() < .6
                if not rec.start({"survey": m, "kind": kind, "n": len(pos), "form": form, "printed": printed}):
                    continue
                write(path, form, cell, pos, types, names)
                atoms, e0 = attempt(lambda: cells_of(path, form, 10 ** prec * 1000 if kind == "env" else 1e6))
                c = {"kind": kind, "form": form, "cell": cell, "atoms": atoms or [], "t": t, "p": p, "printed": printed, "direct": direct,
                     "sysn": -1, "heading": -1, "vols": [], "vvs": [], "counts": [], "told": []}
                if kind == "env":
                    x, err = attempt(lambda: told_env(path, form, t, prec, printed, whole))
                    if x:
                        c["sysn"], c["heading"], c["vols"], c["vvs"], c["counts"] = x
                else:
                    x, err = attempt(lambda: told_voids(path, form, p, printed, whole, direct))
                    if x:
                        c["sysn"], c["heading"], c["told"] = x
                c["err2"] = err or e0
                rec.case(c, [kind, form, "printed" if printed else "returned"])
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    pv.main(run)
