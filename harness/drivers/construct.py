"""C24, C26: crystals, repeated, remapped and extracted arrangements."""
import sys
import numpy as np
from harness import pv
from harness.pv import UNIT, THOROUGH, rng, attempt
from harness.drivers.env import primitive

L = 4096


def atoms_obs(atoms, unit=UNIT):
    return [{"p": pv.grid(a.pos, unit), "id": a.id, "t": a.type} for a in atoms]


def box_obs(b, unit=UNIT):
    return [pv.grid(v, unit) for v in b]


# ------------------------------------------------------------------------------- crystals
STRUCT = ["sc", "bcc", "fcc", "hcp", "diamond", "a15", "l12", "b2"]


def crystals(rec):
    import pyscal.crystal_structures as pcs
    r = rng("crystals")
    for st in STRUCT:
        for m in range(24 if not THOROUGH else 120):
            n = [1, 1, 1] if m == 0 else [r.randint(1, 4) for _ in range(3)]
            if m in (1, 2, 3):
                n = [1, 1, 1]
                n[m - 1] = r.randint(4, 9)
            a = 64 if m == 0 else r.randint(64, 420)
            kw = {}
            if m:
                kw = {"lattice_constant": a / 64., "repetitions": n}
            ca = 1633
            if st == "hcp" and m % 2:
                ca = r.choice([1000, 1500, 1580, 1600, 1856, 2000])
                kw["ca_ratio"] = ca / 1000.
            if m % 5 == 4:
                kw["repetitions"] = tuple(n)
            if not rec.start({"crystal": st, "kw": str(kw)}):
                continue
            out, err = attempt(lambda: pcs.make_crystal(st, **kw))
            c = {"kind": "cry", "s": st, "a": a, "n": n, "ca": ca, "err2": err, "atoms": [], "box": []}
            if not err:
                atoms, box = out
                c["box"] = [pv.qv(v, L) for v in box]
                c["atoms"] = [{"p": pv.qv(x.pos, L), "id": x.id, "t": x.type} for x in atoms]
            rec.case(c, ["crystal-" + st])
    for st in STRUCT:
        for m in range(3 if not THOROUGH else 12):
            a = r.randint(128, 300) / 64.
            cells = {"sc": 216, "bcc": 125, "fcc": 64, "hcp": 64, "diamond": 27, "a15": 27, "l12": 64, "b2": 125}[st]
            k = round(cells ** (1 / 3.))
            n = [k, k, k + r.randint(1, 3)]
            if st in ("sc", "bcc"):          # many atoms at the faces of the box
                n = [2 if i == m % 3 else 24 for i in range(3)]
            sigma = a * r.choice([0.002, 0.01, 0.02])
            if not rec.start({"noise": st, "n": n, "a": a, "sigma": sigma}):
                continue
            np.random.seed(pv.SEED * 1000 + m)

            def run():
                clean, cb = pcs.make_crystal(st, lattice_constant=a, repetitions=n)
                moved, mb = pcs.make_crystal(st, lattice_constant=a, repetitions=n, noise=sigma)
                return clean, cb, moved, mb
            out, err = attempt(run)
            c = {"kind": "noise", "err2": err, "d": [], "low": [], "same": False}
            if not err:
                clean, cb, moved, mb = out
                at = {x.id: x for x in moved}
                c["same"] = (len(at) == len(moved) == len(clean) and np.array_equal(cb, mb)
                             and all(x.id in at and at[x.id].type == x.type for x in clean))
                if c["same"]:
                    c["d"] = [pv.qv((np.array(at[x.id].pos) - np.array(x.pos)) / sigma, 100) for x in clean]
                    c["low"] = [[int(abs(x.pos[i]) < 1e-6) for i in range(3)] for x in clean]
            rec.case(c, ["noise-" + st])


# ------------------------------------------------------------------------------- cells
def some_cell(r, m, lo=60, hi=200):
    k = m % 4
    if k == 0:
        return pv.cell_ortho(r, lo, hi)
    if k == 1:
        return pv.cell_lammps(r, lo, hi)
    return pv.cell_general(r, lo, hi, lefthanded=(k == 3))


def some_ids(r, n, m):
    if m % 3 == 0:
        return list(range(1, n + 1))
    ids = r.sample(range(1, 3 * n + 10), n)
    return sorted(ids) if m % 3 == 1 else ids


def repeats(rec):
    r = rng("repeat")
    for m in range(160 if not THOROUGH else 900):
        cell = some_cell(r, m)
        n = r.choice([1, 2, 3, 5, 9]) if m % 8 else r.choice([199, 200, 203])
        pos = pv.random_positions(r, cell, n, minsep=4 if n < 100 else 2, inside=(m % 5 != 0))
        if m % 5 == 1:      # atoms outside the cell
            pos = [[x + y for x, y in zip(p, np.array(cell)[r.randrange(3)] * r.choice([-1, 0, 1]))] for p in pos]
            pos = [[int(x) for x in p] for p in pos]
        types = [r.randint(1, 3) for _ in pos]
        ids = some_ids(r, n, m // 2)
        reps = [r.randint(0, 2) for _ in range(3)] if n < 100 else [r.choice([0, 1]), 1, 0]
        if n == 9 and max(reps) == 2:
            reps = [1, 2, 0]
        how, scale = m % 3, bool((m // 3) % 2)
        if not rec.start({"repeat": m, "cell": cell, "n": n, "reps": reps, "how": how}):
            continue
        s = pv.make_system(cell, pos, types, ids=ids)
        before = atoms_obs(s.atoms)
        given, err = attempt(lambda: s.repeat(reps, scale_box=scale) if how else s.repeat(reps, atoms=s.atoms, scale_box=scale))
        c = {"kind": "rep", "cell": cell, "reps": reps, "scale": scale, "before": before, "err2": err,
             "out": [], "box": [], "after": [], "assigned": []}
        if not err:
            c["out"] = atoms_obs(given)
            c["box"] = box_obs(s.box)
            c["after"] = atoms_obs(s.atoms)
            if how == 2 and scale and len(given):
                s.atoms = given
                c["assigned"] = [atoms_obs(s.atoms)]
                c["box"] = box_obs(s.box)
        rec.case(c, ["repeat"])


def remaps(rec):
    r = rng("remap")
    for m in range(160 if not THOROUGH else 900):
        cell = some_cell(r, m, 80, 200)
        n = r.choice([1, 2, 6, 14, 25]) if m % 10 else 204
        pos = pv.random_positions(r, cell, n, minsep=14 if n < 100 else 9)
        if m % 4 == 2:      # atoms on faces, edges and corners
            f = [[r.choice([0, 0, .5]), r.choice([0, .5]), r.choice([0, .5])]]
            for x in f:
                p = [int(v) for v in np.rint(np.array(x) @ np.array(cell, float))]
                if all((np.array(p) == np.array(x) @ np.array(cell, float))) and min(
                        np.linalg.norm(((np.array(y) - p) @ np.linalg.inv(cell) - np.rint((np.array(y) - p) @ np.linalg.inv(cell))) @ np.array(cell, float)) for y in pos) > 14:
                    pos[0] = p
        images = bool(m % 2)
        types = [r.randint(1, 3) for _ in pos]
        if images:          # doubled atoms, some right at the place of another, some in another cell
            for k in r.sample(range(len(pos)), min(len(pos), r.randint(0, 3))):
                d = [r.randint(-1, 1) for _ in range(3)] if m % 3 else [0, 0, 0]
                pos.append([x + y for x, y in zip(pos[k], d)])
                types.append(types[k])
        far = 1 + (m // 4) % 3
        out = []
        for p in pos:
            v = np.array(p)
            for k in range(3):
                if r.random() < .5:
                    v = v + r.randint(-far, far) * np.array(cell[k])
            out.append([int(x) for x in v])
        ids = some_ids(r, len(out), m // 3)
        assign = bool((m // 5) % 2)
        rem = m % 7 == 3 and m % 4 != 2
        tol = {0: None, 1: 0.1, 2: 0.15}[(m // 2) % 3]
        if not rec.start({"remap": m, "cell": cell, "n": len(out), "images": images, "assign": assign}):
            continue
        s = pv.make_system(cell, out, types, ids=ids)
        before = atoms_obs(s.atoms)
        kw = {"remove_images": images, "assign": assign, "remove_atoms": rem}
        if tol is not None:
            kw["dtol"] = tol
        if images and m % 4 == 1:
            kw.pop("remove_images")
        if assign and m % 4 == 1:
            kw.pop("assign")
        got, err = attempt(lambda: s.remap_atoms(**kw))
        c = {"kind": "map", "cell": cell, "before": before, "images": images, "assign": assign, "err2": err,
             "tol2": int(((tol or .1) * 64) ** 2), "out": [], "box": [], "after": []}
        if not err:
            c["after"] = atoms_obs(s.atoms)
            c["out"] = c["after"] if assign else atoms_obs(got)
            c["box"] = box_obs(s.box)
        rec.case(c, ["remap"])


def halfway(r, pos, a):
    """atoms of two types in turn along some of the axes"""
    axes = r.choice([[0], [1], [2], [2], [1, 2]])
    extra = [[x + (a // 2 if k == m else 0) for k, x in enumerate(p)] for m in axes for p in pos]
    one, other = r.choice([(1, 2), (2, 1)])
    both = [(p, one) for p in pos] + [(p, other) for p in extra]
    if r.random() < .5:
        both.reverse()
    return [p for p, _ in both], [t for _, t in both]


def cutouts(rec):
    r = rng("cut")
    for m in range(48 if not THOROUGH else 260):
        k = m % 6
        a = 2 * r.randint(40, 120)
        far = False
        if k in (0, 1):
            kind = ["fcc", "bcc"][k]
            n = [1, 1, 1] if r.random() < .7 else r.choice([[1, 1, 2], [2, 1, 1], [2, 2, 2]])
            cell, pos = primitive(kind, n, a)
            types = [1] * len(pos)
            if r.random() < .6:       # atoms of another type halfway along axes
                pos, types = halfway(r, pos, a)
        elif k == 2:
            cell, pos = getattr(pv, r.choice(["fcc", "bcc", "sc", "diamond"]))([1, 1, r.choice([1, 2])], 2 * a)
            types = [1 + (i % 2 if r.random() < .5 else 0) for i in range(len(pos))]
        elif k == 3:        # orthogonal cell, disordered
            cell = pv.cell_ortho(r, 100, 200)
            pos = pv.random_positions(r, cell, r.randint(1, 6), minsep=20)
            types = [r.randint(1, 2) for _ in pos]
        elif k == 4:        # tilted in such a way that there are lattice vectors along the axes
            b = r.randint(60, 120)
            t = r.choice([-1, 1])
            cell = [[2 * b, 0, 0], [t * b, 2 * b, 0], [0, b * r.choice([0, -1, 1]), r.randint(70, 150)]]
            pos = pv.random_positions(r, cell, r.randint(1, 4), minsep=20)
            types = [r.randint(1, 2) for _ in pos]
            far = True
        else:               # no equal atom along some axis
            cell = pv.cell_general(r, 90, 160)
            pos = pv.random_positions(r, cell, r.randint(1, 3), minsep=20)
            types = [1 for _ in pos]
            far = True
        if m % 4 == 1 and k != 3:     # same crystal, elsewhere
            d = [r.randint(-30, 30) for _ in range(3)]
            pos = [[x + y for x, y in zip(p, d)] for p in pos]
        reps = [3, 3, 3] if k in (0, 1) else [r.choice([1, 2])] * 3
        if k in (4, 5):
            reps = [2, 2, 2] if r.random() < .8 else [1, 1, 1]
        if len(pos) > 4 and reps[0] > 1:
            reps = [1, 1, 1] if k not in (0, 1) else [3, 3, 3]
        ids = some_ids(r, len(pos), m // 2)
        if not rec.start({"cut": m, "cell": cell, "n": len(pos), "reps": reps}):
            continue
        s = pv.make_system(cell, pos, types, ids=ids)
        before = atoms_obs(s.atoms)
        c = {"kind": "cut", "cell": cell, "before": before, "reps": reps, "far": far, "err2": "", "out": [], "cube": []}
        try:
            cube, atoms = s.extract_cubic_box(repeat=reps) if m % 3 or reps != [3, 3, 3] else s.extract_cubic_box()
            c["cube"], c["out"] = box_obs(cube), atoms_obs(atoms)
        except Exception as e:
            c["err2"] = type(e).__name__
        c["after"], c["box"] = atoms_obs(s.atoms), box_obs(s.box)
        rec.case(c, ["cut-%d" % k])


def run(rec):
    if sys.argv[2] == "C24":
        crystals(rec)
    else:
        repeats(rec)
        remaps(rec)
        cutouts(rec)


if __name__ == "__main__":
    pv.main(run)
