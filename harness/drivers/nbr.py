"""C01 - C05: neighbor searches and distances."""
import math, sys
import numpy as np
from harness import pv
from harness.pv import UNIT, rng, attempt


def inner_reps(n):
    """How many cells the implementation may extend a small system by, on either side."""
    if n >= 200:
        return 0
    return int(math.ceil(int(math.ceil((200 - n) / n) ** (1 / 3.)) / 2))


def reach(cell, n):
    """Half the smallest width of the (extended) system."""
    return 0.5 * (2 * inner_reps(n) + 1) * min(pv.widths(cell))


def K_for(cell, n, c):
    if n >= 200:
        return 0
    return int(math.ceil((c + 1) / min(pv.widths(cell)) - 0.5)) if (c + 1) > 0.5 * min(pv.widths(cell)) else 0


def outside(r, cell, pos, frac=0.3, how=0.49):
    """Move some atoms across faces of the cell, by whole cell vectors."""
    out = []
    if r.random() < 0.4:      # by any number of them
        far = [r.choice([0, 1, 2, 2]) for _ in range(3)]
        for p in pos:
            n = [r.randint(-far[k], far[k]) if r.random() < 0.6 else 0 for k in range(3)]
            out.append([p[m] + sum(n[k] * cell[k][m] for k in range(3)) for m in range(3)])
        return out
    for p in pos:
        p = list(p)
        if r.random() < frac:
            f = pv.wrapped_frac(cell, p)
            for k in range(3):
                if f[k] < how and r.random() < 0.4:      # stays below 1.49
                    p = [p[m] + cell[k][m] for m in range(3)]
                elif f[k] > 1 - how and r.random() < 0.4:
                    p = [p[m] - cell[k][m] for m in range(3)]
        out.append(p)
    # coordinates of any two atoms must differ by less than one and a half cells
    fr = [pv.wrapped_frac(cell, p) for p in out]
    for k in range(3):
        lo, hi = min(f[k] for f in fr), max(f[k] for f in fr)
        if hi - lo >= 1.499:
            mid = [i for i in range(len(out)) if fr[i][k] >= 1.0]
            for i in mid:
                out[i] = [out[i][m] - cell[k][m] for m in range(3)]
                fr[i] = pv.wrapped_frac(cell, out[i])
    return out


def pick_types(r, n, nt):
    return [r.randint(1, nt) for _ in range(n)]


def structures(r, which):
    """(name, cell, pos, types): every way in which the implementation treats systems differently"""
    out = []

    def add(name, cell, n, minsep=None, out_=True, nt=2, pos=None):
        vol = abs(pv.det3(cell))
        if pos is None:
            ms = minsep if minsep is not None else int(0.5 * (vol / n) ** (1 / 3.))
            pos = pv.random_positions(r, cell, n, minsep=min(ms, int(0.4 * min(pv.widths(cell)))) or 1)
        if out_:
            pos = outside(r, cell, pos)
        out.append((name, cell, pos, pick_types(r, n, nt)))

    if "small" in which:
        for n in (1, 2, 3, 5, 9, 26):
            s = int(150 * n ** (1 / 3.))
            add("ortho-%d" % n, pv.cell_ortho(r, int(.8 * s), int(1.3 * s)), n)
            add("lammps-%d" % n, pv.cell_lammps(r, int(.9 * s), int(1.2 * s)), n)
            add("general-%d" % n, pv.cell_general(r, int(.9 * s), int(1.1 * s), lefthanded=(n in (3, 26))), n)
        add("cubic-60", pv.cell_ortho(r, 550, 560, cubic=True), 60)
        add("ortho-199", pv.cell_ortho(r, 600, 800), 199)
    if "mid" in which:
        add("ortho-200", pv.cell_ortho(r, 700, 1000), 200)
        add("ortho-330", pv.cell_ortho(r, 800, 1400), 330)
        add("lammps-260", pv.cell_lammps(r, 560, 640), 260)
        add("general-240", pv.cell_general(r, 560, 640), 240)
        add("general-lh-210", pv.cell_general(r, 560, 640, lefthanded=True), 210)
    if "large" in which:
        # more than 2300 atoms: cell lists
        add("large-cubic", pv.cell_ortho(r, 1500, 1600, cubic=True), 2400)
        add("large-ortho", pv.cell_ortho(r, 1200, 2300), 2350)
        add("large-slab", [[2600, 0, 0], [0, 2500, 0], [0, 0, 330]], 2320)
        add("large-rod", [[300, 0, 0], [0, 310, 0], [0, 0, 9000]], 2310)
        add("large-lammps", pv.cell_lammps(r, 600, 640, tilt=0.4), 2380, minsep=20)
        add("large-general", pv.cell_general(r, 600, 640, tilt=0.25), 2330, minsep=20)
    if "cells" in which:
        add("large-cells", pv.cell_ortho(r, 1500, 1900), 4100)
        # a third of the atoms in a dense droplet, across a corner of the box
        cell = pv.cell_ortho(r, 1400, 1800)
        L = [cell[k][k] for k in range(3)]
        d = min(L) // 3
        off = [r.randrange(x) for x in L]
        pos = pv.random_positions(r, cell, 2900, minsep=30)
        dense = pv.random_positions(r, [[d, 0, 0], [0, d, 0], [0, 0, d]], 1400, minsep=12)
        taken = {tuple(p) for p in pos}
        dense = [[(p[k] + off[k]) % L[k] for k in range(3)] for p in dense]
        pos += [p for p in dense if tuple(p) not in taken]
        r.shuffle(pos)
        add("large-droplet", cell, len(pos), pos=pos)
    return out


def cutoffs(r, cell, n):
    """Cutoffs from below the first to well into further shells, below the reach of the system."""
    vol = abs(pv.det3(cell)) / n
    top = min(reach(cell, n) - 2, 2.6 * vol ** (1 / 3.))
    if n >= 2300:
        # for the cell list: around the widths at which the number of cells changes
        L = min(pv.widths(cell))
        cs = [r.randint(int(0.6 * vol ** (1 / 3.)), int(1.7 * vol ** (1 / 3.)))]
        for m in (3, 4, 6):
            if 0.5 * vol ** (1 / 3.) < L / m < top:
                cs.append(int(L / m) + r.choice([-2, -1, 0]))
        return [min(c, int(top)) for c in cs][:3]
    return [r.randint(int(0.45 * top), int(top))]


def hosts_of(r, n, k):
    return list(range(n)) if n <= k else sorted(r.sample(range(n), k))


def run_cut(rec, filters, which, salt, nh, reps):
    for rep in range(reps):
        r = rng(salt, rep)
        for name, cell, pos, types in structures(r, which):
            n = len(pos)
            for c in cutoffs(r, cell, n):
                for f in filters:
                    what = {"scenario": name, "method": "cutoff", "cut": c, "filter": f}
                    if not rec.start(what):
                        continue
                    hs = hosts_of(r, n, nh if n < 2300 else max(4, nh // 2))

                    def go():
                        s = pv.make_system(cell, pos, types)
                        s.find_neighbors(method="cutoff", cutoff=(c + 0.5) * UNIT,
                                         filter={0: None, 1: "type", 2: "type_r"}[f])
                        return pv.neighbor_obs(s, hs)
                    obs, err = attempt(go)
                    rec.case(dict(what, kind="cut", cell=cell, pos=pos, types=types,
                                  K=K_for(cell, n, c), filter=f, obs=obs or [], err2=err),
                             tags=[name.rstrip("0123456789"), "filter%d" % f,
                                   "ghost" if n < 200 else "direct" if n <= 2300 else "cells"])


def radius(cell, n, threshold):
    R = threshold * (abs(pv.det3(cell)) / n) ** (1 / 3.)
    return R


def needed(cell, pos, types, f, nmax):
    """The distance (squared) of the farthest neighbor that a number search must reach: only
    used to put thresholds close to it, on either side."""
    inv = np.linalg.inv(np.array(cell, float))
    c = np.array(cell, float)
    p = np.array(pos, float)
    t = np.array(types)
    sh = np.array([[i, j, k] for i in range(-2, 3) for j in range(-2, 3) for k in range(-2, 3)], float) @ c
    worst = 0
    for h in range(len(pos)):
        d = (p - p[h]) @ inv
        d = (d - np.rint(d)) @ c
        d2 = ((d[:, None, :] + sh[None, :, :]) ** 2).sum(axis=2)
        if f == 1:
            d2 = d2[t == t[h]]
        elif f == 2:
            d2 = d2[t != t[h]]
        d2 = np.sort(d2[d2 > 0.5].ravel())
        if len(d2) < nmax:
            return None
        worst = max(worst, d2[nmax - 1])
    return worst


def run_number_edge(rec, which, salt, nh, reps):
    """Thresholds which are just enough, and just not enough."""
    for rep in range(reps):
        r = rng(salt, rep)
        for name, cell, pos, types in structures(r, which):
            n = len(pos)
            for nmax in (r.randint(4, 9), r.randint(10, 14)):
                w = needed(cell, pos, types, 0, nmax)
                if w is None:
                    continue
                a = (abs(pv.det3(cell)) / n) ** (1 / 3.)
                for factor in (1.015, 0.985):
                    thr = round(factor * math.sqrt(w) / a, 6)
                    R = radius(cell, n, thr)
                    if thr < 1 or R > reach(cell, n) - 2:
                        continue
                    what = {"scenario": name, "method": "number", "nmax": nmax, "threshold": thr, "filter": 0, "factor": factor}
                    if not rec.start(what):
                        continue
                    hs = hosts_of(r, n, nh)
                    obs, err = attempt(lambda: _find(cell, pos, types, hs, 0, method="number", nmax=nmax, threshold=thr))
                    rec.case(dict(what, kind="num", cell=cell, pos=pos, types=types, filter=0, nmax=nmax,
                                  K=K_for(cell, n, R), lo=int(R * R - 1e-6), hi=int(R * R) + 1,
                                  obs=obs or [], err2=err.split(":")[0]),
                             tags=["edge-error" if err else "edge-found", "ghost" if n < 200 else "direct"])


def run_number(rec, which, salt, nh, reps, filters=(0, 1, 2)):
    for rep in range(reps):
        r = rng(salt, rep)
        for name, cell, pos, types in structures(r, which):
            n = len(pos)
            for f in filters:
                for nmax, thr in ((12, 2), (r.choice([1, 4, 6, 8]), r.choice([1.2, 2, 2.2])), (14, 3), (r.randint(8, 18), r.choice([1.1, 1.4]))):
                    R = radius(cell, n, thr)
                    if R > reach(cell, n) - 2:
                        continue
                    if n > 2300 and (nmax > 14 or f == 2):
                        continue
                    what = {"scenario": name, "method": "number", "nmax": nmax, "threshold": thr, "filter": f}
                    if not rec.start(what):
                        continue
                    hs = hosts_of(r, n, nh if n < 2300 else 6 if n < 4000 else 14)
                    obs, err = attempt(lambda: _find(cell, pos, types, hs, f, method="number", nmax=nmax, threshold=thr))
                    rec.case(dict(what, kind="num", cell=cell, pos=pos, types=types, filter=f, nmax=nmax,
                                  K=K_for(cell, n, R), lo=int(R * R - 1e-6), hi=int(R * R) + 1,
                                  obs=obs or [], err2=err.split(":")[0]),
                             tags=["error" if err else "found", "filter%d" % f,
                                   "ghost" if n < 200 else "direct" if n <= 4000 else "cells"])


def _find(cell, pos, types, hs, f, **kw):
    s = pv.make_system(cell, pos, types)
    s.find_neighbors(filter={0: None, 1: "type", 2: "type_r"}[f], **kw)
    return pv.neighbor_obs(s, hs)


def run_adaptive(rec, which, salt, nh, reps, filters=(0, 1, 2)):
    for rep in range(reps):
        r = rng(salt, rep)
        for name, cell, pos, types in structures(r, which):
            n = len(pos)
            for f in filters:
                for nlimit, pad, thr in ((6, 120, 2), (r.choice([3, 8, 12]), r.choice([100, 110, 150]), r.choice([2, 2.2])), (6, r.choice([160, 200]), 1.5)):
                    R = radius(cell, n, thr)
                    if R > reach(cell, n) - 2:
                        continue
                    if n > 2300 and f == 2:
                        continue
                    what = {"scenario": name, "method": "adaptive", "nlimit": nlimit, "padding": pad, "threshold": thr, "filter": f}
                    if not rec.start(what):
                        continue
                    hs = hosts_of(r, n, nh if n < 2300 else 4 if n < 4000 else 8)
                    cutoff = r.choice(["adaptive", 0])
                    obs, err = attempt(lambda: _find(cell, pos, types, hs, f, method="cutoff", cutoff=cutoff,
                                                     nlimit=nlimit, padding=pad / 100., threshold=thr))
                    rec.case(dict(what, kind="adap", cell=cell, pos=pos, types=types, filter=f,
                                  K=K_for(cell, n, R), lo=int(R * R - 1e-6), hi=int(R * R) + 1,
                                  obs=obs or [], err2=err.split(":")[0]),
                             tags=["error" if err else "found", "filter%d" % f,
                                   "ghost" if n < 200 else "direct" if n <= 4000 else "cells"])


def run_sann(rec, which, salt, nh, reps, filters=(0, 1, 2)):
    for rep in range(reps):
        r = rng(salt, rep)
        for name, cell, pos, types in structures(r, which):
            n = len(pos)
            # a search that does not converge is repeated with a larger radius
            for f, thr in [(f, r.choice(c)) for f in filters for c in ([2, 2.3], [1.0, 1.05, 1.15, 1.3])]:
                R = max(radius(cell, n, thr), radius(cell, n, 1.8))
                if R > reach(cell, n) - 2:
                    continue
                if n > 2300 and f == 2:
                    continue
                what = {"scenario": name, "method": "sann", "threshold": thr, "filter": f}
                if not rec.start(what):
                    continue
                hs = hosts_of(r, n, nh if n < 2300 else 4 if n < 4000 else 8)
                obs, err = attempt(lambda: _find(cell, pos, types, hs, f, method="cutoff", cutoff="sann", threshold=thr))
                # the candidates further out do not matter once it has converged
                H = min(reach(cell, n) - 2, 2.5 * R)
                rec.case(dict(what, kind="sann", cell=cell, pos=pos, types=types, filter=f, mayfail=False,
                              K=K_for(cell, n, H), lo=int(R * R - 1e-6), hi=int(H * H),
                              obs=obs or [], err2=err.split(":")[0]),
                         tags=["error" if err else "found", "filter%d" % f,
                               "ghost" if n < 200 else "direct" if n <= 4000 else "cells"])


def run_sub(rec, salt, nh, reps):
    """voronoi, and the other methods, with and without a filter"""
    for rep in range(reps):
        r = rng(salt, rep)
        for name, cell, pos, types in structures(r, ("small", "mid")):
            n = len(pos)
            if n in (1, 2, 3, 5) and rep == 0 and name.startswith("general"):
                continue
            for f in (1, 2):
                kw = dict(method="voronoi", voroexp=r.choice([1, 2]))
                what = {"scenario": name, "filter": f, "kw": kw}
                if not rec.start(what):
                    continue
                hs = hosts_of(r, n, nh)
                res, err = attempt(lambda: (_find(cell, pos, types, hs, 0, **kw), _find(cell, pos, types, hs, f, **kw)))
                full, obs = res or ([], [])
                rec.case(dict(what, kind="sub", cell=cell, pos=[], types=types, full=full, obs=obs, err2=err),
                         tags=["voronoi-filter"])


def run_dist(rec, salt, npairs, reps):
    from pyscal.catom import Atom
    for rep in range(reps):
        r = rng(salt, rep)
        for name, cell, pos, types in structures(r, ("small", "mid")) + structures(r, ("large",))[:1]:
            n = len(pos)
            what = {"scenario": name}
            if not rec.start(what):
                continue

            def go():
                s = pv.make_system(cell, pos, types)
                if r.random() < 0.5:
                    s.find_neighbors(method="cutoff", cutoff=min(0.4 * min(pv.widths(cell)), 1.5 * (abs(pv.det3(cell)) / n) ** (1 / 3.)) * UNIT)
                atoms = s.atoms
                out = []
                for _ in range(npairs):
                    i, j = r.randrange(n), r.randrange(n)
                    a, b = atoms[i], atoms[j]
                    if r.random() < 0.3:
                        # atoms need not belong to the system
                        a = Atom(pos=[x * UNIT for x in pv.random_positions(r, cell, 1, 1)[0]])
                    if r.random() < 0.25:
                        # exactly half a cell apart
                        b = Atom(pos=[x + 0.5 * y * UNIT for x, y in zip(a.pos, [c * r.choice([0, 1]) for c in cell[r.randrange(3)]])])
                    pa, pb = pv.grid(a.pos), pv.grid(b.pos)
                    if pv.BIG in pa or pv.BIG in pb:
                        continue
                    d, v = s.get_distance(a, b, vector=True)
                    d2, v2 = s.get_distance(b, a, vector=True)
                    out.append({"a": pa, "b": pb, "d": pv.q(d, 10 / UNIT), "v": pv.grid(v),
                                "dplain": pv.q(s.get_distance(a, b), 10 / UNIT),
                                "dback": pv.q(d2, 10 / UNIT), "vback": pv.grid(v2)})
                return out
            pairs, err = attempt(go)
            rec.case(dict(what, kind="dist", cell=cell, pairs=pairs or [], halfw2=int((0.5 * min(pv.widths(cell)) - 1) ** 2), err2=err),
                     tags=[name.rstrip("0123456789"), "ghost" if n < 200 else "direct"])


def run(rec):
    prop = sys.argv[2]
    t = pv.THOROUGH
    if prop == "C01":
        run_cut(rec, (0,), ("small", "mid", "large"), "C01", 24 if t else 10, 6 if t else 1)
        run_cut(rec, (0,), ("small", "mid"), "C01b", 24 if t else 8, 12 if t else 3)
    elif prop == "C02":
        run_cut(rec, (1, 2), ("small", "mid", "large"), "C02", 16 if t else 6, 5 if t else 1)
        run_number(rec, ("small", "mid"), "C02n", 16 if t else 5, 4 if t else 1, (1, 2))
        run_adaptive(rec, ("small", "mid"), "C02a", 16 if t else 5, 4 if t else 1, (1, 2))
        run_sann(rec, ("small", "mid"), "C02s", 16 if t else 5, 4 if t else 1, (1, 2))
        run_number(rec, ("cells",), "C02nc", 5, 1, (1,))
        run_adaptive(rec, ("cells",), "C02ac", 5, 1, (1, 2))
        run_sann(rec, ("cells",), "C02sc", 5, 1, (1, 2))
        run_sub(rec, "C02v", 8, 4 if t else 1)
    elif prop == "C03":
        run_number(rec, ("small", "mid", "large", "cells"), "C03", 20 if t else 8, 5 if t else 1, (0,))
        run_number(rec, ("small", "mid"), "C03b", 20 if t else 8, 10 if t else 2, (0,))
        run_number_edge(rec, ("small", "mid"), "C03e", 16 if t else 6, 8 if t else 2)
    elif prop == "C04":
        run_adaptive(rec, ("small", "mid", "large", "cells"), "C04", 20 if t else 6, 4 if t else 1, (0,))
        run_sann(rec, ("small", "mid", "large", "cells"), "C04s", 20 if t else 8, 4 if t else 1, (0,))
    elif prop == "C05":
        run_dist(rec, "C05", 60 if t else 24, 12 if t else 3)


if __name__ == "__main__":
    pv.main(run)
