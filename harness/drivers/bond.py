"""C07 - C10, C16: Steinhardt parameters, solids, clusters, disorder."""
import math, sys
import numpy as np
from harness import pv
from harness.pv import UNIT, rng, attempt
from harness.drivers.nbr import structures, reach

Q20 = 2 ** 20


def linklists(cell, pos, atoms, needed, wscale=0):
    """Per atom the neighbors it shows: displacement, weight and the atom it is an image of."""
    cn = np.array(cell, float)
    inv = np.linalg.inv(cn)
    P = np.array(pos, float)
    out = []
    for h in range(len(pos)):
        if h not in needed:
            out.append([])
            continue
        a = atoms[h]
        vec, w = a.neighbor_vector, a.neighbor_weights
        lst = []
        for k in range(len(vec)):
            v = pv.grid(vec[k])
            j = 0
            if pv.BIG not in v:
                d = (P - (P[h] + np.array(v))) @ inv
                d = np.abs(d - np.rint(d)).max(axis=1)
                j = int(d.argmin()) + 1
            lst.append({"v": v, "w": pv.q(w[k], wscale) if wscale else 1, "j": j})
        out.append(lst)
    return out


def around(nb, hosts, depth=1):
    """hosts and the atoms within some bonds of them (numbers from 0)"""
    S = set(hosts)
    for _ in range(depth):
        S |= {e["j"] - 1 for h in list(S) for e in nb[h]}
    return S


def shell_cut(r, cell, n, lo=7, hi=13):
    """a cutoff with around lo to hi neighbors on average"""
    dens = n / abs(pv.det3(cell))
    c = (3 * r.uniform(lo, hi) / (4 * math.pi * dens)) ** (1 / 3.)
    return int(min(c, reach(cell, n) - 2))


def crystals(r):
    out = []
    for name, f, n, a in (("fcc", pv.fcc, 2, 256), ("bcc", pv.bcc, 3, 200), ("sc", pv.sc, 3, 160),
                          ("fcc-mid", pv.fcc, 4, 240), ("bcc-mid", pv.bcc, 5, 192), ("dia", pv.diamond, 2, 352)):
        cell, pos = f(n, a)
        amp = r.choice([0, 2, 8, 16])
        out.append((name, cell, pv.jitter(r, pos, amp), [r.randint(1, 2) for _ in pos]))
    return out


def some_structures(r, which=("small", "mid")):
    return [x for x in structures(r, which) if len(x[2]) > 1] + crystals(r)


def untied(cell, pos, nmax):
    """Are the nmax nearest determined? Below 200 atoms the images are particles with neighbors of their own,
    which among atoms at the very same distance need not be those of the atom they are an image of."""
    n = len(pos)
    if n >= 200:
        return True
    P = np.array(pos, np.int64)
    m = range(-2, 3)
    S = np.array([[i, j, k] for i in m for j in m for k in m], np.int64) @ np.array(cell, np.int64)
    for h in range(n):
        d = ((P[None, :, :] + S[:, None, :] - P[h]) ** 2).sum(axis=2).ravel()
        d.sort()
        if d[nmax] == d[nmax + 1]:
            return False
    return True


def method_of(r, cell, n, lo=7, hi=13, methods=("cutoff", "cutoff", "number", "adaptive", "voronoi"), deep=1, pos=None):
    m = r.choice(methods)
    c = shell_cut(r, cell, n, lo, hi)
    if m == "number" and n > 30:
        nmax = r.choice([4, 8, 12])
        # the value of a neighbor is taken from the atom it is an image of
        for k in ([] if pos is None else [nmax, 4, 12, 8, 6, 14]):
            if untied(cell, pos, k):
                return dict(method="number", nmax=k, threshold=2), 0
        if pos is None:
            return dict(method="number", nmax=nmax, threshold=2), 0
    if m == "adaptive" and n > 30:
        return dict(method="cutoff", cutoff="adaptive", nlimit=r.choice([6, 8]), padding=r.choice([1.1, 1.2]), threshold=2), 0
    # in skewed cells the tessellation is made from a finite number of images
    skewed = any(cell[i][j] for i in range(3) for j in range(3) if i != j)
    if m == "voronoi" and n > 8 and (not skewed or (n >= 200 and deep == 0)):
        return dict(method="voronoi", voroexp=r.choice([1, 1, 2, 3])), Q20
    return dict(method="cutoff", cutoff=(c + 0.5) * UNIT), 0


def comp_of(a, l, averaged=False):
    c = a.get_qlm(l, averaged=averaged) if averaged else a.get_qlm(l)
    return [pv.q(x.real, Q20) for x in c], [pv.q(x.imag, Q20) for x in c]


def run_q(rec, salt, nh, reps):
    for rep in range(reps):
        r = rng(salt, rep)
        for name, cell, pos, types in some_structures(r):
            n = len(pos)
            kw, ws = method_of(r, cell, n, deep=0)
            ls = r.sample(range(2, 13), 3)
            single = r.random() < 0.3
            user = ws == 0 and r.random() < 0.4
            if user:
                ws = 64
            what = {"scenario": name, "kw": kw, "l": ls, "userweights": user}
            hs = sorted(r.sample(range(n), min(n, nh)))
            if not rec.start(what):
                continue

            def go():
                s = pv.make_system(cell, pos, types)
                s.find_neighbors(**kw)
                if user:
                    # any weights, set by the user
                    for i in range(n):
                        a = s.get_atom(i)
                        a.neighbor_weights = [r.randint(8, 250) / 64. for _ in a.neighbor_weights]
                        s.set_atom(a)
                if single:
                    for l in ls:
                        s.calculate_q(l)
                else:
                    s.calculate_q(ls)
                lists = s.get_qvals(ls)
                one = {l: s.get_qvals(l) for l in ls}
                atoms = s.atoms
                nb = linklists(cell, pos, atoms, set(hs), ws)
                obs = []
                for h in hs:
                    a = atoms[h]
                    qs = []
                    same = True
                    for x, l in enumerate(ls):
                        re, im = comp_of(a, l)
                        qs.append({"l": l, "q": pv.q(a.get_q(l), Q20), "re": re, "im": im})
                        vals = [lists[x][h], one[l][h], a.get_q([l], False)[0], a.allq[l - 2], s.get_custom(a, ["q%d" % l])[0]]
                        same = same and all(v == a.get_q(l) or (v != v and a.get_q(l) != a.get_q(l)) for v in vals)
                    obs.append({"h": h + 1, "qs": qs, "same": same})
                pairs = []
                for _ in range(4):
                    h, k = r.choice(obs), r.choice(obs)
                    x = r.randrange(3)
                    pairs.append({"h": h["h"], "k": k["h"], "a": h["qs"][x], "b": k["qs"][x]})
                return nb, obs, pairs, len(lists) == 3 and all(len(y) == n for y in lists)
            res, err = attempt(go)
            nb, obs, pairs, ok = res or ([], [], [], True)
            for o in obs:
                o["same"] = o["same"] and ok
            rec.case(dict(what, kind="q", cell=cell, pos=pos, cond=[0] * n, nb=nb, unitw=ws == 0,
                          obs=obs, pairs=pairs, err2=err, **({"userw": True} if user else {})),
                     tags=["userweights" if user else kw["method"], "ghost" if n < 200 else "direct"] + ["l%d" % l for l in ls])


def run_avg(rec, salt, nh, reps):
    for rep in range(reps):
        r = rng(salt, rep)
        for name, cell, pos, types in some_structures(r):
            n = len(pos)
            mode = r.choice(["none", "none", "type", "call", "custom", "late", "cleared"])
            methods = ("cutoff",) if mode != "none" else ("cutoff", "number", "voronoi")
            kw, ws = method_of(r, cell, n, 6, 12, methods, pos=pos)
            ls = r.sample(range(2, 13), 2)
            what = {"scenario": name, "kw": kw, "l": ls, "mode": mode}
            hs = sorted(r.sample(range(n), min(n, nh)))
            custom = [r.randint(0, 1) for _ in range(n)]
            if not rec.start(what):
                continue

            def go():
                s = core_system(cell, pos, types, custom)
                s.find_neighbors(**kw)
                cond, condq = [0] * n, True
                if mode == "none":
                    s.calculate_q(ls, averaged=True)
                elif mode == "type":
                    s.calculate_q(ls, averaged=True, condition=lambda a: a.type == 2)
                    cond = [int(t == 2) for t in types]
                elif mode == "call":
                    s.calculate_q(ls, averaged=True, condition=lambda a: a.id % 2)
                    cond = [(i + 1) % 2 for i in range(n)]
                elif mode == "custom":
                    s.calculate_q(ls, averaged=True, condition="mark")
                    cond = custom
                elif mode == "late":
                    # as documented: only the average is subject to the condition
                    s.calculate_q(ls)
                    s.calculate_q(ls, only_averaged=True, condition="mark")
                    cond, condq = custom, False
                else:
                    s.calculate_q(ls, averaged=True, condition="mark")
                    s.calculate_q(ls, averaged=True, clear_condition=True)
                avals = s.get_qvals(ls, averaged=True)
                atoms = s.atoms
                nb0 = linklists(cell, pos, atoms, set(hs), ws)
                need = around(nb0, hs, 1)
                comp = [[{"re": [], "im": []} for _ in range(n)] for _ in ls]
                for x, l in enumerate(ls):
                    for j in need:
                        re, im = comp_of(atoms[j], l)
                        comp[x][j] = {"re": re, "im": im}
                obs = []
                for h in hs:
                    a = atoms[h]
                    qs, same = [], True
                    for x, l in enumerate(ls):
                        re, im = comp_of(a, l, True)
                        qs.append({"l": l, "q": pv.q(a.get_q(l), Q20), "aq": pv.q(a.get_q(l, averaged=True), Q20),
                                   "are": re, "aim": im, "cond": condq and x == 0})
                        vals = [avals[x][h], a.get_q([l], True)[0], a.allaq[l - 2], s.get_custom(a, ["aq%d" % l])[0]]
                        same = same and all(v == a.get_q(l, True) or v != v for v in vals)
                    obs.append({"h": h + 1, "qs": qs, "same": same})
                return nb0, obs, comp, cond
            res, err = attempt(go)
            nb, obs, comp, cond = res or ([], [], [], [])
            rec.case(dict(what, kind="avg", cell=cell, pos=pos, cond=cond, nb=nb, unitw=ws == 0,
                          obs=obs, comp=comp, err2=err),
                     tags=[kw["method"], "cond-" + mode, "ghost" if n < 200 else "direct"])


def core_system(cell, pos, types, custom):
    s = pv.core().System()
    s.box = [[x * UNIT for x in v] for v in cell]
    atoms = pv.make_atoms(pos, types)
    for a, c in zip(atoms, custom):
        a.custom = {"mark": c}
    s.atoms = atoms
    return s


def run_solid(rec, salt, nh, ndeep, reps):
    for rep in range(reps):
        r = rng(salt, rep)
        for name, cell, pos, types in some_structures(r):
            n = len(pos)
            kw, ws = method_of(r, cell, n, 7, 13, ("cutoff", "cutoff", "number", "voronoi"), pos=pos)
            l = r.choice([6, 6, 4, 8, 3, 12])
            thr, avgthr = r.choice([(0.5, 0.6), (0.3, 0.25), (0.713, 0.1), (0.15, 0.4), (0.9, 0.85), (0.05, 0.02)])
            right = r.random() < 0.6
            isfrac = r.random() < 0.5
            bonds = r.choice([0.5, 0.7, 0.25, 0.0, 1.0]) if isfrac else r.choice([0, 3, 5, 6, 7])
            what = {"scenario": name, "kw": kw, "l": l, "bonds": bonds, "threshold": thr, "avgthreshold": avgthr, "right": right}
            hs = sorted(r.sample(range(n), min(n, nh)))
            deep = set(r.sample(hs, min(len(hs), ndeep)))
            if not rec.start(what):
                continue

            def go():
                s = pv.make_system(cell, pos, types)
                s.find_neighbors(**kw)
                got = s.find_solids(bonds=bonds, threshold=thr, avgthreshold=avgthr, q=l, right=right, cluster=r.random() < 0.5)
                atoms = s.atoms
                nb0 = linklists(cell, pos, atoms, set(hs), ws)
                need = around(nb0, [h for h in deep], 1) | set(hs)
                nb = linklists(cell, pos, atoms, need, ws)
                obs = [{"h": h + 1, "sij": [pv.q(x, 1e6) for x in atoms[h].sij], "avg": pv.q(atoms[h].avg_sij, 1e6),
                        "bonds": int(atoms[h].bonds), "solid": int(atoms[h].solid), "deep": h in deep} for h in hs]
                # the connection of one pair, asked for by itself, and the same calculation once more
                for o in obs:
                    a = atoms[o["h"] - 1]
                    o["pair"] = [pv.q(s.get_number_from_bond(a, atoms[b["j"] - 1]), 1e6) for b in nb[o["h"] - 1]]
                    # (where the order is zero by symmetry the quotient is that of two rounding errors)
                    o["least"] = min(pv.q(x.get_q(l), 1e6) for x in [a] + [atoms[b["j"] - 1] for b in nb[o["h"] - 1]])
                s.calculate_solidneighbors()
                atoms = s.atoms
                for o in obs:
                    a = atoms[o["h"] - 1]
                    o["again"] = [pv.q(x, 1e6) for x in a.sij]
                    o["bonds2"], o["avg2"] = int(a.bonds), pv.q(a.avg_sij, 1e6)
                return nb, obs
            res, err = attempt(go)
            nb, obs = res or ([], [])
            rec.case(dict(what, kind="solid", cell=cell, pos=pos, cond=[0] * n, nb=nb, unitw=ws == 0, thr=int(round(thr * 1e6)),
                          avgthr=int(round(avgthr * 1e6)), bonds=int(round(bonds * 1000)) if isfrac else bonds,
                          isfrac=isfrac, obs=obs, err2=err),
                     tags=[kw["method"], "frac" if isfrac else "count", "right" if right else "left",
                           "ghost" if n < 200 else "direct"] + ["solid%d" % o["solid"] for o in obs])


def run_dis(rec, salt, nh, reps):
    for rep in range(reps):
        r = rng(salt, rep)
        for name, cell, pos, types in some_structures(r):
            n = len(pos)
            kw, ws = method_of(r, cell, n, 6, 10, ("cutoff", "number", "voronoi"), pos=pos)
            if kw["method"] == "voronoi" and r.random() < .5:
                continue
            l = r.choice([6, 6, 4, 8, 10])
            averaged = r.random() < 0.5
            what = {"scenario": name, "kw": kw, "l": l, "averaged": averaged}
            hs = sorted(r.sample(range(n), min(n, nh)))
            if not rec.start(what):
                continue

            def go():
                s = pv.make_system(cell, pos, types)
                s.find_neighbors(**kw)
                s.calculate_q(l)
                s.calculate_disorder(averaged=averaged, q=l)
                atoms = s.atoms
                nb0 = linklists(cell, pos, atoms, set(hs), ws)
                nb = linklists(cell, pos, atoms, around(nb0, hs, 1), ws)
                obs = [{"h": h + 1, "dis": pv.q(atoms[h].disorder, 32768), "avg": pv.q(atoms[h].avg_disorder, 32768)} for h in hs]
                return nb, obs, [pv.q(a.disorder, 32768) for a in atoms]
            res, err = attempt(go)
            nb, obs, dis = res or ([], [], [])
            rec.case(dict(what, kind="dis", cell=cell, pos=pos, cond=[0] * n, nb=nb, unitw=ws == 0,
                          averaged=averaged, obs=obs, dis=dis, err2=err),
                     tags=[kw["method"], "averaged" if averaged else "plain", "ghost" if n < 200 else "direct"])


def run_clu(rec, salt, reps, modes=("attr", "call", "custom", "type", "solid")):
    for rep in range(reps):
        r = rng(salt, rep)
        for name, cell, pos, types in some_structures(r):
            n = len(pos)
            kw, ws = method_of(r, cell, n, 1.2, 6, ("cutoff", "cutoff", "cutoff", "voronoi"))
            mode = r.choice(list(modes))
            frac = r.choice([0.2, 0.5, 0.8, 1.0, 0.0]) if r.random() < .9 else 1.0
            mark = [int(r.random() < frac) for _ in range(n)]
            lim = r.choice([0, 1]) if kw["method"] == "cutoff" else 1
            c = int(r.uniform(0.5, 0.95) * kw["cutoff"] / UNIT) if kw["method"] == "cutoff" else shell_cut(r, cell, n, 2, 8)
            crit = dict(bonds=2, threshold=0.3, avgthreshold=0.2)
            if len(modes) == 1:
                crit = dict(bonds=r.choice([0, 1, 2, 3, 0.3, 0.5]), threshold=r.choice([0.1, 0.3, 0.5]), avgthreshold=r.choice([0.0, 0.1, 0.3]),
                            right=r.random() < .7, q=r.choice([6, 4, 8]))
            what = {"scenario": name, "kw": kw, "mode": mode, "cut": c if lim else 0, "criteria": crit}
            earlier = r.random() < 0.3
            silent = r.random() < 0.15
            if not rec.start(what):
                continue

            def go():
                s = core_system(cell, pos, types, mark)
                s.find_neighbors(**kw)
                if earlier:
                    # neither the condition nor the cutoff of an earlier clustering matters
                    s.cluster_atoms(lambda a: a.id % 2, cutoff=0.3 * (c + .5) * UNIT)
                opts = dict(cutoff=(c + 0.5) * UNIT) if lim else {}
                if silent and mode != "solid":
                    opts["largest"] = False
                member = mark
                if mode == "attr":
                    atoms = s.atoms
                    for a, m in zip(atoms, mark):
                        a.solid = m
                        s.set_atom(a)
                    size = s.cluster_atoms("solid", **opts)
                elif mode == "call":
                    size = s.cluster_atoms(lambda a: mark[a.id - 1] == 1, **opts)
                elif mode == "custom":
                    size = s.cluster_atoms("mark", **opts)
                elif mode == "type":
                    size = s.cluster_atoms(lambda a: a.type == 2, **opts)
                    member = [int(t == 2) for t in types]
                else:
                    size = s.find_solids(**crit, **opts)
                    member = [int(a.solid) for a in s.atoms]
                atoms = s.atoms
                again = s.find_largestcluster()
                if silent and mode != "solid":
                    size = again
                solid = [int(a.solid) for a in atoms] if mode in ("attr", "solid") else []
                return (linklists(cell, pos, atoms, set(range(n)), ws), member, [int(a.cluster) for a in atoms],
                        [int(a.largest_cluster) for a in atoms], int(size), int(again), solid, [int(a.surface) for a in atoms])
            res, err = attempt(go)
            nb, member, label, flag, size, again, solid, surf = res or ([], [], [], [], 0, 0, [], [])
            rec.case(dict(what, kind="clu", cell=cell, pos=pos, nb=nb, lim=(c * c + c) if lim else 0,
                          member=[m == 1 for m in member], label=label, flag=flag, size=size, again=again, solid=solid,
                          surface=surf, err2=err),
                     tags=[kw["method"], mode, "cutoff-given" if lim else "cutoff-default", "ghost" if n < 200 else "direct"])
            # cutoffs from the mean distances
            if r.random() < 0.3:
                fac = r.choice([100, 120, 150])

                def go2():
                    s = pv.make_system(cell, pos, types)
                    s.find_neighbors(**kw)
                    s.set_atom_cutoff(factor=fac / 100.)
                    return [{"d": [pv.q(x, 640) for x in a.neighbor_distance], "cut": pv.q(a.cutoff, 640)} for a in s.atoms]
                obs, err = attempt(go2)
                rec.case(dict(what, kind="cutset", factor=fac, obs=obs or [], err2=err), tags=["set_atom_cutoff"])


def run(rec):
    prop = sys.argv[2]
    t = pv.THOROUGH
    if prop == "C07":
        run_q(rec, "C07", 10 if t else 6, 24 if t else 6)
    elif prop == "C08":
        run_avg(rec, "C08", 12 if t else 8, 16 if t else 4)
    elif prop == "C09":
        run_solid(rec, "C09", 40, 3 if t else 1, 24 if t else 8)
        run_clu(rec, "C09clusters", 12 if t else 3, ("solid",))
    elif prop == "C10":
        run_clu(rec, "C10", 30 if t else 5)
    elif prop == "C16":
        run_dis(rec, "C16", 4 if t else 2, 10 if t else 2)


if __name__ == "__main__":
    pv.main(run)
