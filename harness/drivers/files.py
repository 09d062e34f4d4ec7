"""C21, C22: what is written to files, and what is read from them."""
import gzip, os, sys, tempfile, types as pytypes
import numpy as np
from harness import pv
from harness.pv import UNIT, rng, attempt, q, qv

MICRO = 1e6
SPECIES = ["Cu", "Al", "Ni", "Fe", "O", "Zr", "C", "Au"]


def micro(v):
    return qv(v, MICRO)


# ---- C21: systems written, and read back; lengths in millionths, so that %f keeps them ----
def some_box(r, kind):
    L = [r.randint(4000000, 12000000) for _ in range(3)]
    b = [[L[0], 0, 0], [0, L[1], 0], [0, 0, L[2]]]
    if kind != "ortho":
        m = 1900000
        while True:
            t = [r.choice([0, 1, 1, 1]) * r.randint(-m, m) for _ in range(3)]
            if any(t):
                break
        b[1][0], b[2][0], b[2][1] = t
    if kind == "general":
        for (i, j) in ((0, 1), (0, 2), (1, 2)):
            b[i][j] = r.randint(-1500000, 1500000)
    return b


def some_system(r, kind, n, nt):
    from pyscal.catom import Atom
    box = some_box(r, kind)
    ids = list(range(1, n + 1))
    mode = r.choice(["plain", "shuffled", "sparse"])
    if mode != "plain":
        r.shuffle(ids)
    if mode == "sparse":
        ids = [7 * i + 3 for i in ids]
    ts = [r.randint(1, nt) for _ in range(n)]
    for t in range(1, nt + 1):                  # all types occur, if they can
        if t <= n:
            ts[t - 1] = t
    r.shuffle(ts)
    atoms = []
    for i in range(n):
        f = [r.random() for _ in range(3)]
        p = [int(sum(f[k] * box[k][m] for k in range(3))) for m in range(3)]
        if r.random() < 0.2:
            p = [x - r.choice([0, 9000000]) for x in p]          # outside the box, negative
        atoms.append({"p": p, "id": ids[i], "t": ts[i], "c": [r.randint(-9, 99), r.randint(-640, 640) * 15625]})
    sysrec = {"box": box, "atoms": atoms}

    def make(species=None):
        s = pv.core().System()
        s.box = [[x / MICRO for x in v] for v in box]
        out = []
        for i, a in enumerate(atoms):
            x = Atom()
            x.pos = [y / MICRO for y in a["p"]]
            x.id, x.type, x.loc = a["id"], a["t"], i
            x.custom = {"mark": a["c"][0], "val": a["c"][1] / MICRO}
            if species:
                x.custom = dict(x.custom, species=species[a["t"] - 1])
            out.append(x)
        s.atoms = out
        return s
    return sysrec, make


def words(text):
    return [l.split() for l in text.splitlines()]


def num(w, scale):
    try:
        return q(float(w), scale)
    except ValueError:
        return pv.BIG


def parse_dump(text, scale, plain=("id", "type")):
    """Words of the frames of a dump, with their values: ids and types as they are, others scaled."""
    L = words(text)
    frames, i = [], 0
    while i < len(L):
        if not L[i]:
            i += 1
            continue
        n = int(L[i + 3][0])
        head = L[i + 8][2:]
        rows = [[{"s": w, "n": num(w, 1 if head[c] in plain else scale) if c < len(head) else pv.BIG}
                 for c, w in enumerate(x)] for x in L[i + 9:i + 9 + n]]
        frames.append({"marks": [" ".join(L[i][:2]), " ".join(L[i + 2]), " ".join(L[i + 4][:3]), " ".join(L[i + 8][:2])],
                       "step": int(L[i + 1][0]), "natoms": n, "boxwords": L[i + 4][3:],
                       "bounds": [[num(w, scale) for w in x] for x in L[i + 5:i + 8]],
                       "head": head, "rows": rows})
        i += 9 + n
    return frames


def seen(s, scale, keys=(), sysdict=False):
    """What a user sees of a system that was read."""
    out = {"box": [qv(v, scale) for v in s.box], "natoms": s.natoms, "atoms": []}
    for a in s.atoms:
        c = a.custom
        out["atoms"].append({"p": qv(a.pos, scale), "id": a.id, "t": a.type, "loc": a.loc,
                             "c": [str(c.get(k)) for k in keys],
                             "cn": [num(str(c.get(k)), scale) for k in keys],
                             "sp": str(c.get("species", ""))})
    return out


def seen_ase(o, scale):
    return {"box": [qv(v, scale) for v in np.array(o.cell)], "pbc": [int(x) for x in o.pbc],
            "atoms": [{"p": qv(p, scale), "sp": n} for p, n in zip(o.positions, o.get_chemical_symbols())]}


WHOLE = ("cluster", "bonds")


def dump_cases(rec, d, reps):
    import pyscal.traj_process as ptp
    for rep in range(reps):
        for kind in ("ortho", "lammps"):
            for n in (1, 2, 7, 26):
                for form in ("plain", "gz", "compressed", "frames"):
                    r = rng("C21d", rep, kind, n, form)
                    sysrec, make = some_system(r, kind, n, r.randint(1, 3))
                    cmode = r.choice(["none", "own", "vals", "attr", "mixed", "calc", "calc"])
                    pool = r.sample(["q%d" % r.randint(2, 9), "aq%d" % r.randint(2, 9), "aq1%d" % r.randint(0, 2), "q1%d" % r.randint(0, 2),
                                     "volume", "avg_volume", "entropy", "avg_sij", "cluster", "bonds", "energy", "disorder"], 4)
                    keys = {"calc": pool, "none": [], "own": ["mark", "val"], "vals": ["u", "w"], "attr": ["val", "loc"], "mixed": ["val", "mark"]}[cmode]
                    if r.random() < 0.5:
                        keys = keys[::-1]
                    step = r.choice([0, 5, 12000])
                    what = {"kind": "dump", "form": form, "box": kind, "custom": cmode, "n": n, "keys": keys}
                    if not rec.start(what):
                        continue
                    vals = [[r.randint(-640, 640) * 15625, r.randint(0, 50) * 1000000] for _ in range(n)]
                    name = os.path.join(d, "f.dump" + (".gz" if form == "gz" else ""))
                    calc = [[r.randint(0, 9) for _ in pool] for _ in range(n)]

                    def want(i):
                        a = sysrec["atoms"][i]
                        own = {"mark": a["c"][0] * 1000000, "val": a["c"][1], "loc": i * 1000000, "u": vals[i][0], "w": vals[i][1]}
                        if cmode == "calc":
                            own = {k: [1000000 * calc[i][0], 15625 * calc[i][1], 15625 * calc[i][2], 15625 * calc[i][3]][x] if k not in WHOLE
                                   else 1000000 * calc[i][x] for x, k in enumerate(pool)}
                        return [own[k] for k in keys]

                    def go():
                        s = make()
                        if cmode == "calc":
                            # values an atom carries; those of the Steinhardt parameters are asked for by their order
                            for i in range(n):
                                a = s.get_atom(i)
                                for x in range(13):
                                    if x > 1:
                                        a.set_q(x, -x)
                                        a.set_q(x, -20 - x, True)
                                for k, v in zip(keys, want(i)):
                                    if k.lstrip("a")[:1] == "q":
                                        a.set_q(int(k.lstrip("aq")), v / MICRO, k[0] == "a")
                                    else:
                                        setattr(a, k, int(v / MICRO) if k in WHOLE else v / MICRO)
                                s.set_atom(a)
                        kw = dict(timestep=step)
                        if keys:
                            kw["customkeys"] = list(keys)
                        if cmode == "vals":
                            o = {"u": 0, "w": 1}
                            kw["customvals"] = [[v[o[k]] / MICRO for k in keys] for v in vals]
                        if form == "frames":
                            with open(name, "w") as f:
                                for st in (step, step + 1):
                                    ptp.write_file(s, f, **dict(kw, timestep=st))
                        else:
                            s.to_file(name, compressed=(form in ("gz", "compressed")), **kw)
                        text = (gzip.open(name, "rt") if form in ("gz", "compressed") else open(name)).read()
                        t = pv.core().System()
                        t.read_inputfile(name, compressed=(form == "compressed"), customkeys=list(keys) or None)
                        return parse_dump(text, MICRO), seen(t, MICRO, keys)
                    res, err = attempt(go)
                    frames, obs = res or ([], {})
                    if os.path.exists(name):
                        os.remove(name)
                    rec.case(dict(what, sys=sysrec, want=[want(i) for i in range(n)], step=step,
                                  nframes=2 if form == "frames" else 1, frames=frames, obs=obs, err2=err),
                             tags=["dump-" + form, "custom-" + cmode, "box-" + kind])


def species_cases(rec, d, reps):
    import pyscal.traj_process as ptp
    for rep in range(reps):
        for form in ("toase", "poscar", "extxyz", "data", "legacy"):
            for kind in ("ortho", "lammps", "general"):
                for n in (1, 4, 15):
                    r = rng("C21s", rep, form, kind, n)
                    nt = r.randint(1, min(3, n))
                    sysrec, make = some_system(r, kind, n, nt)
                    sp = r.sample(SPECIES, nt)
                    own = r.random() < 0.5 and form != "legacy"
                    what = {"kind": form, "box": kind, "n": n, "species": sp, "own": own}
                    if form == "data" and kind == "general":
                        continue                # lammps-data turns the box
                    if not rec.start(what):
                        continue
                    name = os.path.join(d, "f.file")

                    def go():
                        s = make(sp if own else None)
                        arg = None if own else list(sp)
                        before = seen(s, MICRO, ("mark", "val"))
                        if form == "toase":
                            o = s.to_ase(species=arg)
                            out = seen_ase(o, MICRO)
                            t = pv.core().System()
                            t.read_inputfile(o, format="ase")
                        elif form in ("poscar", "legacy"):
                            s.to_file(name, format="poscar", species=(None if form == "legacy" else list(sp)))
                            if form == "legacy":
                                L = words(open(name).read())
                                nb = len(L[5])
                                rows = L[7:]
                                return before, seen(s, MICRO, ("mark", "val")), {
                                    "scale": num(L[1][0], MICRO), "box": [[num(w, MICRO) for w in x] for x in L[2:5]],
                                    "counts": [int(x) for x in L[5]], "mode": L[6][0],
                                    "rows": [[num(w, MICRO) for w in x] for x in rows]}, {}
                            t = pv.core().System()
                            t.read_inputfile(name, format="poscar")
                            out = {}
                        elif form == "extxyz":
                            s.to_file(name, format="extxyz", species=arg)
                            t = pv.core().System()
                            t.read_inputfile(name, format="extxyz")
                            out = {}
                        else:
                            import ase.io
                            s.to_file(name, format="lammps-data", species=arg)
                            names = sorted(set(sp))
                            o = ase.io.read(name, format="lammps-data", atom_style="atomic",
                                            Z_of_type={i + 1: __import__("ase.data").data.atomic_numbers[x] for i, x in enumerate(names)})
                            t = pv.core().System()
                            t.read_inputfile(o, format="ase")
                            out = {}
                        return before, seen(s, MICRO, ("mark", "val")), out, seen(t, MICRO)
                    res, err = attempt(go)
                    before, after, out, obs = res or ({}, {}, {}, {})
                    if os.path.exists(name):
                        os.remove(name)
                    rec.case(dict(what, sys=sysrec, names=[sp[a["t"] - 1] for a in sysrec["atoms"]], order=sorted(SPECIES),
                                  unchanged=(before == after), out=out, obs=obs, err2=err),
                             tags=[form, "box-" + kind])


# ---- C22: files as other programs write them; lengths in 64ths ----
def fmt(r, x, style):
    """A 64th as text"""
    v = x / 64.
    if style == "exp":
        return "%.10e" % v
    if style == "g":
        return "%.12g" % v
    if style == "int" and x % 64 == 0:
        return "%d" % (x // 64)
    return "%.6f" % v


def dump_text(r, n, frames, numbers=False):
    """A dump with these frames in one of the forms that LAMMPS writes; the box is the same in form.
    numbers: only columns of numbers, and all types occur in all frames"""
    tilted = r.random() < 0.5
    scaled = r.random() < 0.5
    style = r.choice(["f", "exp", "g", "int"])
    cols = ["id", "type"] + (["xs", "ys", "zs"] if scaled else ["x", "y", "z"])
    extra = r.sample(["vx", "vy", "c_pe", "element", "mol", "q", "ix", "xu"], r.randint(0, 3))
    if numbers:
        extra = [c for c in extra if c != "element"]
    if scaled is False and r.random() < 0.25:
        extra = extra + ["xs", "ys", "zs"]
    cols = cols + extra
    how = r.choice(["asis", "shuffled", "shuffled", "lead"])
    if how == "shuffled":
        r.shuffle(cols)
    elif how == "lead":
        cols = extra + cols[:len(cols) - len(extra)]
    tail = r.choice(["", " pp pp pp", " pp ff ss"])
    end = r.choice(["\n", "\n", " \n", "\r\n"])
    lines = []
    nts = r.randint(1, 4)
    for f in range(frames):
        off = [r.choice([0, 0, r.randint(-500, 500)]) for _ in range(3)]
        L = [r.randint(250, 700) for _ in range(3)]
        lines.append("ITEM: TIMESTEP")
        lines.append("%d" % (100 * f))
        lines.append("ITEM: NUMBER OF ATOMS")
        lines.append("%d" % n)
        if tilted:
            t = [r.choice([0, 1, 1]) * r.randint(-110, 110) for _ in range(3)]
            xy, xz, yz = t
            X, Y = [0, xy, xz, xy + xz], [0, yz]
            lines.append("ITEM: BOX BOUNDS xy xz yz" + tail)
            b = [[off[0] + min(X), off[0] + L[0] + max(X), xy], [off[1] + min(Y), off[1] + L[1] + max(Y), xz], [off[2], off[2] + L[2], yz]]
        else:
            lines.append("ITEM: BOX BOUNDS" + tail)
            b = [[off[k], off[k] + L[k]] for k in range(3)]
        for x in b:
            lines.append(" ".join(fmt(r, y, style) for y in x))
        lines.append("ITEM: ATOMS " + " ".join(cols))
        ids = list(range(1, n + 1))
        if r.random() < 0.6:
            r.shuffle(ids)
        if r.random() < 0.2:
            ids = [i + 100000 for i in ids]
        ts = [r.randint(1, nts) for _ in range(n)]
        if numbers:
            ts = [1 + i % min(n, nts) for i in range(n)]
            r.shuffle(ts)
        for i in range(n):
            w = []
            for c in cols:
                if c == "id":
                    w.append("%d" % ids[i])
                elif c == "type":
                    w.append("%d" % ts[i])
                elif c in ("xs", "ys", "zs"):
                    w.append(fmt(r, r.choice([r.randint(0, 63), r.randint(-20, 90)]), style))
                elif c in ("x", "y", "z"):
                    w.append(fmt(r, r.randint(-300, 1100), style))
                elif c == "element":
                    w.append(r.choice(SPECIES))
                elif c in ("mol", "ix"):
                    w.append("%d" % r.randint(-3, 9))
                else:
                    w.append(fmt(r, r.randint(-999, 999), style))
            lines.append(" ".join(w))
    return "".join(l + end for l in lines), cols


def read_cases(rec, d, reps):
    import pyscal.traj_process as ptp
    for rep in range(reps):
        for form in ("plain", "gz", "compressed", "lines", "split", "splitgz", "first"):
            for n in (1, 2, 6, 20):
                r = rng("C22d", rep, form, n)
                nf = r.randint(2, 4) if form in ("split", "splitgz", "first") else 1
                text, cols = dump_text(r, n, nf)
                other = [c for c in cols if c not in ("id", "type", "x", "y", "z", "xs", "ys", "zs")]
                keys = r.sample(other, r.randint(0, len(other)))
                what = {"kind": "read", "form": form, "n": n, "cols": cols, "keys": keys, "nframes": nf}
                if not rec.start(what):
                    continue
                name = os.path.join(d, "in.dump" + (".gz" if form in ("gz", "splitgz") else r.choice(["", ".dat", ".gz.1"])))

                def go():
                    if form in ("gz", "compressed", "splitgz"):
                        with gzip.open(name, "wt", newline="") as f:
                            f.write(text)
                    else:
                        with open(name, "w", newline="") as f:
                            f.write(text)
                    out = []
                    kk = list(keys) if keys or r.random() < 0.5 else None
                    if form in ("split", "splitgz"):
                        files = ptp.split_trajectory(name)
                    elif form == "lines":
                        files = [text.splitlines(True)]
                    else:
                        files = [name]
                    for x in files:
                        s = pv.core().System()
                        s.read_inputfile(x, customkeys=kk, compressed=(form == "compressed"))
                        out.append(seen(s, 4096, keys))
                    if form in ("split", "splitgz"):
                        for x in files:
                            os.remove(x)
                    return out
                obs, err = attempt(go)
                for x in os.listdir(d):
                    os.remove(os.path.join(d, x))
                rec.case(dict(what, frames=parse_dump(text, 64), obs=obs or [], err2=err,
                              nread=nf if form.startswith("split") else 1),
                         tags=["read-" + form, "scaled" if "x" not in cols else "plain"])


def bad_cases(rec, d):
    """Files that do not hold what is asked for are refused."""
    r = rng("C22bad")
    good = "ITEM: TIMESTEP\n0\nITEM: NUMBER OF ATOMS\n1\nITEM: BOX BOUNDS\n0 4\n0 4\n0 4\nITEM: ATOMS id type %s\n1 1 1 2 3\n"
    for name, text, kw in (("nocoords", good % "fx fy fz", {}), ("nokey", good % "x y z", {"customkeys": ["vx"]}),
                           ("nokey2", good % "x y z", {"customkeys": ["x", "vx"]}), ("nofile", None, {}),
                           ("badformat", good % "x y z", {"format": "nosuch"})):
        what = {"kind": "badfile", "which": name}
        if not rec.start(what):
            continue
        path = os.path.join(d, "bad.dump")
        if text is not None:
            open(path, "w").write(text)

        def go():
            s = pv.core().System()
            s.read_inputfile(path, **kw)
            return s.natoms
        res, err = attempt(go)
        if os.path.exists(path):
            os.remove(path)
        rec.case(dict(what, err2=err.split(":")[0]), tags=["refused"])


def poscar_cases(rec, d, reps):
    for rep in range(reps):
        for direct in (False, True):
            for v5 in (True, False):
                for kind in ("ortho", "general"):
                    r = rng("C22p", rep, direct, v5, kind)
                    nb = r.randint(1, 4)
                    # the same species may come in several blocks
                    names = [r.choice(SPECIES) for _ in range(nb)] if v5 and r.random() < 0.3 else r.sample(SPECIES, nb)
                    counts = [r.randint(1, 5) for _ in range(nb)]
                    scale = r.choice([64, 64, 128, 96])
                    sel = r.random() < 0.3
                    vecs = [[0, 0, 0] for _ in range(3)]
                    for k in range(3):
                        vecs[k][k] = r.randint(200, 500)
                        if kind == "general":
                            for m in range(3):
                                if m != k:
                                    vecs[k][m] = r.randint(-60, 60)
                    n = sum(counts)
                    rows = [[r.randint(0, 63) if direct else r.randint(-100, 500) for _ in range(3)] for _ in range(n)]
                    what = {"kind": "posread", "direct": direct, "v5": v5, "cell": kind, "names": names, "counts": counts}
                    if not rec.start(what):
                        continue
                    L = [" ".join(names) if not v5 else r.choice(["made by hand", " ".join(names)]), fmt(r, scale, "g")]
                    L += [" ".join(fmt(r, x, "f") for x in v) for v in vecs]
                    if v5:
                        L.append("  ".join(names))
                    L.append("  ".join(map(str, counts)))
                    if sel:
                        L.append("Selective dynamics")
                    L.append(r.choice(["Direct", "direct", "D"]) if direct else r.choice(["Cartesian", "cartesian", "K"]))
                    L += [" ".join(fmt(r, x, "f") for x in row) + (" T F T" if sel else "") for row in rows]
                    path = os.path.join(d, "POSCAR")

                    def go():
                        open(path, "w").write("\n".join(L) + "\n")
                        s = pv.core().System()
                        s.read_inputfile(path, format="poscar")
                        return seen(s, 4096)
                    obs, err = attempt(go)
                    if os.path.exists(path):
                        os.remove(path)
                    rec.case(dict(what, scale=scale, vecs=vecs, rows=rows, order=sorted(SPECIES), obs=obs or {}, err2=err),
                             tags=["poscar-" + ("direct" if direct else "cartesian"), "poscar5" if v5 else "poscar4"])


def object_cases(rec, reps):
    """ASE objects, and objects shaped like those of mdtraj."""
    from ase import Atoms
    for rep in range(reps):
        for form in ("ase", "mdtraj"):
            for kind in ("ortho", "general"):
                r = rng("C22o", rep, form, kind)
                n = r.randint(1, 12)
                sp = r.sample(SPECIES, r.randint(1, 4))
                names = [r.choice(sp) for _ in range(n)]
                box = [[0, 0, 0] for _ in range(3)]
                for k in range(3):
                    box[k][k] = r.randint(200, 500)
                    if kind == "general":
                        for m in range(3):
                            if m != k:
                                box[k][m] = r.randint(-60, 60)
                pos = [[r.randint(-100, 600) for _ in range(3)] for _ in range(n)]
                what = {"kind": "object", "form": form, "box": kind, "names": names}
                if not rec.start(what):
                    continue

                def go():
                    b = np.array(box) * UNIT
                    p = np.array(pos) * UNIT
                    if form == "ase":
                        o = Atoms(symbols=names, positions=p, cell=b, pbc=True)
                    else:
                        o = pytypes.SimpleNamespace(unitcell_vectors=np.array([b]), xyz=np.array([p]),
                                                    topology=pytypes.SimpleNamespace(atoms=[pytypes.SimpleNamespace(name=x) for x in names]))
                    s = pv.core().System()
                    s.read_inputfile(o, format=form)
                    return seen(s, 64)
                obs, err = attempt(go)
                rec.case(dict(what, cell=box, pos=pos, order=sorted(SPECIES), obs=obs or {}, err2=err), tags=[form])


def run(rec):
    prop = sys.argv[2]
    t = pv.THOROUGH
    with tempfile.TemporaryDirectory(prefix="verif-files-") as d:
        if prop == "C21":
            dump_cases(rec, d, 40 if t else 6)
            species_cases(rec, d, 30 if t else 5)
        else:
            read_cases(rec, d, 60 if t else 10)
            bad_cases(rec, d)
            poscar_cases(rec, d, 60 if t else 10)
            object_cases(rec, 80 if t else 12)


if __name__ == "__main__":
    pv.main(run)
