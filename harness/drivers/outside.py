"""C31, C32: what a System hands to LAMMPS (a stand-in) and to plotly, and what comes back."""
import os, re, shutil, sys, tempfile
import types as pytypes
import numpy as np
from harness import pv
from harness.pv import UNIT, rng, attempt
from harness.drivers.bond import linklists

SPECIES = ["Al", "Cu", "Fe"]      # sorted, as types of a LAMMPS file are


class Fault(Exception):
    pass


def stand_in(log, r, fault):
    """A module like that of LAMMPS: reads the data file, and tells an energy for the place of each atom, in an order of its own."""
    class lammps:
        def __init__(self, *a, **k):
            pass

        def command(self, text):
            w = text.split()
            if not w:
                return
            if w[0] == "read_data":
                log["file"] = read_data(w[1])
            elif w[0] in ("pair_style", "pair_coeff"):
                log[w[0]] = " ".join(w[1:])
            elif w[0] == "mass":
                log["mass"] = pv.q(w[-1], 1000)
            elif w[0] == "run":
                if fault == "Fault":
                    raise Fault("lost atoms")
                n = len(log["file"])
                self.order = r.sample(range(n), n)

        def commands_string(self, text):
            for line in text.splitlines():
                self.command(line)

        def commands_list(self, lines):
            for line in lines:
                self.command(line)

        def extract_compute(self, *a, **k):
            e = [-((7 * m[0] + 31 * m[1] + 101 * m[2]) % 997) / 64. for _, _, m in (log["file"][i] for i in self.order)]
            return e + [12345.] * 7          # images of atoms come after the atoms

        def extract_atom(self, name, *a, **k):
            col = {"id": 0, "type": 1}[name]
            return [log["file"][i][col] for i in self.order] + [1] * 7

        def get_natoms(self):
            return len(log["file"])

        def extract_global(self, name, *a, **k):
            return {"natoms": len(log["file"]), "nlocal": len(log["file"]), "nghost": 7}[name]

        @property
        def numpy(self):
            return pytypes.SimpleNamespace(extract_compute=lambda *a, **k: np.array(self.extract_compute()[:len(self.order)]),
                                           extract_atom=lambda name, *a, **k: np.array(self.extract_atom(name)))

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass
    m = pytypes.ModuleType("lammps")
    m.lammps = lammps
    m.LMP_STYLE_GLOBAL, m.LMP_STYLE_ATOM, m.LMP_STYLE_LOCAL = 0, 1, 2
    m.LMP_TYPE_SCALAR, m.LMP_TYPE_VECTOR, m.LMP_TYPE_ARRAY = 0, 1, 2
    return m


def read_data(path):
    lo, hi, tilt, rows, part = [0] * 3, [0] * 3, [0] * 3, [], ""
    for line in open(path):
        w = line.split("#")[0].split()
        if not w:
            continue
        for k, c in enumerate("xyz"):
            if w[-2:] == [c + "lo", c + "hi"]:
                lo[k], hi[k] = float(w[0]), float(w[1])
        if w[-3:] == ["xy", "xz", "yz"]:
            tilt = [float(x) for x in w[:3]]
        if re.match("[A-Z]", w[0]):
            part = w[0]
        elif part == "Atoms":
            rows.append((int(w[0]), int(w[1]), [float(x) for x in w[2:5]]))
    box = np.array([[hi[0] - lo[0], 0, 0], [tilt[0], hi[1] - lo[1], 0], [tilt[1], tilt[2], hi[2] - lo[2]]])
    inv = np.linalg.inv(box)
    out = []
    for i, t, p in rows:
        f = (np.array(p) - lo) @ inv * 16
        m = [int(round(x)) % 16 for x in f]
        out.append((i, t, m if np.abs(f - np.rint(f)).max() < 1e-3 else [99, 99, 99]))
    return out


def some_cell(r, form, lo=9, hi=20):
    """cell vectors divided by 16"""
    if form == "any":
        while True:
            g = [[r.randint(-hi, hi) for _ in range(3)] for _ in range(3)]
            if abs(pv.det3(g)) > lo ** 3:
                return g
    g = [[0, 0, 0] for _ in range(3)]
    for k in range(3):
        g[k][k] = r.randint(lo, hi)
        for m in range(3):
            if form == "general" and m != k or form == "tilted" and m < k:
                g[k][m] = r.randint(-4, 4)
    return g


def some_atoms(r, g, n, far):
    """positions on 16ths of the cell, no two the same in the cell"""
    seen, pos = set(), []
    while len(pos) < n:
        m = tuple(r.randint(-20, 40) if far else r.randint(0, 15) for _ in range(3))
        key = tuple(x % 16 for x in m)
        if key in seen or any(sum(min((a - b) % 16, (b - a) % 16) ** 2 for a, b in zip(key, o)) < 6 for o in seen):
            if r.random() < .98:
                continue
            if key in seen:
                continue
        seen.add(key)
        pos.append([sum(m[k] * g[k][j] for k in range(3)) for j in range(3)])
    return [[16 * x for x in v] for v in g], pos


def plain(s):
    return {"box": [pv.qv(v, 64e3) for v in s.box],
            "atoms": [[a.id, a.type, pv.qv(a.pos, 64), a.loc, pv.q(a.get_q(6), 1e6), a.coordination, sorted(a.custom)] for a in s.atoms]}


def some_ids(r, n):
    k = r.randint(0, 3)
    return [list(range(1, n + 1)), r.sample(range(1, n + 1), n), r.sample(range(1, 4 * n + 1), n), list(range(0, n))][k]


def energies(rec, d, reps):
    for rep in range(reps):
        for form in ("ortho", "tilted", "general"):
            r = rng("C31", rep, form)
            n = r.choice([1, 2, 5, 9, 14, 30]) if rep % 8 else r.choice([205, 240])
            cell, pos = some_atoms(r, some_cell(r, form, 9 if n < 100 else 20, 20 if n < 100 else 36), n, r.random() < .4)
            nt = 1 if n < 3 or r.random() < .5 else r.choice([2, 3])
            types = list(range(1, nt + 1)) + [r.randint(1, nt) for _ in range(n - nt)]
            r.shuffle(types)
            ids = some_ids(r, n)
            fault = r.choice(["", "", "", "", "Fault", "nostyle", "nocoeff", "nolammps"])
            averaged = r.random() < .6
            first = r.choice(["", "", "cutoff", "number", "adaptive"])
            custom = r.random() < .3
            species = SPECIES[:nt]
            arg = (r.choice([None, species]) if custom else species[0] if nt == 1 and r.random() < .6 else species)
            style, coeff, mass = r.choice(["eam/fs", "lj/cut 4.0"]), "* * potfile " + " ".join(species), r.choice([1.0, 63.546, 26.98])
            what = {"kind": "energy", "form": form, "n": n, "fault": fault, "averaged": averaged, "first": first, "species": str(arg)}
            if not rec.start(what):
                continue
            c = dict(what, cell=cell, pos=pos, types=types, before={}, after={}, left=0, energy=[], energy0=[], avg=[], nb=[], nb0=[],
                     file=[], style="", coeff="", mass=0, gavestyle=style, gavecoeff=coeff, gavemass=pv.q(mass, 1000))
            c["fault"] = {"nostyle": "ValueError", "nocoeff": "ValueError", "nolammps": "ModuleNotFoundError"}.get(fault, fault)
            log = {}

            def go():
                atoms = pv.make_atoms(pos, types, ids=ids)
                for k, a in enumerate(atoms):
                    a.energy = k + 0.5
                    if custom:
                        a.custom = {"species": species[a.type - 1]}
                s = pv.core().System()
                s.box = [[x * UNIT for x in v] for v in cell]
                s.atoms = atoms

                def find(s, how):
                    if how == "number":
                        s.find_neighbors(method="number", nmax=6)
                    else:
                        s.find_neighbors(method="cutoff", cutoff=2.6 if how == "cutoff" else 0)
                if first:
                    find(s, first)
                    s.calculate_q(6)
                c["before"] = plain(s)
                c["energy0"] = [pv.q(a.energy, 64) for a in s.atoms]
                os.chdir(d)
                old = sys.modules.get("lammps")
                sys.modules["lammps"] = None if fault == "nolammps" else stand_in(log, r, fault)
                try:
                    kw = {"averaged": True} if averaged else {}
                    if arg is not None:
                        kw["species"] = arg
                    if mass != 1.0:
                        kw["mass"] = mass
                    if fault != "nostyle":
                        kw["pair_style"] = style
                    if fault != "nocoeff":
                        kw["pair_coeff"] = coeff
                    _, err = attempt(lambda: s.calculate_energy(**kw))
                finally:
                    if old is None:
                        sys.modules.pop("lammps", None)
                    else:
                        sys.modules["lammps"] = old
                    c["left"] = len(os.listdir(d))
                    for f in os.listdir(d):
                        os.remove(os.path.join(d, f))
                c["after"] = plain(s)
                atoms = s.atoms
                c["energy"] = [pv.q(a.energy, 64) for a in atoms]
                if averaged and not err and not fault:
                    c["avg"] = [pv.q(a.avg_energy, 32768) for a in atoms]
                    c["nb"] = [[x["j"] for x in l] for l in linklists(cell, pos, atoms, set(range(n)))]
                    t = pv.make_system(cell, pos, types)
                    find(t, first or "adaptive")
                    c["nb0"] = [[x["j"] for x in l] for l in linklists(cell, pos, t.atoms, set(range(n)))]
                    if not first:                # neighbors found by the call itself
                        for x, y in zip(c["after"]["atoms"], c["before"]["atoms"]):
                            x[5] = y[5]
                return err
            err, err0 = attempt(go)
            c["file"] = [{"t": t, "m": m} for _, t, m in log.get("file", [])]
            c.update(style=log.get("pair_style", ""), coeff=log.get("pair_coeff", ""), mass=log.get("mass", -1))
            c["err2"] = (err0 or err or "").split(":")[0]
            rec.case(c, [form, "fault-" + fault if fault else "ran", "averaged" if averaged else "single", "first-" + first,
                         "ids" if ids != list(range(1, n + 1)) else "plain", "types%d" % nt])


def drawn(s, figs, seen, sizes, **kw):
    """Show a system, press the button once for each size."""
    import ipywidgets as w
    s.show(**kw)
    new = [x for k, x in w.Widget.widgets.items() if k not in seen]
    buttons = [x for x in new if isinstance(x, w.Button)]
    slider = [x for x in new if isinstance(x, w.FloatSlider)]
    for z in sizes:
        for x in slider:
            x.value = z
        for b in buttons:
            b.click()
    for x in new:
        x.close()


def of_figure(f):
    lines, p, color, size, title = [], [], [], -1, ""
    for t in f.data:
        xyz = [pv.grid(v) for v in zip(t.x, t.y, t.z)] if t.x is not None else []
        if t.mode == "lines":
            lines.append(xyz)
        else:
            p += xyz
            color += [pv.q(x, 1e4) for x in t.marker.color]
            size = pv.q(t.marker.size, 1)
            title = t.marker.colorbar.title.text or ""
    return {"lines": lines, "p": p, "color": color, "size": size, "title": title}


def plots(rec, reps):
    from plotly import graph_objs as go_
    from ipywidgets import Widget
    figs = []
    go_.Figure.show = lambda self, *a, **k: figs.append(of_figure(self))
    out, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        for rep in range(reps):
            for form in ("ortho", "tilted", "general", "any"):
                r = rng("C32", rep, form)
                n = r.choice([1, 3, 8, 20])
                cell, pos = some_atoms(r, some_cell(r, form), n, r.random() < .5)
                colorby = r.choice(["", "type", "energy", "mark", "q6", "aq6", "id", "volume"])
                filterby = r.choice(["", "", "solid", "pick", "mask", "cluster"])
                pick = [r.randint(0, 1) if rep % 7 else 0 for _ in range(n)]
                sizes = [r.randint(2, 30) for _ in range(r.choice([1, 1, 2, 3]))]
                what = {"kind": "show", "form": form, "n": n, "colorby": colorby, "filterby": filterby}
                if not rec.start(what):
                    continue
                c = dict(what, cell=cell, pos=pos, keep=[True if not filterby else x == 1 for x in pick], sizes=sizes, colors=[], before={}, after={}, figs=[])
                figs.clear()

                def go():
                    atoms = pv.make_atoms(pos, [r.randint(1, 3) for _ in range(n)], ids=some_ids(r, n))
                    for k, a in enumerate(atoms):
                        a.energy = r.randint(-500, 500) / 4.
                        a.volume = r.randint(0, 500) / 8.
                        a.solid, a.mask, a.cluster = bool(pick[k]), bool(pick[k]), pick[k] * r.randint(1, 4)
                        a.custom = {"mark": r.randint(-9, 9), "pick": pick[k]}
                        a.set_q(6, r.randint(0, 1000) / 1000.)
                        a.set_q(6, r.randint(0, 1000) / 1000., True)
                    s = pv.core().System()
                    s.box = [[x * UNIT for x in v] for v in cell]
                    s.atoms = atoms
                    c["before"] = plain(s)
                    if colorby:
                        c["colors"] = [pv.q(a.custom["mark"] if colorby == "mark" else a.get_q(6) if colorby == "q6" else a.get_q(6, True)
                                            if colorby == "aq6" else getattr(a, colorby), 1e4) for a in s.atoms]
                    kw = {}
                    if colorby:
                        kw["colorby"] = colorby
                    if filterby:
                        kw["filterby"] = filterby
                    drawn(s, figs, set(Widget.widgets), sizes, **kw)
                    c["after"] = plain(s)
                _, err = attempt(go)
                c["figs"], c["err2"] = list(figs), err or ""
                rec.case(c, [form, "color-" + colorby, "filter-" + filterby, "drawn%d" % len(sizes)])
    finally:
        sys.stdout = out


def run(rec):
    t = pv.THOROUGH
    if sys.argv[2] == "C31":
        d, cwd = tempfile.mkdtemp(prefix="verif-outside-"), os.getcwd()
        try:
            energies(rec, d, 400 if t else 160)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d)
    else:
        plots(rec, 400 if t else 120)


if __name__ == "__main__":
    pv.main(run)
