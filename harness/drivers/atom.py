"""C30: atoms on their own and inside a System, by behaviours of the machine in Atom.tla."""
import json, sys
import numpy as np
from harness import pv
from harness.pv import rng, attempt, BIG
from harness.drivers.system import histories

REALS = ("cutoff avg_sij disorder avg_disorder volume avg_volume angular avg_angular centrosymmetry "
         "entropy avg_entropy energy avg_energy").split()
INTS = "id type condition cluster bonds structure loc".split()
BOOLS = "mask solid surface largest_cluster".split()
REALLISTS = ["vertex_vectors", "sro", "pos", "allq", "allaq", "neighbor_weights", "face_perimeters"]
INTLISTS = ["chiparams", "vertex_numbers", "vorovector", "face_vertices", "neighbors"]
REALTABLES = ["vertex_positions", "edge_lengths", "next_neighbor_distances"]
INTTABLES = ["cna", "common", "cna_bonds", "next_neighbors"]


def real(x):
    return x / 64.


def to_code(a, v):
    if a in REALS:
        return real(v)
    if a in BOOLS:
        return bool(v)
    if a in REALLISTS:
        return [real(x) for x in v]
    if a in REALTABLES:
        return [[real(x) for x in y] for y in v]
    if a == "custom":
        return {"mark": v}
    return v


def i64(x):
    x = float(x) * 64
    if x != x or abs(x) > 2 ** 30:
        return BIG
    return int(x) if x == int(x) else BIG


def of_code(a, x):
    if a in REALS:
        return i64(x)
    if a in BOOLS:
        return int(x) if isinstance(x, bool) else BIG
    if a in REALLISTS:
        return [i64(y) for y in x]
    if a in REALTABLES:
        return [[i64(z) for z in y] for y in x]
    if a == "custom":
        return x.get("mark", 0) if set(x) <= {"mark"} else BIG
    if a in INTLISTS:
        return [int(y) for y in x]
    if a in INTTABLES:
        return [[int(z) for z in y] for y in x]
    return int(x)


ATTRS = REALS + INTS + BOOLS + REALLISTS + INTLISTS + REALTABLES + INTTABLES + ["custom"]


def look(a):
    """All that is seen of an atom, and whether what can be seen in several ways is the same in all."""
    out = {x: of_code(x, getattr(a, x)) for x in ATTRS}
    n = len(out["neighbors"])
    ok = a.coordination == n and len(a.neighbor_distance) == n and len(a.sij) == n and len(a.neighbor_vector) == n
    for av, name in ((False, "allq"), (True, "allaq")):
        ok = ok and [a.get_q(l, av) for l in range(2, 13)] == getattr(a, name) == a.get_q(list(range(2, 13)), av)
        ok = ok and a.get_q([7, 3, 12], averaged=av) == [getattr(a, name)[x] for x in (5, 1, 10)]
    return out, bool(ok)


class Run:
    def __init__(self):
        from pyscal.catom import Atom
        self.Atom = Atom
        self.h = [Atom(pos=[1.0, 2.0, 3.0], id=1, type=1), Atom()]
        self.s = None
        self.n = 0

    def take(self, how, m):
        if how == "get":
            return self.s.get_atom(m - 1)
        if how == "list":
            return self.s.atoms[m - 1]
        return list(self.s.iter_atoms())[m - 1]

    def do(self, op):
        o, h, a, m, v = op["o"], op["h"] - 1, op["a"], op["m"], op["v"]
        if o == "new":
            self.h[h] = self.Atom([real(x) for x in v], m, m + 1)
        elif o == "set":
            setattr(self.h[h], a, to_code(a, v))
        elif o == "setq":
            self.h[h].set_q(m, real(v), a == "aq")
        elif o == "setqs":
            self.h[h].set_q([x[0] for x in v], [real(x[1]) for x in v], averaged=(a == "aq"))
        elif o == "ro":
            n = self.h[h].coordination
            setattr(self.h[h], a, [[0.5, 0.25, 0.125][:2 if a == "local_angles" else 3]] * n if a in ("neighbor_vector", "local_angles") else [0.5] * n)
        elif o == "bad":
            bad(self.h[h], self.Atom, m)
        elif o == "assign":
            self.s = pv.core().System()
            self.s.box = [[20.0, 0, 0], [0, 21.0, 0], [0, 0, 22.0]]
            n = 3 if m == 1 else 210
            self.s.atoms = self.h + [self.Atom([0.09 * i, 0.07 * i, 0.05 * i], 5000 + i, 1) for i in range(n)]
            self.n = n + 2
        elif o == "fetch":
            self.h[h] = self.take(a, m)
        elif o == "put":
            self.s.set_atom(self.h[h])
        elif o == "add":
            self.s.add_atoms([self.Atom([0.5, 0.5, 0.5], 9000, 1)])
            self.n += 1
        elif o == "peek":
            x = self.take(a, m)
            for k in REALS + INTS:
                setattr(x, k, 3)
            x.pos, x.neighbors, x.allq, x.sro, x.cna = [7.0, 7.0, 7.0], [3], [0.5] * 11, [1.0], [[4, 2, 1]]
            x.custom = {"mark": 77}
            for l in (x.neighbors, x.allaq, x.pos, x.sro):
                l.append(5)

    def look(self):
        atoms = list(self.h)
        ok = True
        if self.s is not None:
            atoms += [self.s.get_atom(0), self.s.get_atom(1)]
            ok = self.s.natoms == self.n
            for l in (2, 6, 12):
                ok = ok and self.s.get_qvals(l)[:2] == [x.get_q(l) for x in atoms[2:]]
                ok = ok and self.s.get_qvals(l, averaged=True)[:2] == [x.get_q(l, True) for x in atoms[2:]]
        seen = [look(x) for x in atoms]
        return [x[0] for x in seen], bool(ok and all(x[1] for x in seen))


def bad(a, Atom, m):
    n = 301
    (lambda: a.set_q(1, .5), lambda: a.set_q(13, .5), lambda: a.set_q(-3, .5, True), lambda: a.get_q(1), lambda: a.get_q([6, 13]),
     lambda: a.set_q([6, 1], [.1, .2]), lambda: a.set_q([6, 4], [.1]), lambda: a.set_q([4, 13, 6], [.1, .2, .3], True),
     lambda: a.get_qlm(1), lambda: a.get_qlm(13), lambda: a.get_qlm(-1, True), lambda: a.get_qlm(14, averaged=True),
     lambda: setattr(a, "pos", [1.0]), lambda: setattr(a, "pos", []), lambda: setattr(a, "pos", ["a", "b", "c"]), lambda: setattr(a, "allq", [.5]),
     lambda: setattr(a, "allaq", [.5] * 10), lambda: setattr(a, "vorovector", [1]), lambda: setattr(a, "neighbors", list(range(n))),
     lambda: setattr(a, "neighbor_weights", [.5] * n), lambda: setattr(a, "face_vertices", [3] * n),
     lambda: setattr(a, "face_perimeters", [.5] * n), lambda: setattr(a, "type", "x"), lambda: setattr(a, "coordination", 3),
     lambda: setattr(a, "nonsense", 3), lambda: Atom([1.0]), lambda: setattr(a, "id", 0.5), lambda: setattr(a, "neighbors", [0.5]),
     lambda: setattr(a, "custom", 3), lambda: a.set_q([6], .5))[m - 1]()


def changes(old, new):
    """what is seen now, as differences to what was seen before"""
    return [[k + 1, a, x[a]] for k, x in enumerate(new) for a in ATTRS if k >= len(old) or old[k][a] != x[a]]


def play(hist):
    run, old, steps = Run(), [], []
    for op in [{"o": "start", "h": 1, "a": "", "m": 0, "v": []}] + hist:
        _, err = attempt(lambda: run.do(op))
        new, ok = run.look()
        steps.append({"op": op, "err": err.split(":")[0], "chg": changes(old, new), "same": ok})
        old = new
    return steps


def run(rec):
    prop = sys.argv[2]
    i, seen = -1, set()
    for pattern in (r".*Gen%sSteps.*\.log$" % prop, r".*Gen%s(_thorough)?\.cfg\.log$" % prop):
        hs = histories(pattern)
        if not hs:
            raise SystemExit("no histories of the specification: " + pattern)
        for h in hs:
            key = json.dumps(h)
            if key in seen:
                continue
            seen.add(key)
            if not rec.start({"history": [[x["o"], x["h"], x["a"], x["m"]] for x in h]}):
                continue
            rec.case({"steps": play(h)}, tags=sorted({x["o"] for x in h}))


if __name__ == "__main__":
    pv.main(run)
