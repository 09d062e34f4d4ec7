"""Support for the drivers: runs the code under test, records what it shows to a user.

A driver produces one JSON record per case.  All numbers in a record are integers: positions
and cells lie on a grid of spacing `unit` (a power of two, so that the code sees them exactly)
and results are rounded to a stated scale.  What is expected of the results is not computed
here but in the TLA+ modules.
"""
import json, math, os, random, sys, time, traceback, warnings
import numpy as np

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
UNIT = 1.0 / 64

warnings.simplefilter("ignore")
np.seterr(all="ignore")


def rng(*salt):
    return random.Random("%d/%s" % (SEED, "/".join(map(str, salt))))


BIG = 2 ** 31 - 1


def q(x, scale):
    """Round to an integer at `scale`; BIG for NaN or out of range, which no expectation accepts."""
    try:
        x = float(x)
    except Exception:
        return BIG
    if not math.isfinite(x) or abs(x * scale) >= BIG:
        return BIG
    return int(round(x * scale))


def qv(v, scale):
    return [q(x, scale) for x in v]


def grid(v, unit=UNIT):
    """Integers of a vector that must lie on the grid; BIG where it does not."""
    out = []
    for x in v:
        r = q(x, 1.0 / unit)
        if r != BIG and abs(x / unit - r) > 1e-4:
            r = BIG
        out.append(r)
    return out


class Recorder:
    def __init__(self, path, budget=None):
        self.f = open(path, "w")
        self.n = 0
        self.tags = {}
        self.progress = path + ".progress"
        # a driver runs as several processes, which divide the cases between them
        self.shard, self.shards = map(int, os.environ.get("VERIF_SHARD", "0/1").split("/"))
        self.started = 0

    def start(self, what):
        """Is the next case one of this process?  Names the case in progress, in case the
        code under test takes the process down."""
        self.started += 1
        if self.started % self.shards != self.shard:
            return False
        with open(self.progress, "w") as p:
            p.write(json.dumps(what))
        return True

    def case(self, rec, tags=()):
        self.n += 1
        rec = dict(rec)
        rec["id"] = (self.n - 1) * self.shards + self.shard + 1
        rec.setdefault("err", "")
        self.f.write(json.dumps(rec) + "\n")
        for t in tags:
            self.tags[t] = self.tags.get(t, 0) + 1
        return self.n

    def close(self):
        self.f.close()
        with open(self.f.name + ".tags", "w") as g:
            json.dump({"cases": self.n, "tags": self.tags}, g)
        if os.path.exists(self.progress):
            os.remove(self.progress)


def attempt(fn):
    """(result, "") or (None, "ExceptionName: message")"""
    try:
        return fn(), ""
    except Exception as e:
        return None, "%s: %s" % (type(e).__name__, str(e)[:200])


def main(run):
    """Entry point of a driver: `run(rec)` makes the cases."""
    rec = Recorder(sys.argv[1])
    run(rec)
    rec.close()


# ---------------------------------------------------------------------------------------
# making systems
# ---------------------------------------------------------------------------------------
def core():
    import pyscal.core as pc
    return pc


def det3(c):
    return (c[0][0] * (c[1][1] * c[2][2] - c[1][2] * c[2][1])
            - c[0][1] * (c[1][0] * c[2][2] - c[1][2] * c[2][0])
            + c[0][2] * (c[1][0] * c[2][1] - c[1][1] * c[2][0]))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def widths(c):
    """Perpendicular widths of a cell."""
    v = abs(det3(c))
    return [v / math.sqrt(sum(x * x for x in cross(c[1], c[2]))),
            v / math.sqrt(sum(x * x for x in cross(c[0], c[2]))),
            v / math.sqrt(sum(x * x for x in cross(c[0], c[1])))]


def cell_ortho(r, lo, hi, cubic=False):
    if cubic:
        L = r.randint(lo, hi)
        return [[L, 0, 0], [0, L, 0], [0, 0, L]]
    return [[r.randint(lo, hi), 0, 0], [0, r.randint(lo, hi), 0], [0, 0, r.randint(lo, hi)]]


def cell_lammps(r, lo, hi, tilt=0.45):
    """Lower triangular cell, tilts of either sign."""
    c = cell_ortho(r, lo, hi)
    m = int(tilt * lo)
    while True:
        t = [r.randint(-m, m) for _ in range(3)]
        if any(abs(x) > 2 for x in t):
            break
    c[1][0], c[2][0], c[2][1] = t
    return c


def cell_general(r, lo, hi, tilt=0.35, lefthanded=False):
    """A cell with no zero component, right or left handed."""
    while True:
        c = cell_ortho(r, lo, hi)
        m = int(tilt * lo)
        for i in range(3):
            for j in range(3):
                if i != j:
                    c[i][j] = r.randint(-m, m)
        if det3(c) > 0 and min(widths(c)) > 0.5 * lo:
            break
    if lefthanded:
        c[0], c[1] = c[1], c[0]
    return c


def wrapped_frac(c, p):
    inv = np.linalg.inv(np.array(c, float))
    f = np.array(p, float) @ inv
    return f


def random_positions(r, c, n, minsep=8, inside=True):
    """n grid points of the cell, no two closer than minsep (periodic)."""
    cn = np.array(c, float)
    inv = np.linalg.inv(cn)
    pts = []
    arr = np.zeros((0, 3))
    tries = 0
    while len(pts) < n:
        tries += 1
        if tries > 200 * n + 2000:
            minsep = max(1, minsep - 1)
            tries = 0
        f = np.array([r.random(), r.random(), r.random()])
        p = np.rint(f @ cn)
        fr = p @ inv
        if inside and (fr.min() < 0 or fr.max() >= 1):
            continue
        if len(pts):
            d = (arr - p) @ inv
            d -= np.rint(d)
            d = d @ cn
            if (d * d).sum(axis=1).min() < minsep * minsep:
                continue
        pts.append([int(x) for x in p])
        arr = np.vstack([arr, p])
    return pts


def make_atoms(pos, types=None, unit=UNIT, ids=None):
    from pyscal.catom import Atom
    out = []
    for i, p in enumerate(pos):
        a = Atom()
        a.pos = [x * unit for x in p]
        a.id = i + 1 if ids is None else ids[i]
        a.type = 1 if types is None else types[i]
        a.loc = i
        out.append(a)
    return out


def make_system(cell, pos, types=None, unit=UNIT, ids=None):
    s = core().System()
    s.box = [[x * unit for x in v] for v in cell]
    s.atoms = make_atoms(pos, types, unit, ids)
    return s


def neighbor_obs(s, hosts, unit=UNIT, wscale=0):
    """What a user sees of the neighbors of some atoms, on the grid.

    per neighbor: displacement (3), 10 x distance, grid position of the atom that the index
    refers to (3), its type, index
    """
    allatoms = s.get_all_atoms()
    out = []
    for h in hosts:
        a = s.get_atom(h)
        neigh, dist, vec, w = a.neighbors, a.neighbor_distance, a.neighbor_vector, a.neighbor_weights
        rec = {"h": h + 1, "coord": a.coordination, "len": [len(neigh), len(dist), len(vec), len(w)]}
        items = []
        for k in range(min(rec["len"])):
            i = neigh[k]
            if 0 <= i < len(allatoms):
                p, t = grid(allatoms[i].pos, unit), allatoms[i].type
            else:
                p, t = [BIG, BIG, BIG], -1
            items.append({"v": grid(vec[k], unit), "d": q(dist[k], 10 / unit), "p": p, "t": t,
                          "i": i + 1, "w": q(w[k], wscale if wscale else 1000)})
        rec["n"] = items
        rec["cut"] = q(a.cutoff, 10 / unit)
        out.append(rec)
    return out


def half_cut(r, lo, hi):
    """A cutoff (c + 1/2) grid units: no distance of grid points equals it."""
    return r.randint(int(lo), int(hi))


def fcc(n, a):
    """grid positions of an n x n x n fcc crystal, a divisible by 2"""
    return _lattice(n, a, [[0, 0, 0], [0, 1, 1], [1, 0, 1], [1, 1, 0]], 2)


def bcc(n, a):
    return _lattice(n, a, [[0, 0, 0], [1, 1, 1]], 2)


def sc(n, a):
    return _lattice(n, a, [[0, 0, 0]], 1)


def diamond(n, a):
    return _lattice(n, a, [[0, 0, 0], [0, 2, 2], [2, 0, 2], [2, 2, 0],
                           [1, 1, 1], [1, 3, 3], [3, 1, 3], [3, 3, 1]], 4)


def _lattice(n, a, basis, den):
    if isinstance(n, int):
        n = [n, n, n]
    pos = []
    for i in range(n[0]):
        for j in range(n[1]):
            for k in range(n[2]):
                for b in basis:
                    pos.append([i * a + b[0] * a // den, j * a + b[1] * a // den, k * a + b[2] * a // den])
    return [[n[0] * a, 0, 0], [0, n[1] * a, 0], [0, 0, n[2] * a]], pos


def jitter(r, pos, amp):
    return [[x + r.randint(-amp, amp) for x in p] for p in pos]
