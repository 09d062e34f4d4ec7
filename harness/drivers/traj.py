"""C23: behaviours of trajectories, generated from the specification, replayed on the code."""
import json, os, re, sys, tempfile, warnings
import numpy as np
from harness import pv
from harness.pv import rng, attempt, q, qv
from harness.drivers.system import histories
from harness.drivers.files import dump_text, parse_dump, seen, seen_ase

NONE = 99
SP = ["Cu", "Al", "Ni", "Fe"]


def end(x):
    return None if x == NONE else x


def frames_of(text):
    out = []
    for f in parse_dump(text, 64, plain=()):
        out.append({"step": f["step"], "natoms": f["natoms"], "words": f["boxwords"], "box": f["bounds"], "head": f["head"],
                    "rows": [[w["n"] for w in row] for row in f["rows"]]})
    return out


def frame_of_dict(d, step, words, natoms):
    """Loaded data as a frame; what it does not hold is taken from the file."""
    head = list(d["atoms"].keys())
    n = len(d["atoms"][head[0]]) if head else 0
    return {"step": step, "natoms": natoms, "words": words, "box": [qv(b, 64) for b in np.array(d["box"])], "head": head,
            "rows": [[q(d["atoms"][h][i], 64) for h in head] for i in range(n)]}


class Run:
    def __init__(self, d, case, names):
        from pyscal.trajectory import Trajectory
        self.d, self.case = d, case
        self.tr = [Trajectory(n) for n in names]
        self.sl = []

    def do(self, op):
        o, k, a, b, c = op["o"], op["k"], op["a"], op["b"], op["c"]
        if o == "slice":
            self.sl.append(self.tr[k - 1][end(a):end(b):end(c)])
        elif o == "index":
            self.sl.append(self.tr[k - 1][a])
        elif o == "add":
            self.sl.append(self.sl[k - 1] + self.sl[a - 1])
        elif o == "sum":
            self.sl.append(sum([self.sl[k - 1], self.sl[a - 1]]))
        elif o == "block":
            return frames_of("".join(self.tr[k - 1].get_block(a)))
        elif o == "repr":
            return [int(x) for x in re.findall(r"\d+", repr(self.tr[k - 1]))]
        elif o == "iter":
            how = {1: "ascending", 2: "descending", 3: "random", 4: "nosuch"}[a]
            system = c == 1 and a in (1, 2)
            got = list(self.tr[k - 1].iter(method=how, n_slices=end(b), output="system" if system else "index"))
            return [seen(x, 4096) for x in got] if system else [int(x) for x in got]
        elif o == "load":
            self.tr[k - 1].load(a)
        elif o == "unload":
            self.tr[k - 1].unload(a)
        elif o == "change":
            data = self.tr[k - 1].data[a]
            if b == 3:
                data["box"][0][1] += 1
            else:
                col = {1: "x", 2: "type"}[b]
                if col in data["atoms"]:
                    if (a + k) % 2:
                        data["atoms"][col] += 1                       # in place
                    else:
                        data["atoms"][col] = data["atoms"][col] + 1
        elif o == "system":
            keys = self.case["keys"] if a else []
            return [seen(s, 4096, keys) for s in self.sl[k - 1].to_system(customkeys=keys or None)]
        elif o == "ase":
            return [seen_ase(s, 4096) for s in self.sl[k - 1].to_ase(species=SP[:self.case["ntypes"]])]
        elif o == "dict":
            return [frame_of_dict(x, 0, [], 0) for x in self.sl[k - 1].to_dict()]
        elif o in ("file", "append"):
            path = os.path.join(self.d, "out")
            if o == "append":
                self.tr[0][0].to_file(path)
                self.sl[k - 1].to_file(path, mode="a")
            else:
                with open(path, "w") as f:
                    f.write("what was there before\n")
                self.sl[k - 1].to_file(path)
            text = open(path, newline="").read()
            os.remove(path)
            return frames_of(text)
        return []


def play(d, case, hist):
    names = []
    for t, text in enumerate(case["texts"]):
        names.append(os.path.join(d, "t%d.dump" % t))
        with open(names[-1], "w", newline="") as f:
            f.write(text)
    run, steps = Run(d, case, names), []
    for op in hist:
        ret, err = attempt(lambda: run.do(op))
        st = {"op": op, "err": err.split(":")[0], "msg": err[:120], "obs": ret or []}
        st["ld"] = [[([] if x is None else [frame_of_dict(x, 0, [], 0)]) for x in t.data] for t in run.tr]
        st["flags"] = [[int(bool(x)) for x in t.loadlist] for t in run.tr]
        st["nb"] = [[t.nblocks, t.natoms] for t in run.tr]
        steps.append(st)
    same = all(open(n, newline="").read() == text for n, text in zip(names, case["texts"]))
    left = sorted(x for x in os.listdir(d) if os.path.join(d, x) not in names)
    for n in names:
        os.remove(n)
    return steps, same, left


def run(rec):
    prop = sys.argv[2]
    seen_h = set()
    with tempfile.TemporaryDirectory(prefix="verif-traj-") as d:
        i = -1
        for pattern, nfs in ((r".*Gen%sSteps.*\.log$" % prop, [3]), (r".*Gen%s(_thorough)?\.cfg\.log$" % prop, [5, 3])):
            hists = histories(pattern)
            if not hists:
                raise SystemExit("no histories of the specification: " + pattern)
            for h in hists:
                i += 1
                key = json.dumps([nfs, h])
                if key in seen_h:
                    continue
                seen_h.add(key)
                if not rec.start({"history": [[x["o"], x["k"], x["a"], x["b"], x["c"]] for x in h]}):
                    continue
                r = rng("traj", prop, i)
                texts, cols, nt = [], [], []
                for nf in nfs:
                    text, c = dump_text(r, r.randint(4, 6), nf, numbers=True)
                    if r.random() < 0.3:
                        # a frame that was not finished
                        text += "".join(text.splitlines(True)[:r.randint(1, 9)])
                    texts.append(text)
                    cols.append(c)
                frames = []
                for nf, text in zip(nfs, texts):
                    lines = text.splitlines(True)
                    size = int(lines[3]) + 9
                    frames.append(frames_of("".join(lines[:size * nf])))
                nt = [int(max(row[f["head"].index("type")] for row in f["rows"]) // 64) for fr in frames for f in fr]
                if len(set(nt)) > 1:
                    # all frames with the same number of types: a list of species is for all
                    nts = -1
                else:
                    nts = nt[0]
                common = [c for c in cols[0] if all(c in x for x in cols) and c not in ("id", "type", "x", "y", "z", "xs", "ys", "zs")]
                case = {"texts": texts, "keys": common, "ntypes": nts}
                hh = [x for x in h if not (x["o"] == "ase" and nts < 0)]
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    steps, same, left = play(d, case, hh)
                rec.case({"nf": nfs, "F": frames, "keys": common, "species": SP, "steps": steps, "same": same, "left": left},
                         tags=sorted({x["o"] for x in hh}))


if __name__ == "__main__":
    pv.main(run)
