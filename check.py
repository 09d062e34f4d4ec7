#!/opt/venv/bin/python
"""check.py <property>: decide one property for /repo's working tree.

exit 0: the property held on everything explored.  exit 1 and a VIOLATION line: it is broken.
Any other exit is a failure of the machinery.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from harness import build as B
from harness.registry import CHECKS

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SHARDS = 8
DRIVER_LIMIT = 420 if TIER == "quick" else 3000
TLC_LIMIT = 420 if TIER == "quick" else 3600


def log(msg):
    print("  [%6.1f] %s" % (time.time() - T0, msg), flush=True)


def fail_machinery(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def tlc(module, cfg, work, env=None, workers=4, heap="4g", extra=()):
    meta = os.path.join(work, "meta-" + module + "-" + os.path.basename(cfg))
    cmd = ["java", "-Xmx" + heap, "-Xss128m", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    out = open(os.path.join(work, module + "-" + os.path.basename(cfg) + ".log"), "w")
    return subprocess.Popen(cmd, cwd=os.path.join(HERE, "spec"), env=e, stdout=out,
                            stderr=subprocess.STDOUT, start_new_session=True), out.name


def finish(proc, limit):
    try:
        proc.wait(timeout=limit)
        return True
    except subprocess.TimeoutExpired:
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        proc.wait()
        return False


def stats(text):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def brief(rec, n=400):
    """A case, shortened for people."""
    def cut(x, d=0):
        if isinstance(x, list):
            return [cut(y, d + 1) for y in x[:3]] + (["... %d in all" % len(x)] if len(x) > 3 else [])
        if isinstance(x, dict):
            return {k: cut(v, d + 1) for k, v in list(x.items())[:14]}
        return x
    return cut(rec)


def main():
    pid = sys.argv[1]
    if pid not in CHECKS:
        fail_machinery("no such property: " + pid)
    chk = CHECKS[pid]
    print("%s  tier=%s seed=%d" % (pid, TIER, SEED), flush=True)
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        run(pid, chk, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, chk, work):
    try:
        src, key = B.build(log)
    except B.BuildError as e:
        fail_machinery(str(e))

    # the exhaustive models do not depend on the code; they run alongside
    models = []
    for m in chk["models"]:
        name, cfg = (m, m) if isinstance(m, str) else m
        if TIER == "thorough" and os.path.exists(os.path.join(HERE, "spec", cfg + "_thorough.cfg")):
            cfg += "_thorough"
        models.append((name, cfg) + tlc(name, cfg + ".cfg", work, workers=2 if TIER == "quick" else 4,
                                        env={"GEN_N": str(chk["behaviours"][TIER == "thorough"]), "VERIF_SEED": str(SEED)}))
    waited = set()

    problems = []          # (clause, case id, record, source)
    evid = dict(cases=0, tags={}, states=0, transitions=0, samples=[], clauses={})
    for part, (driver, trace) in enumerate(chk["parts"]):
        # behaviours generated from the specification are inputs of some drivers
        for i, (name, cfg, proc, logf) in enumerate(models):
            if cfg.startswith("Gen") and i not in waited:
                if not finish(proc, TLC_LIMIT):
                    fail_machinery("model %s did not finish" % cfg)
                waited.add(i)
        env = dict(os.environ)
        env.update(PYTHONPATH=HERE + ":" + src, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", VERIF_SEED=str(SEED), VERIF_TIER=TIER, VERIF_WORK=work,
                   PYTHONHASHSEED="0", MPLBACKEND="Agg")
        procs = []
        for s in range(SHARDS):
            e = dict(env, VERIF_SHARD="%d/%d" % (s, SHARDS))
            d = os.path.join(work, "run-%d-%d" % (part, s))
            os.makedirs(d)
            out = os.path.join(work, "cases-%d-%d" % (part, s))
            errf = open(out + ".err", "w")
            procs.append((s, out, subprocess.Popen(
                ["/opt/venv/bin/python", "-m", "harness.drivers." + driver, out, pid], cwd=d, env=e,
                stdout=errf, stderr=subprocess.STDOUT, start_new_session=True)))
        deadline = time.time() + DRIVER_LIMIT
        for s, out, p in procs:
            ok = finish(p, max(1, deadline - time.time()))
            if ok and p.returncode == 0:
                continue
            at = None
            if os.path.exists(out + ".progress"):
                at = json.load(open(out + ".progress"))
            text = open(out + ".err").read()
            if not ok:
                problems.append(("Hang", 0, {"in progress": at, "part": driver}, "driver"))
            elif p.returncode < 0:
                problems.append(("Crash", 0, {"in progress": at, "signal": -p.returncode, "part": driver}, "driver"))
            elif src in text and at is not None:
                # an exception out of the code under test, where the driver did not expect any
                problems.append(("Raised", 0, {"in progress": at, "traceback": text[-1500:], "part": driver}, "driver"))
            else:
                fail_machinery("driver %s failed:\n%s" % (driver, text[-3000:]))
        # all complete cases together
        merged = os.path.join(work, "cases-%d.ndjson" % part)
        recs = {}
        with open(merged, "w") as f:
            for s, out, p in procs:
                if not os.path.exists(out):
                    continue
                for line in open(out):
                    if not line.endswith("}\n"):
                        continue
                    try:
                        rec = json.loads(line)
                    except ValueError:
                        continue
                    recs[rec["id"]] = line
                    f.write(line)
                if os.path.exists(out + ".tags"):
                    for t, n in json.load(open(out + ".tags"))["tags"].items():
                        evid["tags"][t] = evid["tags"].get(t, 0) + n
        log("%s: %d cases recorded" % (driver, len(recs)))
        if not recs:
            if problems:
                continue
            fail_machinery("driver %s recorded nothing" % driver)
        proc, logf = tlc(trace, trace + ".cfg", work, env={"CASES": merged}, workers=8, heap="10g")
        if not finish(proc, TLC_LIMIT):
            fail_machinery("TLC did not finish judging the cases of " + driver)
        text = open(logf).read()
        for m in re.finditer(r'^"VERDICT (.*)"$', text, re.M):
            v = json.loads(m.group(1).replace('\\"', '"'))
            for c in v["clauses"]:
                problems.append((c, v["id"], recs[v["id"]], driver))
        gen, dist = stats(text)
        if "Model checking completed. No error has been found." not in text:
            if "TLC threw an unexpected exception" in text or "Error: Evaluating" in text or "Error: " in text:
                i = text.find("Error: ")
                detail = text[i:i + 1500]
                if any(x in detail for x in ("OutOfMemory", "StackOverflow", "Parsing", "Semantic", "AllJudged", "postcondition")):
                    fail_machinery("TLC on %s: %s" % (trace, detail))
                # what was recorded is nothing that the specification can even read
                problems.append(("Unreadable", 0, {"tlc": detail, "part": driver}, driver))
            else:
                fail_machinery("TLC on %s: %s" % (trace, text[-2000:]))
        log("%s: %d cases judged" % (trace, dist))
        evid["cases"] += len(recs)
        evid["states"] += dist
        evid["transitions"] += gen
        for line in list(recs.values())[:2]:
            evid["samples"].append(brief(json.loads(line)))

    mods = {}
    for i, (name, cfg, proc, logf) in enumerate(models):
        if i not in waited and not finish(proc, TLC_LIMIT):
            fail_machinery("model %s did not finish" % cfg)
        text = open(logf).read()
        if "Model checking completed. No error has been found." not in text:
            j = max(text.find("Error: "), 0)
            fail_machinery("model %s: %s" % (cfg, text[j:j + 3000]))
        gen, dist = stats(text)
        mods[cfg] = {"transitions": gen, "distinct_states": dist}
        evid["states"] += dist
        evid["transitions"] += gen
        log("model %s: %d states" % (cfg, dist))

    # known findings: a clause of the specification that describes exactly that deviation
    known = [k for k in json.load(open(os.path.join(HERE, "known-findings.json")))["known"] if k["property"] == pid]
    seen, fresh = {}, []
    for c, cid, rec, source in problems:
        hit = [k for k in known if k["clause"] == c]
        if hit:
            seen.setdefault(hit[0]["id"], [hit[0], 0])[1] += 1
        else:
            fresh.append((c, cid, rec, source))
    for kid, (k, n) in sorted(seen.items()):
        print("KNOWN-FINDING: property=%s %s (%s; %d cases)" % (pid, k["what"], kid, n), flush=True)

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": chk["level"],
          "coverage": {"states": evid["states"], "transitions": evid["transitions"],
                       "traces_validated_against_impl": evid["cases"],
                       "samples": evid["samples"],
                       "cases_by_kind": evid["tags"], "models": mods,
                       "trace_specs": [t for _, t in chk["parts"]], "source_digest": key,
                       "known_findings_seen": {k: v[1] for k, v in seen.items()}},
          "assumptions": chk["assumptions"], "wall_s": round(time.time() - T0, 1),
          "violations": len(fresh)}
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % pid)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))

    if not fresh:
        print("OK property=%s cases=%d states=%d  %.1f s" % (pid, evid["cases"], evid["states"], time.time() - T0), flush=True)
        sys.exit(0)
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    counts = {}
    for c, cid, rec, source in fresh:
        counts[c] = counts.get(c, 0) + 1
    c, cid, rec, source = fresh[0]
    path = os.path.join(HERE, "replay", "%s.json" % pid)
    full = json.loads(rec) if isinstance(rec, str) else rec
    json.dump({"property": pid, "seed": SEED, "tier": TIER, "driver": source, "clauses_failing": counts,
               "first_clause": c, "case_id": cid, "brief": brief(full), "case": full,
               "how": "VERIF_SEED=%d VERIF_TIER=%s ./check.py %s" % (SEED, TIER, pid)},
              open(path, "w"), indent=1)
    print("failing clauses: " + ", ".join("%s x%d" % kv for kv in sorted(counts.items())), flush=True)
    print(json.dumps(brief(full))[:1500], flush=True)
    print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    sys.exit(1)


T0 = time.time()
if __name__ == "__main__":
    main()
