#!/usr/bin/env python3
"""Runs one property's check.

  check.py P01 [--tier quick|thorough]     explore; write evidence/P01.json
  check.py --replay FILE                   replay one recorded violation
  check.py --list

Exit 0: the property held on everything explored (known findings apart).
Exit 1: a line "VIOLATION property=<id> replay=<path>" names each violation.
Exit 2: the check could not give an answer (build failure, broken harness).
"""
import argparse, concurrent.futures as cf, fnmatch, hashlib, json, os, resource, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
import lgbuild            # noqa: E402
import checks             # noqa: E402

NPROC = max(1, min(8, os.cpu_count() or 1))
JOB_TIMEOUT = {"quick": 800, "thorough": 6 * 3600}


def limits(mem):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


class Out:
    def __init__(self):
        self.counts, self.samples, self.viols, self.done, self.tail = {}, [], [], False, ""


def run_proc(argv, env, mem, timeout):
    """one shard (or one replay); parses the line protocol"""
    o = Out()
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout,
                           preexec_fn=limits(mem), stdin=subprocess.DEVNULL)
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as t:
        out, err, rc = t.stdout or b"", t.stderr or b"", "timeout"
    for line in out.decode("utf-8", "replace").split("\n"):
        if line.startswith("COUNT "):
            _, k, v = line.split(" ")
            o.counts[k] = o.counts.get(k, 0) + int(v)
        elif line.startswith("SAMPLE "):
            try:
                o.samples.append(json.loads(line[7:]))
            except ValueError:
                pass
        elif line.startswith("VIOL "):
            k, _, w = line[5:].partition("\t")
            o.viols.append((k, w))
        elif line.startswith("DONE"):
            o.done = True
    o.rc = rc
    o.tail = (out[-300:] + b" | " + err[-1500:]).decode("utf-8", "replace")
    return o


def known_findings():
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    for line in open(p):
        line = line.rstrip("\n")
        if line.startswith("finding: "):
            head, _, text = line[9:].partition(" | ")
            prop, _, key = head.partition(" key=")
            r.append((prop.split("=", 1)[1], key, text))
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--job", help="run only the jobs whose name contains this")
    a = ap.parse_args()
    if a.list:
        for k, c in checks.CHECKS.items():
            print(k, c["title"])
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        job = [j for j in checks.CHECKS[r["property"]]["jobs"](r["tier"]) if j["name"] == r["job"]][0]
        o = run_proc(checks.argv(job) + ["only=" + r["key"]], job.get("env"), job.get("mem"), 900)
        for k, w in o.viols:
            print("VIOL", k, w)
        return 1 if o.viols else 0

    t0 = time.time()
    c = checks.CHECKS[a.prop]
    jobs = c["jobs"](a.tier)
    if a.job:
        jobs = [j for j in jobs if a.job in j["name"]]
    try:
        for j in jobs:
            j["argv"] = checks.argv(j)
    except lgbuild.BuildError as e:
        print("ERROR: build failed:", e)
        return 2
    tbuild = time.time() - t0
    work = []
    for j in jobs:
        n = j.get("shards", 8)
        j["outs"] = []
        for i in range(n):
            av = j["argv"] + ["shard=%d" % i, "shards=%d" % n]
            work.append((j, av))
    tmo = JOB_TIMEOUT[a.tier]

    # quick: an answer is due within 900 s, however slow or endless the tree has become
    end = t0 + (850 if a.tier == "quick" else 10 * 3600)
    left = lambda most: max(5, min(most, end - time.time()))
    found = []

    def one(w):
        t = time.time()
        if found and t > t0 + 420 and a.tier == "quick":
            return None
        o = run_proc(w[1], w[0].get("env"), w[0].get("mem", 4 << 30), left(min(tmo, 700) if a.tier == "quick" else tmo))
        o.secs = time.time() - t
        if o.viols:
            found.append(1)
        return w, o
    errors = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for r in ex.map(one, work):
            if r is None:   # there are violations to report, and little time
                continue
            w, o = r
            w[0]["outs"].append((w, o))
            if not o.done and not o.viols:
                errors.append("%s: no result (rc=%s) %s" % (" ".join(w[1]), o.rc, o.tail))

    # collect, replay before report
    known = [k for k in known_findings() if k[0] == a.prop]
    seen_known, viols, unreplayed = {}, [], []
    counts, samples, perjob, cands = {}, [], {}, []
    for j in jobs:
        jc = {}
        jv = []
        for (w, o) in j["outs"]:
            for k, v in o.counts.items():
                jc[k] = jc.get(k, 0) + v
            for s in o.samples[:1]:
                if len(samples) < 12 and len([x for x in samples if x["job"] == j["name"]]) < 3:
                    samples.append({"job": j["name"], "case": s})
            jv += [(k, v, w, o) for k, v in o.viols]
        perjob[j["name"]] = dict(jc, slowest_shard_s=round(max([o.secs for _, o in j["outs"]] or [0]), 1))
        for k, v in jc.items():
            counts[k] = counts.get(k, 0) + v
        jv.sort(key=lambda x: (len(x[0]), x[0]))
        new = []
        for k, v, w, o in jv:
            hit = [f for f in known if fnmatch.fnmatchcase(k, f[1]) or k == f[1]]
            if hit:
                seen_known.setdefault(hit[0], []).append(k)
            elif len(new) < 5:
                new.append((j, k, v, w))
        cands.append(new)

    # a violation is reported once it has been seen again: by its case alone or, if
    # it needs the history, by the whole shard
    def again(c, whole):
        j, k, v, w = c
        if time.time() > end - 5 or (viols and a.tier == "quick" and time.time() > t0 + 600):
            return False
        r = run_proc(w[1] if whole else j["argv"] + ["only=" + k], j.get("env"), j.get("mem", 4 << 30), left(tmo if whole else 300))
        if not [1 for kk, _ in r.viols if kk == k]:
            return False
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%s.json" % (a.prop, hashlib.sha256((j["name"] + k).encode()).hexdigest()[:12]))
        json.dump({"property": a.prop, "tier": a.tier, "job": j["name"], "key": k, "what": v, "replayed": "whole shard" if whole else "single case",
                   "argv": w[1] if whole else j["argv"] + ["only=" + k]}, open(f, "w"), indent=1)
        viols.append((j["name"], k, v, f))
        return True
    with cf.ThreadPoolExecutor(NPROC) as ex:
        # the first of each job, then the second of each, ...
        todo = [new[i] for i in range(5) for new in cands if i < len(new)][:24]
        res = list(ex.map(lambda c: again(c, False), todo))
        ok = set(c[0]["name"] for c, r in zip(todo, res) if r)
        rest = [new[0] for new in cands if new and new[0][0]["name"] not in ok]
        for c, r in zip(rest, ex.map(lambda c: again(c, True), rest)):
            if not r:
                unreplayed.append("%s: %s" % (c[1], c[2]))

    for f, ks in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, f[2]))
    for jn, k, v, f in viols:
        print("VIOLATION property=%s replay=%s" % (a.prop, f))
        print("   job %s  case %s: %s" % (jn, k, v))
    for u in unreplayed[:5]:
        print("ERROR: did not replay:", u)
    for e in errors[:5]:
        print("ERROR:", e)

    wall = time.time() - t0
    cov = {"states": counts.pop("states", 0), "transitions": counts.pop("transitions", 0),
           "traces_validated_against_impl": counts.pop("traces", 0),
           "samples": samples, "exhaustive": not errors,
           "bounds": {j["name"]: j.get("bounds", "") for j in jobs},
           "rule": c.get("rule", ""), "per_job": perjob, "other_counts": counts}
    ev = {"property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
          "level": c.get("level", "model_checking"), "coverage": cov, "assumptions": c.get("assumptions", []),
          "wall_s": round(wall, 1), "violations": len(viols)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: states=%d transitions=%d traces=%d violations=%d build=%.0fs wall=%.0fs" % (
        a.prop, a.tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], len(viols), tbuild, wall))
    if viols:
        return 1
    if errors or unreplayed:
        return 2
    if cov["states"] == 0 or cov["transitions"] == 0:
        print("ERROR: nothing explored")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
