#!/usr/bin/env python3
"""Driver of every check.

  run.py <property id> [quick|thorough]     run the check (tier defaults to $VERIF_TIER, then quick)
  run.py <property id> replay <file>        re-run one replay file against the current tree

Builds checks/<id>.cpp against the repository's current headers, runs the generated-input search, shrinks a failure to a
minimal replay file, writes evidence/<id>.json.  Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CONFIG = json.load(open(os.path.join(HERE, "checks", "config.json")))
COMMON = ["-std=c++17", "-pthread", "-fopenmp", "-w", "-I", os.path.join(REPO, "include"), "-I", os.path.join(HERE, "pbt")]
DEFINES = ["-DNDEBUG", "-DVERBOSE=false", "-D_GLIBCXX_ASSERTIONS"]
SAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
FAST = ["-O2"]


def variant_flags(v):
    flags = list(DEFINES)
    flags.append("-DTHREADS_ENABLED=%s" % ("true" if v.get("threads") else "false"))
    flags += FAST if v.get("fast") else SAN
    flags += v.get("flags", [])
    return flags


def compile_one(args):
    cmd, what = args
    t = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout, what, time.time() - t


def build(pid, cfg, scratch):
    """returns {variant name: binary}"""
    jobs, links = [], []
    for v in cfg["variants"]:
        f = variant_flags(v)
        objs = []
        for src in [os.path.join(HERE, "pbt", "pbt.cpp"), os.path.join(HERE, "checks", cfg.get("src", pid + ".cpp"))]:
            o = os.path.join(scratch, v["name"] + "_" + os.path.basename(src) + ".o")
            jobs.append((["g++"] + COMMON + f + ["-c", src, "-o", o], src))
            objs.append(o)
        links.append((v, f, objs))
    with cf.ThreadPoolExecutor(8) as ex:
        for rc, out, what, dt in ex.map(compile_one, jobs):
            if rc != 0:
                sys.stderr.write(out[-6000:])
                sys.stderr.write("\nERROR: %s does not compile against the current tree\n" % what)
                return None
    bins = {}
    for v, f, objs in links:
        b = os.path.join(scratch, v["name"] + ".bin")
        rc, out, _, _ = compile_one((["g++"] + COMMON + f + objs + ["-o", b, "-ltbb"], b))
        if rc != 0:
            sys.stderr.write(out[-6000:])
            return None
        bins[v["name"]] = b
    return bins


def known_for(pid):
    """known findings of this property: list of (law, tag, text); 'fixed:' lines suppress nothing"""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            # finding: property=<id> law=<law> tag=<tag> | <text>
            head, _, text = line[len("finding:"):].partition("|")
            kv = dict(x.split("=", 1) for x in head.split())
            if kv.get("property") == pid:
                out.append((kv["law"], kv["tag"], text.strip()))
    return out


def run_variant(binary, v, cfg, tier, seed, scratch, repdir, known_file, cap, law=None, scale=None):
    sdir = os.path.join(scratch, "run_" + v["name"])
    shutil.rmtree(sdir, ignore_errors=True)
    os.makedirs(sdir)
    out = os.path.join(sdir, "out.json")
    cmd = [binary, "run", "--seed", str(seed), "--tier", tier, "--workers", str(os.environ.get("PBT_WORKERS", v.get("workers", 8))), "--out", out,
           "--scratch", sdir, "--replay-dir", repdir, "--known", known_file, "--cap", str(cap)]
    if law:
        cmd += ["--law", law]
    sc = v.get("scale", 1.0) * (cfg.get("quick_scale", 1.0) if tier == "quick" else 1.0) if scale is None else scale
    cmd += ["--scale", str(sc)]
    env = dict(os.environ)
    env["OMP_NUM_THREADS"] = str(v.get("omp", 2))
    env["OMP_WAIT_POLICY"] = "passive"
    env["GOMP_SPINCOUNT"] = "0"
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=sdir)
    if p.returncode != 0 or not os.path.exists(out):
        sys.stderr.write(p.stdout[-4000:])
        return None
    return json.load(open(out, errors="replace"), strict=False)


def take_stats(line, variant, laws, labels, samples, known_seen):
    kind, rest = line[:1], line[2:]
    if kind == "L":
        name, ev, nt, di, kn, cut, _ = rest.split()
        ev, nt, di, kn, cut = (int(x) for x in (ev, nt, di, kn, cut))
        d = laws.setdefault(variant + "/" + name, dict(evaluations=0, nontrivial=0, discarded=0, known_hits=0, cut_by_time_cap=0))
        d["evaluations"] += ev
        d["nontrivial"] += nt
        d["discarded"] += di
        d["known_hits"] += kn
        d["cut_by_time_cap"] = max(d["cut_by_time_cap"], cut)
    elif kind == "C":
        name, n, lab = rest.split(" ", 2)
        labels.setdefault(name, {})[lab] = labels.get(name, {}).get(lab, 0) + int(n)
    elif kind == "S":
        name, d = rest.split(" ", 1)
        if not any(s["law"] == name for s in samples):
            samples.append({"law": name, "case": d.replace("\\n", "\n").replace('\\"', '"')})
    elif kind == "K":
        name, tag, msg = (rest.split(" ", 2) + [""])[:3]
        known_seen.setdefault((name, tag), msg)


def main():
    pid = sys.argv[1]
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = CONFIG.get(pid, {"rule": "", "variants": [{"name": "asan"}]})
    t0 = time.time()
    base = os.path.join(HERE, ".work")
    os.makedirs(base, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=pid + "_", dir=base)
    repdir = os.path.join(HERE, "replays", pid)
    os.makedirs(repdir, exist_ok=True)
    try:
        bins = build(pid, cfg, scratch)
        if bins is None:
            return 2
        build_s = time.time() - t0
        if mode == "replay":
            worst = 0
            head = open(sys.argv[3]).readline()
            for name, b in bins.items():
                p = subprocess.run([b, "replay", sys.argv[3], "--scratch", scratch])
                worst = max(worst, p.returncode)
            return worst
        tier = "thorough" if mode == "thorough" else "quick"
        known = known_for(pid)
        known_file = os.path.join(scratch, "known.txt")
        with open(known_file, "w") as f:
            for law, tag, _ in known:
                f.write("%s %s\n" % (law, tag))
        total_cap = 700.0 if tier == "thorough" else 240.0
        violation, laws, labels, samples, known_seen = None, {}, {}, [], {}
        evaluations = distinct = 0
        notes = []
        for v in cfg["variants"]:
            if violation:
                break
            if v.get("only_thorough") and tier != "thorough":
                continue
            cap = max(30.0, total_cap * v.get("share", 1.0 / len(cfg["variants"])))
            res = run_variant(bins[v["name"]], v, cfg, tier, seed, scratch, repdir, known_file, cap, os.environ.get("PBT_LAW"),
                              float(os.environ["PBT_SCALE"]) if "PBT_SCALE" in os.environ else None)
            if res is None:
                return 2
            if "unconfirmed" in res:
                # the failing case did not fail again from its tape: search once more with another seed
                notes.append({"unconfirmed": res["unconfirmed"]})
                again = run_variant(bins[v["name"]], v, cfg, tier, seed + 100003, scratch, repdir, known_file, cap)
                if again is None:
                    return 2
                if "unconfirmed" in again and again["unconfirmed"]["law"] == res["unconfirmed"]["law"] and \
                        again["unconfirmed"]["tag"] != "hang":
                    u = again["unconfirmed"]
                    path = os.path.join(repdir, u["law"] + ".unstable")
                    open(path, "w").write(json.dumps([res["unconfirmed"], u], indent=1))
                    again["violation"] = dict(u, replay=path, input="(fails repeatedly, but not from its recorded choices)")
                elif "unconfirmed" in again:
                    sys.stderr.write("ERROR: failures that do not reproduce: %s\n" % again["unconfirmed"])
                    return 2
                res = again
            if "error" in res:
                sys.stderr.write("ERROR: %s\n" % res["error"])
                return 2
            evaluations += res["evaluations"]
            distinct += sum(res["distinct"].values())
            for line in res["stats"]:
                try:
                    take_stats(line, v["name"], laws, labels, samples, known_seen)
                except ValueError:
                    pass  # the last line of a worker that was stopped while it wrote it
            for name, n in res["distinct"].items():
                if v["name"] + "/" + name in laws:
                    laws[v["name"] + "/" + name]["distinct_nontrivial"] = n
            if "violation" in res:
                violation = dict(res["violation"], variant=v["name"])
        wall = time.time() - t0
        coverage = {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": cfg["rule"],
            "samples": samples[:12],
            "per_law": laws,
            "classification": labels,
            "variants": [v["name"] for v in cfg["variants"]],
            "build_s": round(build_s, 2),
        }
        if notes:
            coverage["notes"] = notes
        if violation:
            coverage["violation"] = violation
            if not samples:
                coverage["samples"] = [{"law": violation["law"], "case": violation.get("input", "")}]
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
            "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 2), "violations": 1 if violation else 0,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for law, tag, text in known:
            print("KNOWN-FINDING: property=%s law=%s tag=%s %s" % (pid, law, tag, text))
        if violation:
            print("law      : %s (%s)" % (violation["law"], violation["variant"]))
            print("tag      : %s" % violation["tag"])
            print("message  : %s" % violation["message"][:2000])
            print("input    : %s" % violation.get("input", "")[:3000])
            print("VIOLATION property=%s replay=%s" % (pid, violation["replay"]))
            return 1
        print("OK property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d build=%.1fs wall=%.1fs" %
              (pid, tier, seed, evaluations, distinct, build_s, wall))
        if os.environ.get("PBT_VERBOSE"):
            print(json.dumps({"per_law": laws, "labels": labels}, indent=1))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.stdout.reconfigure(errors="replace")
    sys.stderr.reconfigure(errors="replace")
    sys.exit(main())
