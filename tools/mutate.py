#!/usr/bin/env python3
"""Mutation testing of the checks (development aid, not a registered check).

  mutate.py <out.jsonl> <mutants per file> <jobs> [file substring ...]

Makes small random changes of the library's headers in scratch copies under /tmp/mut and runs the checks whose property is
anchored in the changed file (quick tier) until one of them reports a violation.  Survivors are either equivalent changes or
gaps of the checks.
"""
import concurrent.futures as cf
import json
import os
import queue
import random
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" && ", " || "), (r" \|\| ", " && "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"std::min\(", "std::max("), (r"std::max\(", "std::min("),
    (r"\bif \(!", "if ("), (r"\bif \((?!constexpr)", "if (!("), (r"\.first\b", ".second"), (r"\.second\b", ".first"),
    (r"left_", "right_"), (r"right_", "left_"), (r"\+\+(\w+)", r"\1"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\b0\b", "1"), (r"\b1\b", "2"),
    (r"\+= ", "= "), (r"-= ", "+= "), (r" / 2\b", ""), (r"lower_bound", "upper_bound"), (r"upper_bound", "lower_bound"),
    (r"min_element", "max_element"), (r"max_element", "min_element"), ("DELETE", ""),
]


def candidates(path):
    lines = open(path).read().split("\n")
    out, block = [], False
    for i, l in enumerate(lines):
        s = l.strip()
        if "/*" in s and "*/" not in s:
            block = True
        if block:
            if "*/" in s:
                block = False
            continue
        if not s or s.startswith(("//", "#", "*", "/*", "template", "using", "static_assert", "namespace", "assert", "printf", "std::cout", "struct", "class")):
            continue
        code = l.split("//")[0]
        for k, (pat, rep) in enumerate(OPS):
            if pat == "DELETE":
                if re.match(r"^\s+[\w\.\->\[\]\*\(\)]+(\s*[+\-*/]?=\s.*|\(.*\)|\+\+|--);$", code) and "return" not in code and "throw" not in code or re.match(r"^\s+(\+\+|--)[\w\.]+;$", code):
                    out.append((i, "delete", lines[i], "{}"))
                continue
            for m in re.finditer(pat, code):
                new = code[:m.start()] + re.sub(pat, rep, code[m.start():], count=1)
                if rep == "if (!(":
                    # close the parenthesis at the end of the line
                    if not new.rstrip().endswith(") {"):
                        continue
                    new = new.rstrip()[:-3] + ")) {"
                if new != code:
                    out.append((i, pat, lines[i], new))
    return lines, out


def main():
    out, per, jobs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    pats = sys.argv[4:]
    rng = random.Random(int(os.environ.get("MUT_SEED", "1")))
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    conf = json.load(open(os.path.join(HERE, "checks", "config.json")))
    where = {}
    ns = {"P": None, "PROPS": []}
    allp = []

    def P(pid, title, statement, over, qtext, why, files, *a, **k):
        allp.append((pid, files))
    exec(open(os.path.join(HERE, "meta_props.py")).read(), {"P": P})
    for pid, files in allp:
        for n, f in enumerate(files):
            where.setdefault(f, []).append((n, pid))
    shutil.rmtree("/tmp/mut", ignore_errors=True)
    os.makedirs("/tmp/mut")
    slots = queue.Queue()
    for j in range(jobs):
        d = "/tmp/mut/%d" % j
        os.makedirs(d)
        subprocess.run(["git", "clone", "-q", HERE, d + "/verif"], check=True)
        subprocess.run(["cp", "-a", "/repo/include", d + "/"], check=True)
        slots.put(d)
    work = []
    for f, ps in sorted(where.items()):
        if pats and not any(p in f for p in pats):
            continue
        path = "/repo/include/ffcl/" + f
        if not os.path.exists(path):
            continue
        lines, cands = candidates(path)
        for i, op, old, new in rng.sample(cands, min(per, len(cands))):
            work.append((f, [p for _, p in sorted(ps)], i, op, old, new))
    rng.shuffle(work)
    print(len(work), "mutants", flush=True)

    def one(w):
        f, ps, i, op, old, new = w
        d = slots.get()
        try:
            path = d + "/include/ffcl/" + f
            src = open("/repo/include/ffcl/" + f).read().split("\n")
            src[i] = new
            open(path, "w").write("\n".join(src))
            res = {"file": f, "line": i + 1, "op": op, "old": old.strip(), "new": new.strip(), "checks": {}}
            env = dict(os.environ, VERIF_REPO=d, PBT_WORKERS=str(max(1, 8 // jobs)), VERIF_SEED="1")
            verdict = "survived"
            for p in ps[:6]:
                try:
                    r = subprocess.run(["python3", "run.py", p, "quick"], cwd=d + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 99
                if rc == 2 and "does not compile" in r.stdout:
                    rc = "compile"
                res["checks"][p] = rc
                if rc == "compile":
                    verdict = "invalid"
                    break
                if rc == 1:
                    verdict = "caught"
                    break
            res["verdict"] = verdict
            return res
        finally:
            shutil.copy("/repo/include/ffcl/" + f, d + "/include/ffcl/" + f)
            slots.put(d)

    n = {}
    with cf.ThreadPoolExecutor(jobs) as ex, open(out, "a") as o:
        for fut in cf.as_completed([ex.submit(one, w) for w in work]):
            r = fut.result()
            n[r["verdict"]] = n.get(r["verdict"], 0) + 1
            o.write(json.dumps(r) + "\n")
            o.flush()
            if r["verdict"] == "survived":
                print("SURVIVED %s:%d %s | %s  ->  %s  %s" % (r["file"], r["line"], r["op"], r["old"], r["new"], r["checks"]), flush=True)
    print(n)
    shutil.rmtree("/tmp/mut", ignore_errors=True)


main()
