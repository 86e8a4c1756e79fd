#!/usr/bin/env python3
"""Runs the checks against the planted bugs in scratch copies of /repo.
usage: runseeds.py [-a] [-j N] [seed ...]     -a: every check, not only the one of the bug's property"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = "-a" in args
jobs = int(args[args.index("-j") + 1]) if "-j" in args else 3
names = [a for i, a in enumerate(args) if not a.startswith("-") and (i == 0 or args[i - 1] != "-j")] or sorted(os.listdir(ROOT + "/seeded"))
props = ["C%02d" % i for i in range(1, 23)]


def one(name):
    d = os.path.join(ROOT, "seeded", name)
    want = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run(["cp", "-a", "/repo", tmp + "/repo"], check=True)
        r = subprocess.run(["git", "-C", tmp + "/repo", "apply", d + "/patch.diff"], capture_output=True, text=True)
        if r.returncode:
            return name, want, {"apply": r.stderr}
        # the checks write out/ and evidence/: give them a copy of /verif
        subprocess.run("mkdir %s/verif && cp -r %s/harness %s/spec %s/verif" % (tmp, ROOT, ROOT, tmp), shell=True, check=True)
        res = {}
        for p in props if every else [want]:
            r = subprocess.run([sys.executable, "harness/check.py", p], cwd=tmp + "/verif", capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=tmp + "/repo", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            res[p] = r.returncode
            if r.returncode not in (0, 1):
                res[p + "-err"] = r.stderr[-600:]
        return name, want, res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
    for name, want, res in ex.map(one, names):
        hit = [p for p in props if res.get(p) == 1]
        print("%-26s %s %s %s" % (name, want, "CAUGHT" if want in hit else "MISSED", " ".join(hit) if every else ""),
              {k: v for k, v in res.items() if k.endswith("-err") or k == "apply"} or "", flush=True)
