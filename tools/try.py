"""Runs checks against planted bugs in scratch copies (development tool).
usage: try.py [--all] [--checks C01,C02] [--seed N] BUG...   (default: the bug's own property)"""
import argparse, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument("bugs", nargs="*")
ap.add_argument("--all", action="store_true")
ap.add_argument("--checks")
ap.add_argument("--seed", default="1")
ap.add_argument("--tier", default="quick")
ap.add_argument("-j", type=int, default=2)
a = ap.parse_args()
S = "/verif/seeded"
bugs = a.bugs or sorted(os.listdir(S))


def one(b):
    w = "/tmp/sb/try-" + b
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/sb", exist_ok=True)
    shutil.copytree("/repo", w + "/repo", symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copytree("/verif", w + "/verif", symlinks=True, ignore=shutil.ignore_patterns("seeded", ".git", "__pycache__"))
    r = subprocess.run(["git", "apply", "%s/%s/patch.diff" % (S, b)], cwd=w + "/repo", capture_output=True, text=True)
    if r.returncode:
        return b + " does not apply: " + r.stderr
    prop = json.load(open("%s/%s/meta.json" % (S, b)))["property"]
    cs = ["C%02d" % i for i in range(1, 33)] if a.all else a.checks.split(",") if a.checks else [prop]
    out = []
    for c in cs:
        t = time.time()
        r = subprocess.run(["bash", "run.sh", c], cwd=w + "/verif", capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=w + "/repo", VERIF_SEED=a.seed, VERIF_TIER=a.tier))
        first = [l for l in r.stdout.splitlines() if l.startswith("  ")][:1]
        s = {0: "held", 1: "CAUGHT"}.get(r.returncode, "rc=%d %s" % (r.returncode, (r.stdout + r.stderr)[-300:]))
        if r.returncode == 1 and "VIOLATION property=" + c not in r.stdout:
            s = "rc=1 without line"
        if not a.all or r.returncode:
            out.append("%s %s %.0fs %s" % (c, s, time.time() - t, (first or [""])[0][:140]))
    shutil.rmtree(w, ignore_errors=True)
    mark = "" if any(o.startswith(prop + " CAUGHT") for o in out) or prop not in cs else "   <<<<<< MISSED"
    return "%s [%s]%s\n    " % (b, prop, mark) + "\n    ".join(out)


with ThreadPoolExecutor(a.j) as ex:
    for m in ex.map(one, bugs):
        print(m, flush=True)
