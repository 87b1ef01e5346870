"""Makes /verif/seeded/<id>/ from a bug description file (Python, read with exec):
ID, PROP, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS.  Then confirms it in a
scratch copy.  usage: mkbug.py FILE... (development tool; no check uses it)"""
import json, os, shutil, subprocess, sys, time
V = "/verif"
K = os.path.join(V, "tools", "seedkit")


def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                          text=True, errors="replace")


def make(f):
    ns = {}
    exec(open(f).read(), ns)
    bid = ns["ID"]
    w = "/tmp/sb/%s" % bid
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/sb", exist_ok=True)
    shutil.copytree("/repo", w, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    for fn, old, new in ns["EDITS"]:
        p = os.path.join(w, fn)
        s = open(p, encoding="utf-8").read()
        if s.count(old) != 1:
            return "%s: edit text occurs %d times in %s" % (bid, s.count(old), fn)
        open(p, "w", encoding="utf-8").write(s.replace(old, new))
    d = sh("git diff", w).stdout
    if not d.strip():
        return bid + ": empty patch"
    o = os.path.join(V, "seeded", bid)
    shutil.rmtree(o, ignore_errors=True)
    os.makedirs(o)
    open(os.path.join(o, "patch.diff"), "w").write(d)
    shutil.copy(os.path.join(K, "h.py"), o)
    shutil.copy(os.path.join(K, "demo.sh"), o)
    open(os.path.join(o, "demo.py"), "w").write(ns["DEMO"].lstrip("\n"))
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
              open(os.path.join(o, "meta.json"), "w"), indent=1)
    # confirm
    msg = []
    r = sh("git apply --check %s/patch.diff" % o, "/repo")
    if r.returncode:
        msg.append("does not apply: " + r.stdout)
    dd = "/tmp/sb/demo-%s" % bid
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(o, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    t = time.time()
    r = sh("bash %s/demo.sh" % dd, "/repo", 300)
    t0 = time.time() - t
    if r.returncode:
        msg.append("demo fails unpatched: " + r.stdout[-1500:])
    t = time.time()
    r = sh("bash %s/demo.sh" % dd, w, 300)
    t1 = time.time() - t
    if r.returncode == 0:
        msg.append("demo passes patched: " + r.stdout[-500:])
    out = r.stdout.strip().splitlines()[-1:] or [""]
    if not ns.get("SKIPTESTS"):
        r = sh("/opt/venv/bin/python -B -m pytest -q -p no:cacheprovider --rootdir=%s --timeout=120 transcoder 2>&1 | tail -3" % w, w)
        if "41 passed" not in r.stdout:
            msg.append("tests: " + r.stdout)
        r = sh("rm -f player/*.o player/*.lst player/*.dsk player/*.map player/iivision; cd player && TERM=dumb make build CC65_BIN=/usr/bin CC65_HOME=/usr/share/cc65 && test -s iivision.dsk", w)
        if r.returncode:
            msg.append("player build: " + r.stdout[-800:])
        r = sh("for f in simulator/*.py transcoder/*.py; do m=$(basename $f .py); case $f in transcoder/audio.py|transcoder/movie.py|transcoder/main.py|*_test.py) continue;; esac; PYTHONPATH=$(dirname $f) /opt/venv/bin/python -B -W ignore -c \"import $m\" || exit 1; done", w)
        if r.returncode:
            msg.append("import: " + r.stdout[-800:])
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(dd, ignore_errors=True)
    return "%s (%s): demo %.0fs/%.0fs [%s] %s" % (bid, ns["PROP"], t0, t1, out[0][:150], "OK" if not msg else "PROBLEM\n" + "\n".join(msg))


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for m in ex.map(make, sys.argv[1:]):
            print(m, flush=True)
