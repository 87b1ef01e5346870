"""Check context: verdicts, evidence, scratch directories, parallel jobs."""
import contextlib, ctypes, fcntl, hashlib, io, json, os, pickle, random, resource
import select, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
STUBS = os.path.join(VERIF, "lib", "stubs")
FINDINGS = os.path.join(VERIF, "known_findings.jsonl")
PY = sys.executable


class Inconclusive(Exception):
    """The check could not decide (exit 2)."""


class Violation(Exception):
    """Raised by monitors; carries a stable key and the witness."""

    def __init__(self, key, msg, **data):
        super().__init__(msg)
        self.key, self.msg, self.data = key, msg, data


def in_dir(fn, d):
    return os.path.realpath(fn).startswith(os.path.realpath(d) + os.sep)


def classify(exc, tb=None):
    """'repo' if the innermost frame that is ours or the repository's is the
    repository's, otherwise 'verif'."""
    who = None
    for fr in traceback.extract_tb(tb or exc.__traceback__):
        fn = fr.filename
        if not os.path.isabs(fn):
            fn = os.path.join(os.getcwd(), fn)
        # stubs stand in for third-party libraries: not a frame of ours
        if in_dir(fn, STUBS):
            continue
        if in_dir(fn, VERIF):
            who = "verif"
        elif in_dir(fn, REPO):
            who = "repo"
    return who or "verif"


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (bytes, bytearray)):
        return bytes(x).hex()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


class Ctx:
    def __init__(self, pid, scratch):
        self.pid = pid
        self.scratch = scratch
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.counts = {}
        self.distinct = set()
        self.samples = []
        self.viol = []
        self.known = []
        self.rule = ""
        self.level = "exploration"
        self.assumptions = []
        self.extra = {}
        self.findings = []
        try:
            for l in open(FINDINGS):
                l = l.strip()
                if l:
                    self.findings.append(json.loads(l))
        except FileNotFoundError:
            pass
        self._dirn = 0

    # -- workload helpers
    def rng(self, *key):
        return random.Random("%s|%s|%s" % (self.seed, self.pid, "|".join(map(str, key))))

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    def newdir(self, name="d"):
        self._dirn += 1
        d = os.path.join(self.scratch, "%s-%d-%d" % (name, os.getpid(), self._dirn))
        os.makedirs(d)
        return d

    # -- observations
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def seen(self, *key):
        """Record a distinct non-trivial case."""
        self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(jsonable(s))

    def need(self, name, n=1):
        if self.counts.get(name, 0) < n and not self.viol:
            raise Inconclusive("monitor counter %r is %d, need at least %d" % (
                name, self.counts.get(name, 0), n))

    # -- verdicts
    def violation(self, key, msg, **data):
        for f in self.findings:
            if f.get("kind") == "known" and f["property"] == self.pid and f["key"] == key:
                if key not in [k for k, _ in self.known]:
                    self.known.append((key, f["what"]))
                return
        if len(self.viol) < 25:
            self.viol.append((key, msg, jsonable(data)))

    @contextlib.contextmanager
    def guard(self, **data):
        """Turn monitor violations and repository exceptions into verdicts."""
        try:
            yield
        except Violation as v:
            d = dict(data)
            d.update(v.data)
            self.violation(v.key, v.msg, **d)
        except Inconclusive:
            raise
        except Exception as e:
            if classify(e) == "repo":
                self.violation("exception:" + type(e).__name__,
                               "repository code raised %r" % (e,),
                               trace=traceback.format_exc()[-3000:], **data)
            else:
                raise

    # -- code under test that never comes back
    STUCK_CPU = 150.0       # seconds of processor time
    STUCK_TICKS = 24        # of five seconds, with no processor time used

    def _progress(self):
        return sum(self.counts.values()) + len(self.distinct) + len(self.viol)

    def watch(self, sig):
        """On every `sig` (about every five seconds) look whether the same call
        into the repository has been under way since the last one, with nothing
        observed in between: raise a violation when that goes on far beyond what
        any call takes."""
        st = [None, 0.0, 0]
        log = os.environ.get("VERIF_GAPLOG")

        def tick(_, frame):
            inside = None
            while frame is not None:
                fn = frame.f_code.co_filename
                if not os.path.isabs(fn):
                    fn = os.path.join(os.getcwd(), fn)
                if in_dir(fn, REPO):
                    # the outermost call into the repository
                    inside = id(frame), os.path.relpath(fn, REPO), frame.f_code.co_name
                frame = frame.f_back
            now = (inside, self._progress()) if inside else None
            cpu = sum(os.times()[:2])
            if now is None or now != st[0]:
                st[:] = [now, cpu, 0]
                return
            st[2] += 1
            used = cpu - st[1]
            if log:
                with open(log, "a") as f:
                    f.write("%s %s %.0f %d %s\n" % (self.pid, self.tier, used, st[2], inside))
            k = self.scale(1, 6)
            if used > self.STUCK_CPU * k or st[2] >= self.STUCK_TICKS * k and used < 0.02 * st[2]:
                raise Violation("stuck", "a call of %s in %s does not return: %.0f s of processor time, %d s" % (
                    inside[2], inside[1], used, 5 * st[2]))
        signal.signal(sig, tick)

    # -- parallel jobs (fork)
    def pmap(self, fn, items, procs=8, timeout=None, mem_gb=6):
        """Runs fn(item) in forked children, merges their observations into
        self and returns the results in order (None for violated jobs)."""
        items = list(items)
        timeout = timeout or (700 if not self.thorough else 5400)
        res = [None] * len(items)
        running = {}
        todo = list(range(len(items)))[::-1]
        deadline = time.time() + timeout
        err = stop = None
        beat = time.time()
        signal.signal(signal.SIGUSR2, signal.SIG_IGN)
        try:
            while (todo or running) and not err:
                while todo and len(running) < procs:
                    i = todo.pop()
                    r, w = os.pipe()
                    sys.stdout.flush()
                    pid = os.fork()
                    if pid == 0:
                        os.close(r)
                        self.watch(signal.SIGUSR2)
                        self._child(fn, items[i], i, w)
                    os.close(w)
                    running[r] = (pid, i, bytearray())
                if self.viol:
                    # enough seen: finish what is under way, within limits
                    todo = []
                    stop = stop or time.time() + 40
                    if time.time() > stop:
                        break
                if time.time() > beat + 5:
                    beat = time.time()
                    for pid, _, _ in running.values():
                        os.kill(pid, signal.SIGUSR2)
                rd, _, _ = select.select(list(running), [], [], 1.0)
                for r in rd:
                    pid, i, buf = running[r]
                    chunk = os.read(r, 1 << 20)
                    if chunk:
                        buf += chunk
                        continue
                    os.close(r)
                    del running[r]
                    _, st = os.waitpid(pid, 0)
                    if not buf:
                        err = "job %r died with status %d" % (items[i], st)
                        break
                    kind, val, obs = pickle.loads(bytes(buf))
                    self._merge(obs)
                    if kind == "ok":
                        res[i] = val
                    elif kind == "inc":
                        err = val
                if time.time() > deadline and running:
                    err = "watchdog: jobs %r still running after %ds" % (
                        [items[i] for _, i, _ in running.values()], timeout)
        finally:
            for r, (pid, i, _) in running.items():
                with contextlib.suppress(Exception):
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(r)
        if err and not self.viol:
            raise Inconclusive(str(err)[:3000])
        return res

    def _child(self, fn, item, i, w):
        code = 0
        try:
            self.counts, self.distinct, self.samples = {}, set(), []
            self.viol, self.known = [], []
            out = ("ok", None)
            try:
                with self.guard(job=item if isinstance(item, (int, str, tuple, dict, list)) else repr(item)):
                    out = ("ok", fn(item))
            except Inconclusive as e:
                out = ("inc", str(e))
            except BaseException:
                out = ("inc", "harness error in job %r:\n%s" % (item, traceback.format_exc()))
            obs = (self.counts, self.distinct, self.samples, self.viol, self.known)
            data = pickle.dumps(out + (obs,), protocol=4)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 1
        finally:
            os._exit(code)

    def _merge(self, obs):
        c, d, s, v, k = obs
        for n, x in c.items():
            self.counts[n] = self.counts.get(n, 0) + x
        self.distinct |= d
        for x in s:
            if len(self.samples) < 8:
                self.samples.append(x)
        self.viol.extend(v)
        for x in k:
            if x not in self.known:
                self.known.append(x)

    # -- results
    def finish(self):
        ev = self.counts.pop("evaluations", None)
        if ev is None:
            ev = sum(self.counts.values())
        cov = {"evaluations": ev, "distinct_nontrivial": len(self.distinct),
               "rule": self.rule, "samples": self.samples, "observed": dict(sorted(self.counts.items()))}
        cov.update(self.extra)
        doc = {"property": self.pid, "tier": self.tier, "seed": self.seed,
               "level": self.level, "coverage": jsonable(cov),
               "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 2),
               "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(doc, f, indent=1)
        os.replace(p + ".tmp", p)
        for key, what in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        if self.viol:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, "%s-%s-%d.json" % (self.pid, self.tier, self.seed))
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "command": "VERIF_SEED=%d VERIF_TIER=%s bash run.sh %s" % (self.seed, self.tier, self.pid),
                           "violations": [{"key": k, "what": m, "witness": w} for k, m, w in self.viol]}, f, indent=1)
            for k, m, _ in self.viol[:10]:
                print("  %s: %s" % (k, m[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (
            self.pid, self.tier, self.seed, ev, len(self.distinct), self.elapsed()))
        if not self.distinct or ev <= 0:
            print("INCONCLUSIVE: nothing was observed")
            return 2
        return 0


# ---------------------------------------------------------------- C libraries
def clib(name, flags=()):
    """Compile lib/csrc/<name>.c into build/ if needed and load it."""
    src = os.path.join(VERIF, "lib", "csrc", name + ".c")
    h = hashlib.sha1(open(src, "rb").read() + repr(flags).encode()).hexdigest()[:12]
    d = os.path.join(VERIF, "build")
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, "%s-%s.so" % (name, h))
    if not os.path.exists(so):
        tmp = so + ".%d" % os.getpid()
        r = subprocess.run(["gcc", "-O2", "-fopenmp", "-shared", "-fPIC", "-o", tmp, src, *flags],
                           capture_output=True, text=True)
        if r.returncode:
            raise Inconclusive("cannot compile %s: %s" % (name, r.stderr[-2000:]))
        os.replace(tmp, so)
    return ctypes.CDLL(so)


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


NULL = _Null()


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints."""
    old = sys.stdout
    sys.stdout = NULL
    try:
        yield
    finally:
        sys.stdout = old


def setup_transcoder(scratch):
    """Makes the repository's transcoder importable, in a scratch cwd that has
    the two relative paths the code opens."""
    d = os.path.join(scratch, "cwd")
    if not os.path.isdir(d):
        os.makedirs(os.path.join(d, "transcoder"))
        os.symlink(os.path.join(REPO, "player"), os.path.join(d, "player"))
        os.symlink(os.path.join(REPO, "transcoder", "data"), os.path.join(d, "transcoder", "data"))
    os.chdir(d)
    for p in (os.path.join(REPO, "transcoder"), STUBS):
        if p not in sys.path:
            sys.path.insert(0, p)


def build_player(scratch):
    """Assembles /repo's player in a scratch copy; returns (image, dbg path,
    load address)."""
    d = os.path.join(scratch, "playerbuild")
    if not os.path.isdir(d):
        os.makedirs(d)
        shutil.copytree(os.path.join(REPO, "player"), os.path.join(d, "player"))
        for f in os.listdir(os.path.join(d, "player")):
            if f.endswith((".o", ".lst", ".dsk", ".map")) or f == "iivision":
                os.remove(os.path.join(d, "player", f))
        os.remove(os.path.join(d, "player", "iivision.dbg"))
        env = dict(os.environ, TERM="dumb")
        r = subprocess.run(["make", "build", "CC65_BIN=/usr/bin", "CC65_HOME=/usr/share/cc65"],
                           cwd=os.path.join(d, "player"), capture_output=True, text=True, env=env)
        if r.returncode or not os.path.exists(os.path.join(d, "player", "iivision")):
            raise Inconclusive("player does not build: %s" % (r.stdout + r.stderr)[-2000:])
    img = open(os.path.join(d, "player", "iivision"), "rb").read()
    return img, os.path.join(d, "player", "iivision.dbg")
