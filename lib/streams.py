"""Shared driver for the checks on encoded streams: random transcodes of
synthetic movies, decoded on the fly and shown to monitors."""
import os
from fractions import Fraction
import numpy as np
import core, oracle, decode, media
from core import Violation

FPS = [(30, 1), (25, 1), (24, 1), (30000, 1001), (24000, 1001), (12, 1), (60, 1), (15, 1), (7, 2), (10, 1), (50, 1)]
RATES = [14700, 22500, 14364, 8000, 11025]
SLOW = [2000, 1500, 3000, 997, 4410]      # many frames per opcode budget

_entries = None


def entries():
    """Entry points of the player as assembled from the tree."""
    global _entries
    if _entries is None:
        raise core.Inconclusive("entry points not loaded")
    return _entries


def prepare(ctx, tables=True, modes=("HGR", "DHGR"), pals=("NTSC", "IIGS")):
    global _entries
    core.setup_transcoder(ctx.scratch)
    media.install()
    _, dbg = core.build_player(ctx.scratch)
    _entries = decode.entry_points(decode.parse_dbg(dbg))
    if len(_entries) != 1027:
        raise core.Inconclusive("expected 1027 player entry points, found %d" % len(_entries))
    if tables:
        with core.quiet():
            oracle.load_tables(modes, pals)


def levels(rng, n):
    kind = rng.choice(["uniform", "walk", "square", "const", "sparse"])
    if kind == "uniform":
        return [rng.randrange(-15, 17) for _ in range(n)]
    if kind == "walk":
        out, x = [], 0
        for _ in range(n):
            x = max(-15, min(16, x + rng.choice((-2, -1, 0, 1, 2))))
            out.append(x)
        return out
    if kind == "square":
        p = rng.randrange(1, 40)
        return [(-15, 16)[(i // p) % 2] for i in range(n)]
    if kind == "const":
        return [rng.randrange(-15, 17)] * n
    return [rng.randrange(-15, 17) if rng.random() < 0.05 else 0 for _ in range(n)]


def make_job(rng, i, ops, **fix):
    """A random transcode of about `ops` opcodes."""
    j = dict(i=i, dhgr=rng.random() < 0.6, pal=rng.choice(["NTSC", "NTSC", "IIGS"]),
             every_n=rng.choice([1, 1, 1, 2, 2, 3, 4, 5]), fps=rng.choice(FPS),
             bitrate=rng.choice(RATES + SLOW), ops=ops, holes=rng.random() < 0.3,
             kinds=rng.choice([media.KINDS, ["noise"], ["sparse", "onepage", "blocks"], ["grey", "palette"],
                               ["blank", "sparse"], ["edges", "sparse"], ["blocks", "flat", "columns"]]),
             av=rng.choice(["video", "audio", "exact", "slack"]), max_bytes=None, seed=rng.getrandbits(30))
    j.update(fix)
    return j


def build(job, d):
    """Creates the clip of a job; returns (clip, levels)."""
    import random
    rng = random.Random(job["seed"])
    per = Fraction(job["bitrate"] * job["fps"][1], job["fps"][0])   # samples per input frame
    ops = job["ops"]
    nf = max(1, int(ops / per) + 1)
    if job["av"] == "video":          # video ends first
        n = int(nf * per) + rng.randrange(2, 400)
    elif job["av"] == "audio":        # audio ends first
        n = max(1, int((nf - 1) * per + per * Fraction(rng.randrange(1, 100), 100)))
        nf += rng.randrange(0, 3)
    elif job["av"] == "exact":
        n = max(1, int(nf * per))
    else:
        n = ops
        nf += 2
    n = min(n, ops * 2 + 500)
    lv = levels(rng, n)
    norm = job.get("norm", 1.0)
    if job.get("over"):
        lv = [l + rng.choice((-9, 9)) if rng.random() < 0.1 else l for l in lv]
    smp = media.levels_to_samples(lv, norm)
    n_sel = nf
    fr = media.pictures(rng, job["dhgr"], n_sel, job["kinds"], job["holes"])
    if job.get("still_from") is not None:
        fr = [fr[min(k, job["still_from"])] for k in range(len(fr))]
    path = os.path.join(d, "m%d.mp4" % job["i"])
    clip = media.Clip(path, fr, fps=job["fps"], rate=job["bitrate"], samples=smp)
    media.seed_encoder(rng)
    return clip, lv


class Run:
    """One session with what has been observed of its stream so far."""

    def __init__(self, job, d, **kw):
        self.job = job
        self.clip, self.levels = build(job, d)
        self.s = media.Session(self.clip, job["dhgr"], job["pal"], job["every_n"], job["bitrate"],
                               job.get("norm", 1.0), job["max_bytes"])
        self.data = bytearray()
        self.events = []
        self.dec = decode.Decoder(entries())
        self.screen = decode.Screen()

    def shown(self):
        """Index of the movie frame being shown according to the frames the
        encoder has fetched and the requested selection."""
        n = self.job["every_n"]
        sel = [k for k, _ in self.s.fetch if k is not None and k % n == 0]
        return sel[-1] if sel else None

    def target(self):
        k = self.shown()
        return None if k is None else self.clip.frames[k]

    def go(self, mon, keep=False):
        """mon(run, event, before) is called for every decoded event, after the
        event's effect on self.screen; `before` is the touched page row as it
        was."""
        limit = 2048 * (int((len(self.levels) + 2) * 7 / 2044) + 4)
        for b in self.s.bytes():
            self.data.append(b)
            e = self.dec.feed(b)
            if e is None:
                continue
            before = None
            if e[0] == "op":
                before = self.screen.mem[e[6]][e[3] - 32].copy()
                self.screen.op(e)
            mon(self, e, before)
            if keep:
                self.events.append(e)
            if len(self.data) > limit:
                raise Violation("runaway", "stream is longer (%d bytes) than the audio allows" % len(self.data))
        self.dec.end()
        mon(self, ("end",), None)
        return self

    def finish_ops(self):
        return self.dec.nops


def long_run(ctx, job, monitor_factory):
    """A long movie whose frames differ in a few bytes only, so that the
    encoder soon has nothing left to draw: job has i, dhgr, every_n, bitrate,
    fps and ops."""
    import random
    rng = ctx.rng("long", job["i"])
    d = ctx.newdir("long")
    job.setdefault("max_bytes", None)
    per = Fraction(job["bitrate"]) * job["fps"][1] / job["fps"][0]
    nf = int(job["ops"] / per) + 1
    blank = media.picture(rng, job["dhgr"], "blank")
    frames = []
    for k in range(nf):
        m, a = blank[0].copy(), None if blank[1] is None else blank[1].copy()
        # a few bytes tell the frames apart
        for b in (0, 1, 2):
            m[3 + b, 5] = (k >> (5 * b) & 31) * 2 + 64
            if a is not None:
                a[3 + b, 5] = (k >> (5 * b) & 31) * 2 + 65
        frames.append((m, a))
    n = max(1, int(nf * per) + rng.randrange(-int(per), int(per)))
    lv = [0] * n if not job.get("sound") else levels(rng, n)
    r = Run.__new__(Run)
    r.job, r.levels = job, lv
    r.clip = media.Clip(os.path.join(d, "l.mp4"), frames, fps=job["fps"], rate=job["bitrate"], samples=media.levels_to_samples(lv))
    media.seed_encoder(rng)
    r.s = media.Session(r.clip, job["dhgr"], job.get("pal", "NTSC"), job["every_n"], job["bitrate"], 1.0, job["max_bytes"])
    r.data, r.events, r.dec, r.screen = bytearray(), [], decode.Decoder(entries()), decode.Screen()
    try:
        r.go(monitor_factory(ctx, r))
    finally:
        drop(d, r)
    ctx.count("long_streams")
    ctx.count("long_frames", nf)
    ctx.count("long_bytes", len(r.data))


def long_jobs(rng, n, ops):
    """Long movies for long_run."""
    return [dict(i=i, dhgr=i % 2 == 1, every_n=rng.choice([1, 2, 3]), ops=ops, max_bytes=None, sound=True,
                 bitrate=rng.choice([2000, 1500, 997, 3000, 8000]),
                 fps=rng.choice([(2, 1), (5, 1), (30000, 1001), (30, 1), (1, 1)])) for i in range(n)]


def drop(d, run):
    import shutil
    media.CLIPS.pop(os.path.abspath(run.clip.path), None)
    p = os.path.splitext(run.clip.path)[0]
    shutil.rmtree(p, ignore_errors=True)
    try:
        os.remove(run.clip.path)
    except OSError:
        pass


def due(job, k):
    """Exact due time of input frame k in samples."""
    return Fraction(k) * job["bitrate"] * job["fps"][1] / job["fps"][0]


def jobs(ctx, n, ops, **fix):
    rng = ctx.rng("jobs")
    out = [make_job(rng, i, ops, **fix) for i in range(n)]
    # both modes always occur
    for i, j in enumerate(out):
        if "dhgr" not in fix and i < 4:
            j["dhgr"] = i % 2 == 1
    return out


def run_jobs(ctx, joblist, monitor_factory, name="ops", **kw):
    """Runs the jobs in parallel; monitor_factory(ctx, run) -> mon."""
    def one(job):
        d = ctx.newdir("s")
        r = Run(job, d, **kw)
        try:
            r.go(monitor_factory(ctx, r))
        finally:
            drop(d, r)
        ctx.count("streams")
        ctx.count("opcodes", r.dec.nops)
        ctx.count("acks", r.dec.acks)
        ctx.count("frames_fetched", sum(1 for k, _ in r.s.fetch if k is not None))
        return dict(job=job, bytes=len(r.data), ops=r.dec.nops, acks=r.dec.acks)
    res = ctx.pmap(one, joblist)
    for x in res:
        if x:
            ctx.sample(x, 3)
    return res
