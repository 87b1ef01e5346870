"""Evaluations: runs of the frame grabber and of whole transcodes in which one
frame's decoding or conversion fails in one of several ways (decoder exception,
converter missing, killed, failing silently, writing too little, disk errors,
failures on top of leftovers of an earlier run), at a random frame, with slow
and fast consumers; the frames delivered before the failure and the way the
iteration ends are checked.  Distinct = distinct (mode, failure, frame)."""
import os, random, threading, time
import numpy as np
import core, media, grab
from core import Violation


class Fault(Exception):
    pass


GRAB = ["decoder", "decoder_os", "missing", "nothing", "short", "empty", "killed", "aux_missing", "aux_short", "save", "long_ago", "raise_base"]


def install_fault(rng, clip, kind, k0, dhgr, sticky=True):
    from PIL import Image

    def hit(k):
        return k >= k0 if sticky else k == k0

    def fhook(k):
        if kind == "decoder" and k == k0:
            raise Fault("decoder failed")
        if kind == "decoder_os" and k == k0:
            raise OSError("broken pipe to decoder")
        if kind == "raise_base" and k == k0:
            raise RuntimeError("bad frame")

    def bhook(k, argv, out, write):
        if hit(k):
            if kind == "missing":
                raise FileNotFoundError(2, "No such file", "/usr/local/bin/bmp2dhr")
            if kind == "killed":
                p, a = out[-1]
                for q, b in out[:-1]:
                    write(q, b)
                with open(p, "wb") as f:
                    f.write(a.tobytes()[:rng.randrange(8192)])
                return -9
            if kind in ("nothing", "long_ago"):
                return 1
            if kind == "short":
                for p, a in out:
                    with open(p, "wb") as f:
                        f.write(a.tobytes()[:rng.choice((1, 7680, 8191))])
                return 0
            if kind == "empty":
                for p, a in out:
                    open(p, "wb").close()
                return 1
            if kind == "aux_missing":
                if dhgr:
                    write(*out[0])
                return 1
            if kind == "aux_short":
                for p, a in out[:-1]:
                    write(p, a)
                p, a = out[-1]
                with open(p, "wb") as f:
                    f.write(a.tobytes()[:rng.choice((0, 4096, 8191))])
                return 0
        for p, a in out:
            write(p, a)
        return 0
    clip.frame_hook, clip.bmp_hook = fhook, bhook
    if kind == "save":
        real = Image.Image.save

        def save(self, fp, *a, **kw):
            n = int("".join(c for c in os.path.basename(str(fp)) if c.isdigit()) or 0)
            if hit(n):
                raise OSError(28, "No space left on device")
            return real(self, fp, *a, **kw)
        Image.Image.save = save
        return lambda: setattr(Image.Image, "save", real)
    return lambda: None


def run(ctx):
    core.setup_transcoder(ctx.scratch)
    media.install()
    with core.quiet():
        import frame_grabber, movie
        import oracle
        oracle.load_tables(("HGR", "DHGR"), ("NTSC",))

    def job(i):
        rng = ctx.rng(i)
        dhgr = i % 2 == 1
        pal = "NTSC"
        kind = GRAB[(i // 2) % len(GRAB)]
        n = rng.choice((1, 2, 11, 12, 13, 30))
        k0 = rng.choice((0, n - 1, rng.randrange(n), min(n - 1, 10), min(n - 1, 11)))
        d = ctx.newdir("g")
        fr = media.pictures(rng, dhgr, n, ["noise", "sparse"])
        clip = media.Clip(os.path.join(d, "m.mp4"), fr)
        left = rng.random() < 0.35 or kind == "long_ago"
        with ctx.guard(mode="DHGR" if dhgr else "HGR", fault=kind, frame=k0, frames=n, leftovers=left):
            if left:
                # an earlier run left conversions; the failing frame's is incomplete
                r = grab.collect(grab.grabber(clip, dhgr, pal))
                if r.error:
                    raise Violation("error", "frames() raises %r" % r.error)
                for root, _, fs in os.walk(d):
                    for f in fs:
                        if f.upper().endswith((".BIN", ".AUX")):
                            k = int("".join(c for c in f if c.isdigit()))
                            x = rng.random()
                            if k >= k0 and kind not in ("decoder", "decoder_os", "raise_base"):
                                if x < 0.5:
                                    os.remove(os.path.join(root, f))
                                else:
                                    os.truncate(os.path.join(root, f), rng.randrange(8192))
            undo = install_fault(rng, clip, kind, k0, dhgr, rng.random() < 0.7)
            nap = None
            if rng.random() < 0.4:
                s = set(rng.sample(range(n), min(n, 5)))
                nap = lambda k: time.sleep(0.05) if k in s else None
            g = grab.grabber(clip, dhgr, pal)
            try:
                if rng.random() < 0.4:
                    with grab.Schedule(rng) as sch:
                        r = grab.collect(g, nap)
                    ctx.count("schedules_" + sch.kind)
                    ctx.count("delays", sch.delays)
                else:
                    r = grab.collect(g, nap)
            finally:
                undo()
            if r.error is None:
                raise Violation("silent", "frames() ends normally after %d frames although frame %d could not be converted" % (len(r.frames), k0))
            if not isinstance(r.error, Exception):
                raise Violation("error", "frames() ends with %r" % r.error)
            grab.check_frames(r, clip, dhgr, upto=k0)
            # nothing may keep the process from ending
            t0 = time.time()
            stuck = lambda: [t for t in threading.enumerate() if t is not threading.main_thread() and not t.daemon]
            while stuck() and time.time() - t0 < 10:
                time.sleep(0.05)
            if stuck():
                raise Violation("thread", "a non-daemon thread keeps the process alive after the failure")
            ctx.count("failures")
            ctx.count("frames_before_failure", len(r.frames))
            ctx.count("fault_" + kind)
            ctx.seen(dhgr, kind, k0, n, left)
        import shutil
        shutil.rmtree(d, ignore_errors=True)

    def whole(i):
        """A transcode whose video fails at a frame that is due."""
        rng = ctx.rng("whole", i)
        dhgr = i % 2 == 1
        kind = rng.choice([k for k in GRAB if k != "long_ago"])
        d = ctx.newdir("w")
        every = rng.choice((1, 2, 3))
        n = rng.choice((2, 4, 13))
        k0 = rng.choice((0, n - 1, rng.randrange(n)))
        rate, fps = 3000, (30, 1)
        fr = media.pictures(rng, dhgr, n, ["sparse", "blank"])
        clip = media.Clip(os.path.join(d, "m.mp4"), fr, fps=fps, rate=rate,
                          samples=media.levels_to_samples([rng.randrange(-15, 17) for _ in range(rate // 30 * (n + 1) + 50)]))
        with ctx.guard(whole=True, mode="DHGR" if dhgr else "HGR", fault=kind, frame=k0, frames=n):
            undo = install_fault(rng, clip, kind, k0, dhgr)
            res = {}

            def go():
                try:
                    s = media.Session(clip, dhgr, "NTSC", every, rate, 1.0, None)
                    res["s"] = s
                    for b in s.bytes():
                        res["n"] = res.get("n", 0) + 1
                    res["end"] = "normal"
                except BaseException as e:
                    res["end"] = e
            t = threading.Thread(target=go, daemon=True)
            t.start()
            last, since = 0, time.time()
            while t.is_alive():
                t.join(0.5)
                if res.get("n", 0) != last:
                    last, since = res.get("n", 0), time.time()
                if t.is_alive() and time.time() - since > 90:
                    raise Violation("hang", "the transcode stands still after %d bytes" % last)
            undo()
            if res.get("end") == "normal":
                raise Violation("silent", "the transcode ends normally although frame %d of %d failed (%s)" % (k0, n, kind))
            if not isinstance(res["end"], Exception):
                raise Violation("error", "the transcode ends with %r" % (res["end"],))
            got = [k for k, _ in res["s"].fetch if k is not None] if "s" in res else []
            if got != list(range(k0)):
                raise Violation("frames", "%d frames were used before the failure of frame %d" % (len(got), k0))
            ctx.count("transcodes_failed")
            ctx.seen("whole", dhgr, kind, k0, n)
        import shutil
        shutil.rmtree(d, ignore_errors=True)

    ctx.pmap(job, range(ctx.scale(192, 2400)))
    ctx.pmap(whole, range(ctx.scale(32, 300)))
    ctx.need("failures", 60)
    ctx.need("transcodes_failed", 10)
