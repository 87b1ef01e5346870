"""Evaluations: frames delivered by the repository's frame grabber, compared
byte for byte with the conversions prescribed for the input frames, and the
bitmaps it hands to the converter, compared with the frames scaled to the whole
screen; with random delays on both sides (up to minutes, on a clock that runs fast for the code
under test), and with conversions left by earlier runs that were
killed inside the converter at every stage (including between its writes),
killed by a signal at a random time, or truncated at random sizes.  Distinct =
distinct (mode, how the earlier run ended, frame position, truncation class)."""
import os, signal, time
import numpy as np
import core, fastclock, media, grab
from core import Violation

ASSUMPTIONS = ["bmp2dhr is a stand-in that writes its output files in order, front to back, in place"]


def run(ctx):
    core.setup_transcoder(ctx.scratch)
    media.install()
    with core.quiet():
        import frame_grabber

    def clip_of(rng, d, n, dhgr):
        fr = media.pictures(rng, dhgr, n, ["noise", "sparse", "onepage", "grey", "blank", "noise", "same", "onebank"], holes=rng.random() < 0.5)
        return media.Clip(os.path.join(d, rng.choice(("m.mp4", "my film.v2.mkv", "x"))), fr, fps=rng.choice(((30, 1), (24000, 1001))),
                          size=rng.choice(media.SIZES) if n <= 25 else (16, 16), scenic=n <= 25)

    def killed_run(ctx, rng, clip, dhgr, pal, how, n):
        """One earlier run in a child that dies."""
        k0 = rng.randrange(max(1, n))
        cut = rng.choice((0, 1, 255, 4096, 8191, rng.randrange(8192)))
        which = rng.randrange(2)

        def hook(k, argv, out, write):
            for j, (p, a) in enumerate(out):
                if k == k0 and how == "inside" and j == min(which, len(out) - 1):
                    with open(p, "wb") as f:
                        f.write(a.tobytes()[:cut])
                        f.flush()
                        os.fsync(f.fileno())
                    os._exit(9)
                if how == "timed":
                    b = a.tobytes()
                    with open(p, "wb", buffering=0) as f:
                        for q in range(0, 8192, 512):
                            f.write(b[q:q + 512])
                            time.sleep(0.0002)
                else:
                    write(p, a)
            if k == k0 and how == "after":
                os._exit(9)
            return 0

        def fhook(k):
            if k == k0 and how == "decode":
                os._exit(9)
        pid = os.fork()
        if pid == 0:
            signal.alarm(40)     # should it hang; the run under test will too
            try:
                clip.bmp_hook, clip.frame_hook = hook, fhook
                if how == "bmp":
                    from PIL import Image
                    real = Image.Image.save

                    def save(self, fp, *a, **kw):
                        if k0 == int("".join(c for c in os.path.basename(str(fp)) if c.isdigit()) or 0):
                            with open(str(fp), "wb") as f:
                                f.write(b"BM" + bytes(cut))
                            os._exit(9)
                        return real(self, fp, *a, **kw)
                    Image.Image.save = save
                lim = rng.randrange(n + 1) if how == "consumer" else None
                g = grab.grabber(clip, dhgr, pal)
                for i, _ in enumerate(g.frames()):
                    if lim is not None and i >= lim:
                        break
            finally:
                os._exit(0)
        if how == "timed":
            time.sleep(rng.random() * 0.005 * n + 0.01)
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return (how, min(k0, 30), which, cut in (0, 8192), cut)

    def files(d):
        out = {}
        for r, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(r, f)
                out[p] = os.path.getsize(p)
        return out

    def job(i):
        rng = ctx.rng(i)
        dhgr, pal = i % 2 == 1, rng.choice(("NTSC", "IIGS"))
        n = rng.choice((0, 1, 2, 9, 10, 11, 12, 25, 40))
        if i < 4:
            n = (131, 260)[i // 2]
        d = ctx.newdir("g")
        clip = clip_of(rng, d, n, dhgr)
        kinds = ["none", "complete", "inside", "inside", "inside", "after", "decode", "bmp", "consumer", "timed", "truncate", "truncate"]
        early = rng.choice(kinds)
        hist = []
        info = dict(mode="DHGR" if dhgr else "HGR", frames=n)
        with ctx.guard(**info, earlier=early):
            reps = 1 if early in ("none", "complete", "truncate") else rng.randrange(1, 4)
            if early == "complete":
                r = grab.collect(grab.grabber(clip, dhgr, pal))
                if r.error:
                    raise Violation("error", "frames() raises %r" % r.error)
            elif early == "truncate":
                # find out where this tree keeps its conversions
                r = grab.collect(grab.grabber(clip, dhgr, pal))
                if r.error:
                    raise Violation("error", "frames() raises %r" % r.error)
                for p, sz in files(d).items():
                    if not p.upper().endswith((".BIN", ".AUX")):
                        continue
                    x = rng.random()
                    if x < 0.4:
                        c = rng.choice((0, 1, 7680, 8191, rng.randrange(8192)))
                        os.truncate(p, min(c, sz))
                        hist.append(("cut", c))
                    elif x < 0.6:
                        os.remove(p)
                    ctx.count("leftovers_damaged", x < 0.6)
            elif early != "none":
                for _ in range(reps):
                    hist.append(killed_run(ctx, rng, clip, dhgr, pal, rng.choice((early, early, "inside")), n))
                    ctx.count("killed_runs")
            left = sum(1 for p in files(d) if p.upper().endswith((".BIN", ".AUX")))
            part = sum(1 for p, s in files(d).items() if p.upper().endswith((".BIN", ".AUX")) and s != 8192)
            ctx.count("leftover_files", left)
            ctx.count("leftover_incomplete", part)
            # the run under test
            slow = rng.choice(("none", "producer", "consumer", "both"))
            clip.bmp_hook = clip.frame_hook = None
            if slow in ("producer", "both"):
                ks = set(rng.sample(range(n), min(n, 6)))
                clip.frame_hook = lambda k: time.sleep(0.05) if k in ks else None

                def bh(k, argv, out, write):
                    for p, a in out:
                        if k in ks:
                            time.sleep(0.03)
                        write(p, a)
                    return 0
                clip.bmp_hook = bh
            nap = None
            if slow in ("consumer", "both"):
                cs = set(rng.sample(range(n), min(n, 6)))
                nap = lambda k: time.sleep(0.06) if k in cs else None
            calls = len(media.CALLS)
            g = grab.grabber(clip, dhgr, pal)
            if slow in ("consumer", "both") or rng.random() < 0.6:
                r = grab.collect(g, nap)
            else:
                with grab.Schedule(rng) as sch:
                    r = grab.collect(g, nap)
                ctx.count("schedules_" + sch.kind)
                ctx.count("delays", sch.delays)
            if r.error is not None:
                raise Violation("error", "frames() raises %r although every conversion works" % r.error)
            grab.check_frames(r, clip, dhgr)
            ctx.count("frames_compared", len(r.frames))
            ctx.count("runs_" + slow)
            ctx.count("conversions", len(media.CALLS) - calls)
            if clip.scenic:
                ctx.count("bitmaps_compared", len(media.CALLS) - calls)
            ctx.seen(dhgr, early, n, slow, tuple(hist))
            # and once more over what this run has left
            if rng.random() < 0.3:
                clip.bmp_hook = clip.frame_hook = None
                r = grab.collect(grab.grabber(clip, dhgr, pal))
                if r.error is not None:
                    raise Violation("error", "a second run raises %r" % r.error)
                grab.check_frames(r, clip, dhgr)
                ctx.count("frames_compared", len(r.frames))
        import shutil
        shutil.rmtree(d, ignore_errors=True)

    # both modes and palettes of one movie side by side
    def mixed(i):
        rng = ctx.rng("mixed", i)
        d = ctx.newdir("g")
        n = rng.choice((3, 12))
        path = os.path.join(d, "m.mp4")
        sets = {}
        order = [(dh, p) for dh in (False, True) for p in ("NTSC", "IIGS")]
        rng.shuffle(order)
        for rnd in range(2):
            for dh, p in order:
                if (dh, p) not in sets:
                    sets[dh, p] = media.pictures(rng, dh, n, ["noise"])
                clip = media.Clip(path, sets[dh, p])
                with ctx.guard(mixed=(dh, p), round=rnd):
                    r = grab.collect(grab.grabber(clip, dh, p))
                    if r.error is not None:
                        raise Violation("error", "frames() raises %r" % r.error)
                    grab.check_frames(r, clip, dh)
                    ctx.count("frames_compared", len(r.frames))
                    ctx.seen("mixed", dh, p, rnd)
        import shutil
        shutil.rmtree(d, ignore_errors=True)

    NAMES = [("film.part.one.mp4", "film.part.two.mp4"), ("a.mp4", "a.b.mp4"), ("film.mp4", "film2.mp4"), ("Film.mp4", "film.mp4"),
             ("one/m.mp4", "two/m.mp4"), ("dir.x/m.mp4", "dir.y/m.mp4"), ("my film 1.mkv", "my film 2.mkv"), ("m", "m2"), ("x_HGR.mp4", "x.mp4"),
             ("-1.mp4", "-2.mp4"), ("2021.01.mp4", "2021.02.mp4"), ("%d.mp4", "%s.mp4")]

    def neighbours(i):
        """Other movies with other names were converted next to this one."""
        rng = ctx.rng("neighbours", i)
        d = ctx.newdir("g")
        names = list(NAMES[i % len(NAMES)])
        rng.shuffle(names)
        dhgr = rng.random() < 0.5
        n = rng.choice((2, 5))
        clips = []
        for x in names:
            os.makedirs(os.path.dirname(os.path.join(d, x)), exist_ok=True)
            clips.append(media.Clip(os.path.join(d, x), media.pictures(rng, dhgr, n, ["noise"])))
        for rnd in range(2):
            for x, clip in zip(names, clips):
                with ctx.guard(neighbours=names, movie=x, round=rnd):
                    r = grab.collect(grab.grabber(clip, dhgr, "NTSC"))
                    if r.error is not None:
                        raise Violation("error", "frames() raises %r" % r.error)
                    grab.check_frames(r, clip, dhgr)
                    ctx.count("frames_compared", len(r.frames))
                    ctx.count("neighbour_runs")
                    ctx.seen("neighbours", x, rnd)
        import shutil
        shutil.rmtree(d, ignore_errors=True)

    def ages(i):
        """The converter, the decoder or the consumer takes minutes: time passes
        2000 times as fast for the code under test."""
        rng = ctx.rng("ages", i)
        dhgr = i % 2 == 1
        n = rng.choice((12, 25, 40))
        d = ctx.newdir("g")
        clip = clip_of(rng, d, n, dhgr)
        slow = ("consumer", "decoder", "converter", "all")[i // 2 % 4]
        ks = set(rng.sample(range(n), 4) + [0, n - 1])
        nap = None
        if slow in ("consumer", "all"):
            nap = lambda k: time.sleep(0.3) if k in ks else None
        if slow in ("decoder", "all"):
            clip.frame_hook = lambda k: time.sleep(0.3) if k in ks else None
        if slow in ("converter", "all"):
            def bh(k, argv, out, write):
                if k in ks:
                    time.sleep(0.3)
                for p, a in out:
                    write(p, a)
                return 0
            clip.bmp_hook = bh
        media.PATIENCE[0] = 2000.0
        fastclock.install(2000.0)
        with ctx.guard(mode="DHGR" if dhgr else "HGR", frames=n, minutes=slow):
            r = grab.collect(grab.grabber(clip, dhgr, "NTSC"), nap)
            if r.error is not None:
                raise Violation("error", "frames() raises %r although every conversion works, if slowly (%s)" % (r.error, slow))
            grab.check_frames(r, clip, dhgr)
            ctx.count("frames_compared", len(r.frames))
            ctx.count("waits_of_minutes", len(ks))
            ctx.seen("ages", dhgr, slow, n)
        import shutil
        shutil.rmtree(d, ignore_errors=True)

    def epic(i):
        """A movie of thousands of frames."""
        dhgr = i % 2 == 1
        n = ctx.scale(4500, 70000)
        d = ctx.newdir("g")
        base = np.frombuffer(bytes(range(256)) * 32, np.uint8)

        def pic(k, bank):
            a = base.copy()
            a[8:12] = [k & 255, k >> 8 & 255, k >> 16, bank]
            return a

        class Frames:
            def __len__(self):
                return n

            def __getitem__(self, k):
                return pic(k, 0), pic(k, 1)
        clip = media.Clip(os.path.join(d, "long.mp4"), Frames())

        def each(k, m, a):
            for bank, x in ((0, m), (1, a)) if dhgr else ((0, m),):
                got = np.asarray(x.page_offset).reshape(8192)
                if (got != pic(k, bank)).any():
                    raise Violation("content", "frame %d of %d is delivered as frame %d" % (k, n, int(got[8]) | int(got[9]) << 8 | int(got[10]) << 16))
            if k % 256 == 0:
                ctx.count("frames_compared", 256)
        with ctx.guard(epic="DHGR" if dhgr else "HGR"):
            r = grab.collect(grab.grabber(clip, dhgr, "NTSC"), each=each)
            if isinstance(r.error, Violation):
                raise r.error
            if r.error is not None:
                raise Violation("error", "frames() raises %r although every conversion works" % r.error)
            if len(r.frames) != n:
                raise Violation("count", "%d frames delivered, expected %d" % (len(r.frames), n))
            ctx.count("frames_of_long_movies", n)
            ctx.seen("epic", dhgr)
        import shutil
        shutil.rmtree(d, ignore_errors=True)

    ctx.pmap(lambda a: epic(-a) if a < 0 else job(a), [-2, -1] + list(range(ctx.scale(160, 2000))))
    ctx.need("frames_of_long_movies", 9000)
    ctx.pmap(ages, range(ctx.scale(16, 80)))
    ctx.pmap(mixed, range(ctx.scale(8, 60)))
    ctx.pmap(neighbours, range(ctx.scale(len(NAMES), 4 * len(NAMES))))
    ctx.need("neighbour_runs", 40)
    ctx.need("frames_compared", 500)
    ctx.need("waits_of_minutes", 20)
    ctx.need("bitmaps_compared", 300)
    ctx.need("killed_runs", 20)
    ctx.need("leftover_incomplete", 10)
