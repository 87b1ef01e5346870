"""Random transcodes over fractional frame rates, audio rates, frame selections
and audio/video lengths, including long ones (hundreds of frames, nothing to
draw) in which drift would show; the sample number at which each input frame is
fetched is compared with exact rational arithmetic, every encode call's target
with the frame that is due and selected, and the end of the stream with the
shorter input.  With drawing, pictures and audio
replaced, two million consecutive samples are run per rate, eighteen million
(twenty minutes) and a hundred thousand frames for some.  Distinct = distinct (rates, selection, frame)."""
import math
from fractions import Fraction
import numpy as np
import core, streams
from core import Violation


def due_range(job, k):
    """Sample numbers acceptable for fetching frame k: exact, except that where
    the quotient is an integer that floating point cannot represent the next
    sample is accepted as well."""
    per = Fraction(job["bitrate"]) * job["fps"][1] / job["fps"][0]
    x = per * k
    t = max(1, math.ceil(x))
    exact = Fraction(float(per)) == per
    if not exact and x - math.floor(x) < Fraction(1, 10 ** 6):
        return (t, max(1, math.floor(x) + 1))
    if not exact and math.ceil(x) - x < Fraction(1, 10 ** 6):
        return (t, t + 1)
    return (t,)


def mon(ctx, run):
    st = dict(nf=0, ne=0, last=None, t=None)
    job = run.job

    def fetches(r, upto):
        for k, t in r.s.fetch[st["nf"]:]:
            st["nf"] += 1
            kk = k if k is not None else len(r.clip.frames)
            if k is not None and k != (st["last"] if st["last"] is not None else -1) + 1:
                raise Violation("order", "frame %d fetched after frame %r" % (k, st["last"]))
            st["last"] = k
            ok = due_range(job, kk)
            if t not in ok:
                raise Violation("due", "%s fetched at sample %d, due at %r (rate %d, %d/%d frames/s)" % (
                    "frame %d" % k if k is not None else "end of video", t, ok, job["bitrate"], *job["fps"]))
            ctx.count("evaluations")
            ctx.count("fetches")
            ctx.seen(job["bitrate"], job["fps"], job["every_n"], kk)

    def f(r, e, before):
        if e[0] == "op":
            t = e[1] + 1
            fetches(r, t)
            # nothing that is due may be missing
            nxt = (st["last"] + 1) if st["last"] is not None else 0
            if nxt <= len(r.clip.frames) and t > due_range(job, nxt)[-1]:
                raise Violation("late", "frame %d was due at sample %r but has not been fetched at %d" % (nxt, due_range(job, nxt), t))
            k = r.shown()
            if k is None:
                raise Violation("no-frame", "opcode %d before any frame" % e[1])
            for tt, is_aux, target in r.s.encodes[st["ne"]:]:
                st["ne"] += 1
                m, a = r.clip.frames[k]
                if not np.array_equal(target.main_memory.page_offset, m) or (
                        r.job["dhgr"] and not np.array_equal(target.aux_memory.page_offset, a)):
                    raise Violation("target", "at sample %d the encoder is given another picture than frame %d" % (tt, k))
                ctx.count("encodes")
                st["t"] = k
            if st["t"] != k:
                raise Violation("not-encoded", "opcode %d is sent after frame %d became due, but its encoding has not been started" % (e[1], k))
            p, o, c, bank = e[3] - 32, e[5], e[4], e[6]
            if int(r.target()[bank][p, o[0]]) == c:
                ctx.count("towards_frame")
            elif not all(int(before[x]) == c for x in o):
                raise Violation("content", "opcode %d stores %02x at page %d offset %d, not a byte of frame %d" % (e[1], c, p + 32, o[0], k))
        elif e[0] == "end":
            fetches(r, None)
            if r.job["max_bytes"]:
                return
            n, ops = len(r.levels), r.dec.nops
            if st["nf"] and r.s.fetch[-1][0] is None:
                ok = due_range(job, len(r.clip.frames))
                if ops + 1 not in ok:
                    raise Violation("end", "stream has %d opcodes; video runs out at sample %r" % (ops, ok))
                ctx.count("ended_by_video")
            else:
                if ops != n:
                    raise Violation("end", "stream has %d opcodes for %d samples though video did not run out" % (ops, n))
                if min(due_range(job, len(r.clip.frames))) < n:
                    raise Violation("end", "encoding went past the end of the video")
                ctx.count("ended_by_audio")
    return f


def clock(ctx):
    """The encoder's clock over minutes (thorough: most of an hour) of video:
    everything but the audio, the pictures and the drawing is the real encoder."""
    import media, os
    rates = [(14700, (30000, 1001)), (14700, (24000, 1001)), (14700, (60000, 1001)), (14700, (30, 1)), (14700, (25, 1)), (14364, (30000, 1001)),
             (22500, (24000, 1001)), (22500, (1000, 33)), (8000, (15, 1)), (44100, (60000, 1001)), (14700, (50, 1)), (997, (29, 1))]
    # (rate, frames/s, every, samples): a long clock, more than 65536 frames
    far = [(14700, (30000, 1001), 1, ctx.scale(18000000, 200000000)), (997, (60, 1), 3, ctx.scale(2200000, 20000000)), (1000, (240, 1), 7, ctx.scale(800000, 8000000))]

    def job(i):
        rng = ctx.rng("clock", i)
        if i < 0:
            rate, fps, every, end = far[i]
        else:
            rate, fps = rates[i % len(rates)]
            every = rng.choice((1, 2, 3, 5))
            end = ctx.scale(2000000, 40000000)
        j = dict(bitrate=rate, fps=fps)
        info = dict(bitrate=rate, fps=fps, every_n=every, minutes_long=True)
        d = ctx.newdir("clock")
        pic = media.picture(rng, False, "blank")
        clip = media.Clip(os.path.join(d, "c.mp4"), [pic], fps=fps, rate=rate, samples=media.levels_to_samples([0]))
        s = media.Session(clip, False, "NTSC", every, rate, 1.0, None)
        st = dict(t=0, k=0, enc=0)
        due = [due_range(j, 0)]

        def audio_stream(*a, **k):
            while st["t"] < end:
                t = st["t"]
                if t and t >= due[0][-1]:
                    raise Violation("clock", "frame %d not fetched at sample %d, due at %r (rate %d, %d/%d frames/s)" % (st["k"], t, due[0], rate, *fps), **info)
                st["t"] += 1
                yield 0

        from screen import MemoryMap

        def frames(*a, **k):
            while True:
                if st["t"] not in due[0]:
                    raise Violation("clock", "frame %d fetched at sample %d, due at %r (rate %d, %d/%d frames/s)" % (st["k"], st["t"], due[0], rate, *fps), **info)
                st["k"] += 1
                due[0] = due_range(j, st["k"])
                yield MemoryMap(1, pic[0]), None

        def encode_frame(*a, **k):
            if (st["k"] - 1) % every:
                raise Violation("clock", "frame %d is encoded with every %d. frame selected" % (st["k"] - 1, every), **info)
            st["enc"] += 1
            while True:
                yield 32, 0, [0, 0, 0, 0]
        s.m.audio.audio_stream = audio_stream
        s.m.frame_grabber.frames = frames
        s.m.video.encode_frame = encode_frame
        with ctx.guard(**info):
            with core.quiet():
                for _ in s.m.encode():
                    pass
            want = -(-st["k"] // every)
            if st["enc"] != want:
                raise Violation("clock", "%d of %d frames encoded, %d are selected" % (st["enc"], st["k"], want), **info)
        ctx.count("clock_frames", st["k"])
        ctx.count("clock_samples", st["t"])
        ctx.count("evaluations", st["k"])
    return job, list(range(-len(far), len(rates)))


def run(ctx):
    streams.prepare(ctx)
    rng = ctx.rng("x")
    jl = streams.jobs(ctx, ctx.scale(24, 240), ctx.scale(800, 2500))
    for j in jl:
        j["every_n"] = rng.choice([1, 2, 2, 3, 4, 5, 7])
        if rng.random() < 0.5:
            j["bitrate"] = rng.choice(streams.SLOW)
            j["fps"] = rng.choice([(30, 1), (24000, 1001), (30000, 1001), (60, 1), (7, 2), (60000, 1001), (120, 1)])
    longs = []
    for i in range(ctx.scale(8, 32)):
        longs.append(dict(i=i, dhgr=i % 2 == 1, every_n=rng.choice([1, 2, 3]), ops=ctx.scale(12000, 60000), max_bytes=None,
                          bitrate=rng.choice([2000, 1500, 997, 3000, 8000]),
                          fps=rng.choice([(30000, 1001), (24000, 1001), (60000, 1001), (30, 1), (25, 1), (60, 1), (1000, 33), (29, 1), (37, 3)])))
    job, ids = clock(ctx)
    ctx.pmap(lambda j: job(j) if isinstance(j, int) else streams.long_run(ctx, j, mon), ids + longs)
    ctx.need("clock_frames", 400000)
    ctx.need("clock_samples", 40000000)
    streams.run_jobs(ctx, jl, mon)
    ctx.need("ended_by_video")
    ctx.need("ended_by_audio")
    ctx.need("long_streams", 4)
