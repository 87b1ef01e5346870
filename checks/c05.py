"""Random transcodes whose sound samples are known exactly (sound rate equal to
the requested rate, explicit normalisation), some overdriven, some longer than
one decoding chunk (65536 mono or 32768 stereo samples); the pulse width of the
k-th audio/video opcode is compared with the k-th sample.  Distinct = distinct
(level, position in block, whether the opcode follows a frame fetch or an
ACK)."""
import numpy as np
import core, streams, media
from core import Violation


def mon(ctx, run):
    want = [max(-15, min(16, l)) for l in run.levels]
    st = dict(ack=False, f=0)

    def f(r, e, before):
        if e[0] == "ack":
            st["ack"] = True
        elif e[0] == "op":
            i, duty = e[1], e[2]
            if i >= len(want):
                raise Violation("extra", "opcode %d but the movie has only %d samples" % (i, len(want)))
            if duty != 34 + 2 * want[i]:
                near = [k for k in range(max(0, i - 3), min(len(want), i + 4)) if 34 + 2 * want[k] == duty]
                raise Violation("duty", "opcode %d has pulse width %d, sample %d has level %d (width %d); nearby samples that match: %r" % (
                    i, duty, i, want[i], 34 + 2 * want[i], near), opcode=e)
            ctx.count("evaluations")
            nf = len(r.s.fetch)
            ctx.seen(want[i], e[7] % 2048, st["ack"], nf != st["f"])
            ctx.count("after_ack", st["ack"])
            ctx.count("after_fetch", nf != st["f"])
            st["ack"], st["f"] = False, nf
        elif e[0] == "end":
            ended = bool(r.s.fetch) and r.s.fetch[-1][0] is None
            n = r.dec.nops
            if r.job["max_bytes"]:
                ctx.count("limited")
                return
            if ended:
                exp = r.s.fetch[-1][1] - 1
                ctx.count("ended_by_video")
            else:
                exp = len(want)
                ctx.count("ended_by_audio")
            if n != exp:
                raise Violation("count", "%d opcodes, expected %d of the %d samples" % (n, exp, len(want)))
    return f


def long_stream(ctx, arg):
    """Sound longer than a decoding chunk, under pictures that need no work."""
    dhgr, channels, n, seed = arg
    rng = ctx.rng("long", seed)
    lv = streams.levels(rng, n)
    # make every stretch of the sound recognisable
    lv = [((i * 7919 + (i >> 9)) % 32) - 15 if k == 0 else lv[i] for i, k in enumerate([rng.randrange(2) for _ in range(n)])]
    d = ctx.newdir("long")
    pic = media.picture(rng, dhgr, "blank")
    smp = media.levels_to_samples(lv)
    if channels == 2:
        smp = np.stack([smp, smp], axis=1).reshape(-1)
    rate = 8000
    # each frame differs a little, so stores keep happening
    frames = media.pictures(rng, dhgr, n // 4000 + 3, ["sparse"])
    import os
    clip = media.Clip(os.path.join(d, "l.mp4"), frames, fps=(2, 1), rate=rate, samples=smp, channels=channels)
    r = streams.Run.__new__(streams.Run)
    import decode
    r.job = dict(dhgr=dhgr, max_bytes=None)
    r.clip, r.levels = clip, lv
    r.s = media.Session(clip, dhgr, "NTSC", 1, rate, 1.0, None)
    r.data, r.events, r.dec, r.screen = bytearray(), [], decode.Decoder(streams.entries()), decode.Screen()
    r.go(mon(ctx, r))
    ctx.count("long_streams")
    ctx.count("long_samples", n)


def run(ctx):
    streams.prepare(ctx)
    jl = streams.jobs(ctx, ctx.scale(16, 200), ctx.scale(1100, 3000))
    rng = ctx.rng("norm")
    for j in jl:
        j["norm"] = rng.choice([1.0, 1.0, 2.0, 4.0])
        if j["norm"] > 1:
            j["over"] = True
    longs = [(False, 1, 66500, 0), (True, 2, 34000, 1)]
    if ctx.thorough:
        longs += [(True, 1, 140000, 2), (False, 2, 140000, 3)]
    ctx.pmap(lambda a: long_stream(ctx, a), longs)
    streams.run_jobs(ctx, jl, mon)
    ctx.need("ended_by_video")
    ctx.need("ended_by_audio")
    ctx.need("after_ack", 5)
    ctx.need("long_streams", 2)
