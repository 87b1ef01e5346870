"""Random transcodes (mode, palette, frame rate, bitrate, frame selection, A/V
lengths, size limits) plus synthetic opcode sequences of every length around
block ends are fed byte by byte to an independent stream decoder that knows the
entry points of the freshly assembled player.  A case is non-trivial if its
stream decodes at least one opcode; distinct = distinct (mode, stream length,
position of TERMINATE in its block)."""
import os
import numpy as np
import core, streams, media, decode
from core import Violation
import c07


def mon(ctx, run):
    def f(r, e, before):
        if e[0] == "header" and bool(e[1]) != bool(r.job["dhgr"]):
            raise Violation("framing:mode", "header mode byte %d for %s" % (e[1], "DHGR" if r.job["dhgr"] else "HGR"))
        if e[0] == "end":
            ctx.seen(r.job["dhgr"], len(r.data), r.dec.term % 2048)
            ctx.count("evaluations")
    return f


def synthetic(ctx, arg):
    """Framing of arbitrary opcode sequences: every count in a range."""
    import opcodes, video_mode, movie
    dhgr, lo, hi, part = arg
    rng = ctx.rng("syn", *map(str, arg))
    d = ctx.newdir("syn")
    blank = media.picture(rng, dhgr, "blank")
    clip = media.Clip(os.path.join(d, "x.mp4"), [blank], samples=[0] * 10)
    keys = sorted(opcodes.TICK_OPCODES)
    for n in range(lo, hi):
        s = media.Session(clip, dhgr)
        ops = [opcodes.Header(video_mode.VideoMode.DHGR if dhgr else video_mode.VideoMode.HGR)]
        want = []
        for _ in range(n):
            k = keys[rng.randrange(len(keys))]
            c = rng.randrange(128 if dhgr else 256)
            offs = [rng.randrange(256) for _ in range(4)]
            want.append((k[0], k[1], c, offs))
            ops.append(opcodes.TICK_OPCODES[k](c, offs))
        dec = decode.Decoder(streams.entries())
        got = []
        bank = 0
        for b in s.m.emit_stream(iter(ops)):
            e = dec.feed(b)
            if e and e[0] == "op":
                got.append((e[2], e[3], e[4], list(e[5])))
            if e and e[0] == "ack" and e[2] % 2048 != 2044:
                raise Violation("framing:ack-position", "ACK at %d" % e[2], n=n)
        dec.end()
        if got != want:
            i = next(i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i])
            raise Violation("framing:content", "opcode %d of %d decodes to %r, was %r" % (
                i, n, got[i] if i < len(got) else None, want[i] if i < len(want) else None))
        nblocks = (7 + 7 * n) // 2044
        if dec.acks != nblocks:
            raise Violation("framing:ack-count", "%d ACKs for %d opcodes" % (dec.acks, n))
        ctx.count("evaluations")
        ctx.count("synthetic_streams")
        ctx.count("opcodes", n)
        ctx.seen(dhgr, dec.pos, dec.term % 2048)


def run(ctx):
    streams.prepare(ctx)
    jl = streams.jobs(ctx, ctx.scale(16, 120), ctx.scale(900, 3000))
    rng = ctx.rng("max")
    for j in jl[::3]:
        j["max_bytes"] = rng.choice([1, 6, 7, 8, 13, 14, 2043, 2044, 2045, 2048, 2049, 4090, 4095, 4096]) + rng.choice([0, 0, 0.5, 2048])
    ctx.pmap(lambda j: streams.long_run(ctx, j, mon), streams.long_jobs(ctx.rng("l"), ctx.scale(8, 16), ctx.scale(20000, 320000)))
    streams.run_jobs(ctx, jl, mon)
    top = ctx.scale(600, 1800)
    args = []
    for dh in (False, True):
        for part in range(8):
            args.append((dh, part * top // 8, (part + 1) * top // 8, part))
    ctx.pmap(lambda a: synthetic(ctx, a), args)
    # streams of megabytes, with and without a limit, to the byte
    M = 1 << 20
    rl = ctx.rng("large")
    big = [(True, 3 * M, None), (False, int(2.3 * M), None), (True, 6 * M, 5 * M + rl.randrange(4096))]
    if ctx.thorough:
        big += [(True, 70 * M, None), (False, 40 * M, None)]
    ctx.pmap(lambda a: c07.large(ctx, a), big)
    ctx.need("large_bytes", 8000000)
    ctx.need("synthetic_streams", 100)
    ctx.need("streams", 8)
    ctx.need("acks", 5)
