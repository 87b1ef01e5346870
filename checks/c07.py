"""The same encode (same seed for the encoder's tie breaking) is run without and
with limits; limits lie at and around every opcode start, block end, header and
the natural end.  Additionally opcode sequences of fixed content are emitted
under every limit of a range.  The limited stream must be the unlimited one cut
before the first audio/video opcode at or after the limit, plus TERMINATE and
zero padding.  Distinct = distinct (mode, offset of the limit in its block,
offset of the cut)."""
import os, random
import numpy as np
import core, streams, media, decode
from core import Violation


def expected(data, entries, term, N):
    """Cut of the unlimited stream; `term` is the address of TERMINATE."""
    dec = decode.Decoder(entries)
    cut = None
    for b in data:
        e = dec.feed(b)
        if e and e[0] == "op" and N and e[7] >= N:
            cut = e[7]
            break
        if e and e[0] == "terminate":
            cut = e[1]
            break
    out = bytes(data[:cut]) + bytes([term >> 8, term & 255])
    return out + bytes(-len(out) % 2048), cut


def compare(ctx, full, got, N, dhgr, term):
    want, cut = expected(full, streams.entries(), term, N)
    if bytes(got) != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        raise Violation("cut", "limit %r: stream of %d bytes, expected %d (cut at %d); first difference at byte %d (block offset %d)" % (
            N, len(got), len(want), cut, i, i % 2048))
    ctx.count("evaluations")
    ctx.seen(dhgr, N and int(N) % 2048, cut % 2048)
    if cut < len(full) - 2048:
        ctx.count("shortened")


def real(ctx, job):
    term = next(a for a, k in streams.entries().items() if k[0] == "terminate")
    rng = random.Random(job["seed"])
    d = ctx.newdir("s")
    clip, lv = streams.build(job, d)

    def enc(N):
        random.seed(job["seed"])
        np.random.seed(job["seed"])
        s = media.Session(clip, job["dhgr"], job["pal"], job["every_n"], job["bitrate"], 1.0, N)
        return bytearray(s.bytes())
    full = enc(rng.choice([None, 0, 0.0]))
    decode.decode(full, streams.entries())
    end = len(full)
    limits = [rng.choice([1, 6, 7, 8, 13, 14, 15]), rng.randrange(1, end), 2048 * rng.randrange(1, 3) + rng.randrange(-6, 8),
              7 + 7 * rng.randrange(1, 280) + rng.choice([-1, 0, 1]), end - rng.randrange(0, 2048), end + 5000]
    for N in limits[:job["nlim"]]:
        compare(ctx, full, enc(N), N, job["dhgr"], term)
        ctx.count("real_pairs")
    # and once more without a limit: the comparison is only meaningful if the
    # encode is reproducible
    if enc(None) != full:
        raise core.Inconclusive("the encode is not reproducible")


def synthetic(ctx, arg):
    import opcodes, video_mode
    dhgr, nops, limits = arg
    term = next(a for a, k in streams.entries().items() if k[0] == "terminate")
    rng = ctx.rng("syn", dhgr, nops)
    d = ctx.newdir("syn")
    clip = media.Clip(os.path.join(d, "x.mp4"), [media.picture(rng, dhgr, "blank")], samples=[0] * 10)
    keys = sorted(opcodes.TICK_OPCODES)
    ops = [opcodes.Header(video_mode.VideoMode.DHGR if dhgr else video_mode.VideoMode.HGR)]
    for _ in range(nops):
        ops.append(opcodes.TICK_OPCODES[keys[rng.randrange(len(keys))]](rng.randrange(128), [rng.randrange(256) for _ in range(4)]))
    full = None
    for N in [None] + list(limits):
        s = media.Session(clip, dhgr, max_bytes=N)
        got = bytearray(s.m.emit_stream(iter(ops)))
        if full is None:
            full = got
        else:
            compare(ctx, full, got, N, dhgr, term)
            ctx.count("synthetic_limits")


def large(ctx, arg):
    """Megabytes of output, as real movies have: a repeated opcode cycle under
    a limit is compared with the stream composed here from the table of player
    addresses, to the byte."""
    import opcodes, video_mode
    dhgr, nbytes, N = arg
    byname = {k: a for a, k in streams.entries().items()}
    rng = ctx.rng("large", dhgr, N)
    d = ctx.newdir("lg")
    clip = media.Clip(os.path.join(d, "x.mp4"), [media.picture(rng, dhgr, "blank")], samples=[0] * 10)
    cyc = []
    for i in range(1009):
        t, p, c, o = rng.randrange(4, 68, 2), rng.randrange(32, 64), rng.randrange(128), [rng.randrange(256) for _ in range(4)]
        a = byname[("tick", t, p)]
        cyc.append((opcodes.TICK_OPCODES[(t, p)](c, o), bytes([a >> 8, a & 255, c] + o)))
    ack, term = byname[("ack",)], byname[("terminate",)]

    def ops():
        yield opcodes.Header(video_mode.VideoMode.DHGR if dhgr else video_mode.VideoMode.HGR)
        n = 7
        while n < nbytes:
            for op, _ in cyc:
                yield op
                n += 7
    # the stream as it must be
    want = bytearray(b"\xff" * 6 + bytes([1 if dhgr else 0]))
    n, bank, pos = 7, 0, 7
    while n < nbytes and not (N and pos >= N):
        for _, b in cyc:
            if N and pos >= N:
                break
            want += b
            pos += 7
            n += 7
            if pos % 2048 == 2044:
                bank = 1 - bank if dhgr else 0
                want += bytes([ack >> 8, ack & 255, 0x54 + bank, 255])
                pos += 4
    # a limit passed by the ACK itself ends the stream after the ACK
    want += bytes([term >> 8, term & 255])
    want += bytes(-len(want) % 2048)
    s = media.Session(clip, dhgr, max_bytes=N)
    i, w = 0, len(want)
    for b in s.m.emit_stream(ops()):
        if i >= w:
            raise Violation("large", "limit %r (of %d bytes available): the stream goes on after %d bytes" % (N, nbytes, w))
        if b != want[i] and not (i % 2048 == 2047 or (i >= 0 and i < 6)):
            raise Violation("large", "limit %r: byte %d is %02x, expected %02x" % (N, i, b, want[i]))
        i += 1
    if i != w:
        raise Violation("large", "limit %r (of %d bytes available): stream of %d bytes, expected %d" % (N, nbytes, i, w))
    ctx.count("evaluations")
    ctx.count("large_bytes", w)
    ctx.seen("large", dhgr, N)


def run(ctx):
    streams.prepare(ctx)
    M = 1048576
    rl = ctx.rng("large")
    big = [(dh, int(n * M), lim) for dh, n, lim in
           [(True, 2.2, 2. * M), (False, 2.2, 1.5 * M), (True, 1.2, None), (False, 1.4, M + rl.randrange(1, 300000)),
            (True, 5, 4. * M + rl.randrange(1, 4096)), (False, 20, 16. * M + rl.randrange(-5000, 5000)), (True, 9, 8. * M), (False, 9, 0.)]]
    if ctx.thorough:
        big += [(True, 80, 64. * M), (False, 270, 256. * M + 4096), (True, 40, None), (False, 33, rl.randrange(1, 33 * M))]
    ctx.pmap(lambda a: large(ctx, a), big)
    ctx.need("large_bytes", 20000000)
    jl = streams.jobs(ctx, ctx.scale(12, 96), ctx.scale(620, 1500))
    for j in jl:
        j["nlim"] = ctx.scale(4, 6)
        j["kinds"] = ["sparse", "blank", "blocks"]
    ctx.pmap(lambda j: real(ctx, j), jl)
    args = []
    for dh in (False, True):
        a = ctx.rng("lim", dh).randrange(0, 40)
        for part in range(4):
            lo, hi = part * 1700, part * 1700 + 1700
            lim = [x for x in range(lo + 1, hi) if ctx.thorough or x % 2048 < 40 or x % 2048 > 2000 or x % 11 == a % 11]
            lim += [x + 0.5 for x in lim[::25]]
            args.append((dh, 800 + part * 3, lim))
    ctx.pmap(lambda a: synthetic(ctx, a), args)
    ctx.need("real_pairs", 10)
    ctx.need("synthetic_limits", 200)
    ctx.need("shortened", 100)
