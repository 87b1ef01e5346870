"""Random transcodes, frame changes at all positions relative to block ends;
the bank of every block is predicted (MAIN first, toggled by each ACK in DHGR,
always MAIN in HGR) and every content byte is looked up in the frame being
shown, in the bank and page selected at that moment, or must leave memory as it
is.  Long movies (over 64 KB) with little to draw as well.  Distinct = distinct
(mode, bank, position in block, frame fetches since the block began)."""
import numpy as np
import core, streams, media
from core import Violation
import c07


def mon(ctx, run):
    st = dict(acks=0, since=0)

    def f(r, e, before):
        if e[0] == "ack":
            st["acks"] += 1
            want = st["acks"] % 2 if r.job["dhgr"] else 0
            if e[1] != want:
                raise Violation("ack-bank", "ACK %d selects %s" % (st["acks"], ["MAIN", "AUX"][e[1]]), pos=e[2])
            st["since"] = len(r.s.fetch)
            ctx.count("acks_checked")
        elif e[0] == "op":
            _, i, duty, page, content, offs, bank, pos = e
            t = r.target()
            if t is None:
                raise Violation("no-frame", "opcode %d precedes the first frame" % i)
            tb = t[1] if bank else t[0]
            row = before
            ctx.count("evaluations")
            if int(tb[page - 32, offs[0]]) == content:
                ctx.count("target_bytes")
            elif all(int(row[o]) == content for o in offs):
                ctx.count("restores")
            else:
                raise Violation("content", "opcode %d (%s bank) stores %02x at $%04x: frame %d has %02x there, the screen %02x" % (
                    i, ["MAIN", "AUX"][bank], content, page * 256 + offs[0], r.shown(), tb[page - 32, offs[0]], row[offs[0]]), opcode=e)
            ctx.seen(r.job["dhgr"], bank, pos % 2048, len(r.s.fetch) - st["since"])
    return f


def run(ctx):
    streams.prepare(ctx)
    jl = streams.jobs(ctx, ctx.scale(24, 240), ctx.scale(1600, 3000), holes=False)
    for k, j in enumerate(jl):
        if k % 4:
            j["dhgr"] = True
        if k % 3 == 0:
            j["kinds"] = ["noise", "columns", "flat"]
        if k % 5 == 0:
            # frame period close to a block: fetches sweep over block ends
            j["bitrate"], j["fps"] = 292 * 10 + k % 3 - 1, (10, 1)
    # beyond 64 KB
    ctx.pmap(lambda j: streams.long_run(ctx, j, mon), streams.long_jobs(ctx.rng("l"), ctx.scale(8, 16), ctx.scale(20000, 170000)))
    streams.run_jobs(ctx, jl, mon)
    # and megabytes: the bank of every ACK
    M = 1 << 20
    ctx.pmap(lambda a: c07.large(ctx, a), [(True, ctx.scale(5, 70) * M, None), (False, ctx.scale(3, 40) * M, None)])
    ctx.need("large_bytes", 8000000)
    ctx.need("long_bytes", 300000)
    ctx.need("acks_checked", 20)
    ctx.need("target_bytes", 1000)
