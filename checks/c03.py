"""Random transcodes with emphasis on pictures with data in the screen holes,
at page ends and on all pages; every store of the decoded stream is checked
against an independently computed set of displayed addresses.  Distinct =
distinct (bank, page, offset) stored to."""
import numpy as np
import core, streams, media, oracle
from core import Violation


def mon(ctx, run):
    def f(r, e, before):
        if e[0] != "op":
            return
        _, i, duty, page, content, offs, bank, pos = e
        ctx.count("evaluations")
        if bank and not r.job["dhgr"]:
            raise Violation("aux-in-hgr", "HGR stream stores to AUX memory", opcode=e)
        if r.job["dhgr"] and content >= 0x80:
            raise Violation("dhgr-top-bit", "DHGR opcode %d stores %02x" % (i, content), opcode=e)
        if len(offs) != 4 or not 32 <= page < 64:
            raise Violation("shape", "opcode %d: page %d offsets %r" % (i, page, offs))
        for o in offs:
            ctx.count("stores")
            ctx.seen(bank, page, o)
            if not oracle.VISIBLE2[page - 32, o]:
                raise Violation("hole", "opcode %d stores to the screen hole $%04x" % (i, page * 256 + o), opcode=e,
                                frame=r.shown())
    return f


def run(ctx):
    streams.prepare(ctx)
    jl = streams.jobs(ctx, ctx.scale(24, 240), ctx.scale(1500, 3000), holes=True)
    for j in jl[::2]:
        j["kinds"] = ["noise", "edges", "columns", "flat", "sparse"]
        j["bitrate"], j["fps"], j["every_n"] = 2000, (10, 1), 1
    streams.run_jobs(ctx, jl, mon)
    ctx.need("stores", 10000)
