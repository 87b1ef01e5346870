"""Random transcodes; after every opcode the encoder's own screen memory (the
page it just wrote) is compared with an independent decoder's screen, and at
every ACK and at the end all of both banks and the packed bitmap.  Non-trivial:
the opcode changed memory; distinct = distinct (bank, page, offsets, content)."""
import numpy as np
import core, streams, media, oracle
from core import Violation


def snapshot_equal(ctx, r, full):
    import screen, palette
    v = r.s.m.video
    banks = [v.memory_map] + ([v.aux_memory_map] if r.job["dhgr"] else [])
    for b, mm in enumerate(banks):
        if not np.array_equal(mm.page_offset, r.screen.mem[b]):
            p, o = np.argwhere(mm.page_offset != r.screen.mem[b])[0]
            raise Violation("shadow", "encoder thinks bank %d $%04x holds %02x, the player shows %02x" % (
                b, 0x2000 + p * 256 + o, mm.page_offset[p, o], r.screen.mem[b][p, o]), op=r.dec.nops)
    ctx.count("full_compares")
    if full:
        P = palette.Palette[r.job["pal"]]
        mm = [screen.MemoryMap(1, m.copy()) for m in r.screen.mem]
        ref = screen.DHGRBitmap(P, mm[0], mm[1]) if r.job["dhgr"] else screen.HGRBitmap(P, mm[0])
        if not np.array_equal(ref.packed, v.pixelmap.packed):
            p, c = np.argwhere(ref.packed != v.pixelmap.packed)[0]
            raise Violation("packed", "encoder's packed bitmap differs from the screen at page %d column %d" % (p + 32, c),
                            op=r.dec.nops)
        ctx.count("packed_compares")


def mon(ctx, run):
    changed = [0]

    def f(r, e, before):
        if e[0] == "op":
            v = r.s.m.video
            p = e[3] - 32
            mm = (v.aux_memory_map if e[6] else v.memory_map) if (r.job["dhgr"] or not e[6]) else v.memory_map
            row = r.screen.mem[e[6]][p]
            if not np.array_equal(mm.page_offset[p], row):
                o = int(np.argwhere(mm.page_offset[p] != row)[0][0])
                raise Violation("shadow", "after opcode %d the encoder thinks bank %d $%04x holds %02x, the player shows %02x" % (
                    e[1], e[6], 0x2000 + p * 256 + o, mm.page_offset[p, o], row[o]), opcode=e)
            ctx.count("evaluations")
            if not np.array_equal(before, row):
                ctx.count("ops_changing_memory")
                ctx.seen(e[2:7])
            else:
                ctx.count("idle_ops")
        elif e[0] == "ack":
            snapshot_equal(ctx, r, True)
        elif e[0] == "end":
            snapshot_equal(ctx, r, True)
    return f


def run(ctx):
    streams.prepare(ctx)
    jl = streams.jobs(ctx, ctx.scale(24, 240), ctx.scale(1500, 3000))
    # pictures whose bytes differ without a visual difference, idle in between
    rng = ctx.rng("greys")
    for j in jl[::4]:
        j.update(kinds=["palette", "blank", "grey", "flat"], bitrate=rng.choice([14700, 22500]), fps=rng.choice([(10, 1), (30, 1)]))
    streams.run_jobs(ctx, jl, mon)
    ctx.need("ops_changing_memory", 1000)
    ctx.need("idle_ops", 10)
    ctx.need("packed_compares", 10)
