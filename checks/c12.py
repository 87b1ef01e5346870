"""Random update sequences on bitmaps of random memory (all banks, columns,
page ends, both values of the top bit); after every update the touched page and
periodically the whole packed representation is compared with a bitmap built
from scratch from a separately kept copy of memory, whose packing is in turn
anchored to the display by C13.  Distinct = distinct (mode, bank, page, offset)
updated."""
import numpy as np
import core, streams, media
from core import Violation


def seq(ctx, a):
    import screen, palette
    i, n = a
    rng = ctx.rng("seq", i)
    dhgr = i % 2 == 1
    P = palette.Palette[rng.choice(["NTSC", "IIGS"])]
    r = np.random.RandomState(rng.getrandbits(31))
    ref = [r.randint(0, 256, (32, 256)).astype(np.uint8) * (rng.random() < 0.7) for _ in range(2)]
    ref = [np.array(x, dtype=np.uint8) for x in ref]

    def build(mem):
        mm = [screen.MemoryMap(1, m.copy()) for m in mem]
        return screen.DHGRBitmap(P, mm[0], mm[1]) if dhgr else screen.HGRBitmap(P, mm[0])
    b = build(ref)

    def check(full, why):
        f = build(ref)
        mems = [b.main_memory] + ([b.aux_memory] if dhgr else [])
        for k, m in enumerate(mems):
            if not np.array_equal(m.page_offset, ref[k]):
                p, o = np.argwhere(m.page_offset != ref[k])[0]
                raise Violation("memory", "%s: bank %d $%02x%02x is %02x, should be %02x" % (why, k, p + 32, o, m.page_offset[p, o], ref[k][p, o]))
        if not np.array_equal(f.packed, b.packed):
            p, c = np.argwhere(f.packed != b.packed)[0]
            raise Violation("packed", "%s: packed column (%d, %d) is %x, a bitmap built from the same memory has %x" % (
                why, p, c, int(b.packed[p, c]), int(f.packed[p, c])))
        ctx.count("evaluations")
    hot = [0, 1, 2, 3, 126, 127, 128, 129, 252, 253, 254, 255]
    page = rng.randrange(32)
    for k in range(n):
        if rng.random() < 0.2:
            page = rng.randrange(32)
        o = rng.choice(hot) if rng.random() < 0.5 else rng.randrange(256)
        v = rng.choice([0, 0x7f, 0x80, 0xff, 0x55, 0xaa, rng.randrange(256), rng.randrange(256), rng.randrange(256)])
        if dhgr and rng.random() < 0.8:
            v &= 0x7f
        aux = dhgr and rng.random() < 0.5
        b.apply(page, o, aux, np.uint8(v))
        ref[int(aux)][page, o] = v
        ctx.count("updates")
        ctx.seen(dhgr, aux, page, o)
        check(True, "update %d (bank %d $%02x%02x := %02x)" % (k, aux, page + 32, o, v))


def every(ctx, a):
    """Every offset of a page once, in both banks."""
    import screen, palette
    dhgr, page = a
    rng = ctx.rng("every", dhgr, page)
    r = np.random.RandomState(rng.getrandbits(31))
    top = 128 if dhgr else 256
    ref = [r.randint(0, top, (32, 256)).astype(np.uint8) for _ in range(2)]
    P = palette.Palette.NTSC
    mm = [screen.MemoryMap(1, m.copy()) for m in ref]
    b = screen.DHGRBitmap(P, *mm) if dhgr else screen.HGRBitmap(P, mm[0])
    offs = list(range(256)) * 2
    rng.shuffle(offs)
    for o in offs:
        for aux in ((False, True) if dhgr else (False,)):
            v = int(r.randint(0, top))
            b.apply(page, o, aux, np.uint8(v))
            ref[int(aux)][page, o] = v
            ctx.count("updates")
            ctx.seen(dhgr, aux, page, o)
            m2 = [screen.MemoryMap(1, m.copy()) for m in ref]
            f = screen.DHGRBitmap(P, *m2) if dhgr else screen.HGRBitmap(P, m2[0])
            if not np.array_equal(f.packed, b.packed):
                p, c = np.argwhere(f.packed != b.packed)[0]
                raise Violation("packed", "after bank %d $%02x%02x := %02x packed column (%d, %d) is %x, rebuilt %x" % (
                    aux, page + 32, o, v, p, c, int(b.packed[p, c]), int(f.packed[p, c])))
            ctx.count("evaluations")


def run(ctx):
    core.setup_transcoder(ctx.scratch)
    import screen, palette
    pages = list(range(32)) if ctx.thorough else sorted(ctx.rng("pages").sample(range(32), 5) + [0, 31])
    ctx.pmap(lambda a: every(ctx, a), [(d, p) for p in pages for d in (False, True)])
    ctx.pmap(lambda a: seq(ctx, a), [(i, ctx.scale(500, 1500)) for i in range(ctx.scale(24, 200))])
    ctx.need("updates", 5000)
