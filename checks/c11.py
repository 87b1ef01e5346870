"""Every address of both hi-res pages and every coordinate is compared with the
layout formula; random write sequences through the linear and the paged
representation are mirrored in a plain byte array and compared after
conversions in both directions; invalid page numbers, shapes and addresses must
be refused and change nothing.  Distinct = distinct (page, row, byte) plus
write sequences."""
import numpy as np
import core, streams
from core import Violation


def want(y, x, page):
    return 0x2000 * page + 1024 * (y % 8) + 128 * ((y // 8) % 8) + 40 * (y // 64) + x


def tables(ctx):
    import screen as s
    seen = set()
    for page in (1, 2):
        for y in range(192):
            b = want(y, 0, page)
            if s.y_to_base_addr(y, page - 1) != b or s.Y_TO_BASE_ADDR[page - 1][y] != b:
                raise Violation("row", "row %d of page %d is at %x / %x, hardware has it at %x" % (
                    y, page, s.y_to_base_addr(y, page - 1), s.Y_TO_BASE_ADDR[page - 1][y], b))
            for x in range(40):
                a = want(y, x, page)
                if tuple(s.ADDR_TO_COORDS.get(a, ())) != (page - 1, y, x):
                    raise Violation("addr-to-coords", "$%04x maps to %r, is (%d, %d, %d)" % (a, s.ADDR_TO_COORDS.get(a), page - 1, y, x))
                seen.add(a)
                off = a - 0x2000 * page
                p, o = divmod(off, 256)
                for n, t, w, key in (("PAGE_OFFSET_TO_Y", s.PAGE_OFFSET_TO_Y[p, o], y, (p, o)), ("PAGE_OFFSET_TO_X", s.PAGE_OFFSET_TO_X[p, o], x, (p, o)),
                                     ("X_Y_TO_PAGE", s.X_Y_TO_PAGE[y, x], p, (y, x)), ("X_Y_TO_OFFSET", s.X_Y_TO_OFFSET[y, x], o, (y, x))):
                    if int(t) != w:
                        raise Violation("table", "%s%r is %d, should be %d" % (n, key, t, w))
                if s.SCREEN_HOLES[p, o]:
                    raise Violation("hole", "$%04x is displayed but marked as hole" % a)
                ctx.count("evaluations")
                ctx.seen(page, y, x)
    extra = set(s.ADDR_TO_COORDS) - seen
    if extra:
        raise Violation("addr-to-coords", "addresses %r are not displayed" % [hex(a) for a in sorted(extra)[:5]])
    if s.SCREEN_HOLES.shape != (32, 256) or int(s.SCREEN_HOLES.sum()) != 512:
        raise Violation("hole", "%d holes" % s.SCREEN_HOLES.sum())


def refuses(ctx, what, fn, state=None):
    before = None if state is None else np.array(state())
    try:
        fn()
    except Exception:
        pass
    else:
        raise Violation("accepted", "%s is accepted" % what)
    if before is not None and not np.array_equal(before, state()):
        raise Violation("refused-but-changed", "%s is refused but changed memory" % what)
    ctx.count("refusals")
    ctx.count("evaluations")


def sequence(ctx, i):
    import screen as s
    rng = ctx.rng("seq", i)
    page = rng.choice([1, 2])
    ref = np.zeros(8192, np.uint8)
    if rng.random() < 0.5:
        ref = np.random.RandomState(rng.getrandbits(31)).randint(0, 256, 8192).astype(np.uint8)
        m = s.FlatMemoryMap(page, ref.copy()) if rng.random() < 0.5 else s.MemoryMap(page, ref.copy().reshape(32, 256))
    else:
        m = s.FlatMemoryMap(page) if rng.random() < 0.5 else s.MemoryMap(page)

    def data(m):
        return (m.data if isinstance(m, s.FlatMemoryMap) else m.page_offset).reshape(-1)

    def check(m, why):
        if m.screen_page != page or not np.array_equal(data(m), ref):
            bad = np.argwhere(data(m) != ref)
            raise Violation("content", "%s: byte %s differs (page %d)" % (why, bad[0] if len(bad) else "-", m.screen_page))
        if isinstance(m, s.FlatMemoryMap):
            if m.data.shape != (8192,):
                raise Violation("shape", "linear memory has shape %r" % (m.data.shape,))
        elif m.page_offset.shape != (32, 256):
            raise Violation("shape", "paged memory has shape %r" % (m.page_offset.shape,))
        ctx.count("evaluations")
    check(m, "after construction")
    base = 0x2000 * page
    for _ in range(60):
        act = rng.random()
        if act < 0.6:
            off = rng.choice([0, 255, 256, 8191, 8190, rng.randrange(8192), rng.randrange(8192)])
            v = rng.randrange(256)
            if isinstance(m, s.FlatMemoryMap):
                m.write(base + off, v)
            else:
                m.write((base + off) // 256, off % 256, v)
            ref[off] = v
            check(m, "after a write to $%04x" % (base + off))
            ctx.count("writes")
        elif act < 0.85:
            m = m.to_memory_map() if isinstance(m, s.FlatMemoryMap) else m.to_flat_memory_map()
            check(m, "after a conversion")
            ctx.count("conversions")
        else:
            if isinstance(m, s.FlatMemoryMap):
                a = rng.choice([base - 1, base + 8192, 0, 0xffff, base - 256, base + 8192 + rng.randrange(8192), -1])
                refuses(ctx, "writing $%04x of page %d" % (a, page), lambda: m.write(a, 1), lambda: m.data)
            else:
                # (pages below the screen's are how other code counts from 0)
                top = base // 256 + 32
                pg, o = rng.choice([(top, 0), (top + 31, 255), (top + rng.randrange(200), rng.randrange(256)),
                                    (base // 256, 256), (top - 1, 256), (base // 256 + rng.randrange(32), 256 + rng.randrange(300))])
                refuses(ctx, "writing page %d offset %d of page %d" % (pg, o, page), lambda: m.write(pg, o, 1), lambda: m.page_offset)
    # rejected arguments
    for pg in (0, 3, -1, 32):
        refuses(ctx, "linear page %d" % pg, lambda: s.FlatMemoryMap(pg))
        refuses(ctx, "paged page %d" % pg, lambda: s.MemoryMap(pg))
    for shape in ((8191,), (8193,), (32, 256), (1, 8192), (0,)):
        refuses(ctx, "linear data of shape %r" % (shape,), lambda: s.FlatMemoryMap(page, np.zeros(shape, np.uint8)))
    for shape in ((8192,), (256, 32), (32, 255), (31, 256), (32, 256, 1)):
        refuses(ctx, "paged data of shape %r" % (shape,), lambda: s.MemoryMap(page, np.zeros(shape, np.uint8)))
    ctx.seen("sequence", i)


def run(ctx):
    core.setup_transcoder(ctx.scratch)
    import screen
    with ctx.guard():
        tables(ctx)
    ctx.pmap(lambda i: sequence(ctx, i), range(ctx.scale(120, 3000)))
    ctx.need("writes", 100)
    ctx.need("conversions", 100)
    ctx.need("refusals", 100)
