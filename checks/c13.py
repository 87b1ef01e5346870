"""Random and structured screen memories (noise, flat, palette bits toggled,
page ends) in both modes and banks: for every byte the dots and the colour
values and names the transcoder derives from its packed representation are
compared with an independent renderer of the same raw memory.  Enough screens
are used to meet nearly every distinct context.  Distinct = distinct (mode,
column position, context)."""
import numpy as np
import core, streams, media, oracle
from core import Violation


def names(ctx):
    import colours
    for cls, want in ((colours.HGRColours, oracle.NAMES), (colours.DHGRColours, oracle.DHGR_NAMES)):
        got = {c.value: c.name for c in cls}
        if got != want:
            k = next(k for k in range(16) if got.get(k) != want[k])
            raise Violation("names", "%s: pattern %s is %r, displays as %s" % (cls.__name__, bin(k), got.get(k), want[k]))
        ctx.count("evaluations", 16)


def one(ctx, a):
    import screen, colours, palette
    i, = a
    rng = ctx.rng("scr", i)
    dhgr = i % 2 == 1
    kind = rng.choice(["noise"] * 6 + ["grey", "palette", "edges", "columns"])
    prev = media.picture(rng, dhgr, "noise")
    main, aux = media.picture(rng, dhgr, kind, prev, holes=True)
    if dhgr and rng.random() < 0.5:
        r = np.random.RandomState(rng.getrandbits(31))
        main |= (r.randint(0, 2, main.shape) << 7).astype(np.uint8)
        aux |= (r.randint(0, 2, main.shape) << 7).astype(np.uint8)
    mm = screen.MemoryMap(1, main.copy())
    if dhgr:
        b, nom = screen.DHGRBitmap(palette.Palette.NTSC, mm, screen.MemoryMap(1, aux.copy())), colours.DHGRColours
        nm = oracle.DHGR_NAMES
    else:
        b, nom = screen.HGRBitmap(palette.Palette.NTSC, mm), colours.HGRColours
        nm = oracle.NAMES
    # reach the same memory by updates on some screens
    ndots = int(b.MASKED_DOTS)
    f = colours.dots_to_nominal_colour_pixels
    f = getattr(f, "__wrapped__", f)
    fv = colours.dots_to_nominal_colour_pixel_values
    fv = getattr(fv, "__wrapped__", fv)
    want_all = oracle.pixels(dhgr, main, aux)
    px = want_all.tolist()
    cache = {}
    for is_aux in ((False, True) if dhgr else (False,)):
        for p in range(32):
            for o in range(256):
                bo = b.byte_offset(o, is_aux)
                ctxv = int(b.mask_and_shift_data(b.packed[p, o // 2], bo))
                k = (bo, ctxv)
                got = cache.get(k)
                if got is None:
                    dots = b.to_dots(ctxv, byte_offset=bo)
                    vals = fv(ndots, dots, nom, init_phase=b.PHASES[bo])
                    nms = [c.name for c in f(ndots, dots, nom, init_phase=b.PHASES[bo])]
                    got = cache[k] = (int(dots), [int(v) for v in vals], nms)
                first = 14 * o - 3 + (7 if dhgr and not is_aux else 0)
                want = px[p][first + 3:first + 3 + ndots]
                if got[1] != want or got[2] != [nm[v] for v in want]:
                    raise Violation("colour", "%s %s $%02x%02x: colours %r, display shows %r" % (
                        "DHGR" if dhgr else "HGR", "aux" if is_aux else "main", p + 32, o, got[2], [nm[v] for v in want]),
                        bytes_around=main[p, max(0, o - 1):o + 2], aux_around=None if aux is None else aux[p, max(0, o - 1):o + 2])
                # dots: bit j of the context is dot first+j
                wd = 0
                for j, v in enumerate(want):
                    ph = (first + j) & 3
                    wd |= (((v >> ph) | (v << (4 - ph))) & 1) << j
                lastv = oracle.ror4(want[-1], (first + ndots - 1) & 3)
                wd |= (lastv >> 1) << ndots
                if got[0] != wd:
                    raise Violation("dots", "%s $%02x%02x: dots %s, display lights %s" % ("DHGR" if dhgr else "HGR", p + 32, o, bin(got[0]), bin(wd)))
                ctx.count("evaluations")
    for k in cache:
        ctx.distinct.add((dhgr,) + k)


def run(ctx):
    core.setup_transcoder(ctx.scratch)
    import screen
    with ctx.guard():
        names(ctx)
    oracle.lib()
    ctx.pmap(lambda a: one(ctx, a), [(i,) for i in range(ctx.scale(48, 400))])
    n = [0, 0]
    for d in ctx.distinct:
        n[d[0]] += 1
    ctx.count("hgr_contexts", n[0])
    ctx.count("dhgr_contexts", n[1])
    ctx.extra["all_contexts"] = {"HGR": 2 * 2 ** 14, "DHGR": 4 * 2 ** 13}
    ctx.need("hgr_contexts", 20000)
    ctx.need("dhgr_contexts", 20000)
