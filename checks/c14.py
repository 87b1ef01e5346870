"""Random pairs of screens (independent, nearly equal, equal, greys, top bits,
page ends) in both modes, banks and palettes; every error weight, every
predicted change of storing a byte at each offset of a page and every predicted
residual is compared with what an independent renderer and string distance
measure on raw memory after really performing the store.  The same screens are
measured with both palettes, and both modes in one process, in random order.  Distinct = distinct
(mode, bank, palette, offset, error value)."""
import numpy as np
import core, streams, media, oracle
from core import Violation


def group(ctx, g):
    """Two pairs of screens, one of each mode, and both palettes on each, in one
    process: what is remembered for one must not answer for another."""
    rng = ctx.rng("group", g)
    todo = [(i, dhgr, pal) for i, dhgr in ((2 * g, False), (2 * g + 1, True)) for pal in ("NTSC", "IIGS")]
    rng.shuffle(todo)
    for i, dhgr, pal in todo:
        one(ctx, i, dhgr, pal)


def one(ctx, i, dhgr, pal):
    import screen, palette
    rng = ctx.rng("pair", i)
    P = palette.Palette[pal]
    cst = oracle.cost(pal)
    base = media.picture(rng, dhgr, rng.choice(media.KINDS), media.picture(rng, dhgr, "noise"), holes=True)
    k2 = rng.choice(["noise", "sparse", "palette", "sparse", "grey", "columns", "edges", "onepage"])
    tgt = media.picture(rng, dhgr, k2, base, holes=True)
    (sm, sx), (tm, tx) = (base, tgt) if rng.random() < 0.7 else (tgt, base)

    def build(m, x):
        mm = screen.MemoryMap(1, m.copy())
        return screen.DHGRBitmap(P, mm, screen.MemoryMap(1, x.copy())) if dhgr else screen.HGRBitmap(P, mm)
    S, T = build(sm, sx), build(tm, tx)
    r = np.random.RandomState(rng.getrandbits(31))
    top = 128 if dhgr else 256
    for aux in ((0, 1) if dhgr else (0,)):
        w = T.diff_weights(S, bool(aux))
        o = oracle.diff(dhgr, aux, sm, sx, tm, tx, cst)
        if not np.array_equal(w, o):
            p, q = np.argwhere(w != o)[0]
            raise Violation("weight", "%s %s bank %d $%02x%02x: weight %d, visible difference %d" % (
                "DHGR" if dhgr else "HGR", pal, aux, p + 32, q, w[p, q], o[p, q]))
        ctx.count("evaluations", 8192)
        ctx.count("nonzero_weights", np.count_nonzero(o))
        w2 = S.diff_weights(T, bool(aux))
        if not np.array_equal(w2, o):
            raise Violation("weight-sym", "weights depend on which screen is the source")
        for p, q in np.argwhere(o)[::37]:
            ctx.seen(dhgr, aux, pal, int(q), int(o[p, q]))
        for p in r.choice(32, 6, replace=False):
            cs = [int(tm[p, r.randint(256)]) & (top - 1), int(sm[p, r.randint(256)]) & (top - 1), 0, r.randint(top), r.randint(top)]
            for c in cs:
                d = np.asarray(T.compute_delta_page(int(p), np.uint8(c), w[p], bool(aux))).reshape(-1)
                st = oracle.store_page(dhgr, aux, tm[p], None if tx is None else tx[p], c, cst)
                if not np.array_equal(d, st - o[p]):
                    q = int(np.argwhere(d != st - o[p])[0][0])
                    raise Violation("delta", "%s %s bank %d: storing %02x at $%02x%02x is predicted to change the error by %d, really %d" % (
                        "DHGR" if dhgr else "HGR", pal, aux, c, p + 32, q, d[q], st[q] - o[p, q]))
                ctx.count("predicted_stores", 256)
                ctx.count("evaluations", 256)
                for q in r.choice(256, 24, replace=False).tolist() + [0, 1, 254, 255]:
                    bp = int(T.byte_pair_difference(T.byte_offset(q, bool(aux)), T.packed[p, q // 2], np.uint8(c)))
                    if bp != st[q]:
                        raise Violation("residual", "%s %s bank %d: storing %02x at $%02x%02x is predicted to leave error %d, really %d" % (
                            "DHGR" if dhgr else "HGR", pal, aux, c, p + 32, q, bp, st[q]))
                    ctx.count("evaluations")
                # the same by really storing into the target's copy
                q = int(r.randint(256))
                m2, x2 = tm.copy(), None if tx is None else tx.copy()
                (x2 if aux else m2)[p, q] = c
                real = int(T.diff_weights(build(m2, x2), bool(aux))[p, q])
                if real != st[q]:
                    raise Violation("performed", "after storing %02x at $%02x%02x of the target the weight is %d, expected %d" % (c, p + 32, q, real, st[q]))
                ctx.count("performed_stores")


def run(ctx):
    streams.prepare(ctx)
    ctx.pmap(lambda g: group(ctx, g), range(ctx.scale(24, 400)))
    ctx.need("nonzero_weights", 1000)
    ctx.need("performed_stores", 100)
