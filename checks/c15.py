"""The table on disk is loaded through the repository's own loader and compared
entry by entry with distances computed by an independent implementation from
the context's pixel strings; the real generator is run on random samples of
contexts for every mode and palette, saved, loaded through the real loader
(same code, reduced number of contexts) and compared likewise; at full width
its loops are let through for a sample of contexts only.  Distances
between short strings are confirmed by exhaustive search over edit sequences.
Distinct = distinct (mode, palette, column position, distance)."""
import os
import numpy as np
import core, oracle
from core import Violation


def brute(a, b, cost, limit=None):
    """Cheapest way to turn a into b by substitutions and swaps of neighbours,
    each position taking part in one operation (optimal string alignment)."""
    n = len(a)
    best = [None] * (n + 1)
    best[0] = 0
    for i in range(n):
        c = best[i] + int(cost[a[i], b[i]])
        best[i + 1] = c if best[i + 1] is None else min(best[i + 1], c)
        if i + 1 < n and a[i] == b[i + 1] and a[i + 1] == b[i]:
            best[i + 2] = best[i] + 1
    return best[n]


def unrestricted(a, b, cost, maxcost):
    """Dijkstra over all strings reachable by substitutions and swaps."""
    import heapq
    a, b = tuple(a), tuple(b)
    dist = {a: 0}
    h = [(0, a)]
    while h:
        d, s = heapq.heappop(h)
        if s == b:
            return d
        if d > dist[s] or d > maxcost:
            continue
        nb = []
        for i in range(len(s)):
            for v in set(b) | set(a):
                if v != s[i]:
                    nb.append((int(cost[s[i], v]), s[:i] + (v,) + s[i + 1:]))
            if i + 1 < len(s) and s[i] != s[i + 1]:
                nb.append((1, s[:i] + (s[i + 1], s[i]) + s[i + 2:]))
        for c, t in nb:
            if d + c < dist.get(t, 1 << 30):
                dist[t] = d + c
                heapq.heappush(h, (d + c, t))
    return None


def modes():
    import screen, colours
    return (("HGR", screen.HGRBitmap, colours.HGRColours), ("DHGR", screen.DHGRBitmap, colours.DHGRColours))


def generated(ctx, a):
    """Real generator and loader on a sample of contexts: every mode and palette
    is generated, then all are loaded, in one process and in random orders."""
    import make_data_tables as mdt, palette, screen
    part, bits = a
    d = os.path.join(ctx.newdir("gen"), "w")
    os.makedirs(os.path.join(d, "transcoder", "data"))
    os.chdir(d)
    rng = ctx.rng("gen", part)
    n = 2 ** bits
    made = {}
    for mode, base, nom in modes():
        nv = 2 ** int(base.MASKED_BITS)
        if part % 2 == 0:
            pick = rng.sample(range(nv), n)
        else:
            # contexts that resemble each other: small edits of a few
            pick = set()
            while len(pick) < n:
                c = rng.randrange(nv)
                for _ in range(12):
                    pick.add((c ^ (1 << rng.randrange(14)) ^ (3 << rng.randrange(13)) * rng.randrange(2)) % nv)
            pick = rng.sample(sorted(pick), n)
        # index 0 must stay the context 0 only in so far as lookups go by index
        cls = type("Sample" + mode, (base,), {
            "MASKED_BITS": np.uint64(bits), "NAME": mode,
            "to_dots": classmethod(lambda c, v, byte_offset, base=base, pick=pick: base.to_dots(pick[v], byte_offset=byte_offset))})
        made[mode] = (base, nom, cls, pick)
    todo = [(m, p) for m in made for p in ("NTSC", "IIGS")]
    rng.shuffle(todo)
    for mode, pal in todo:
        base, nom, cls, pick = made[mode]
        P = palette.PALETTES[palette.Palette[pal]]
        with core.quiet():
            mdt.make_edit_distance(P, mdt.compute_substitute_costs(P), cls, nom)
    for rnd in range(2):
        rng.shuffle(todo)
        for mode, pal in todo:
            base, nom, cls, pick = made[mode]
            with core.quiet():
                t = cls.edit_distances(palette.Palette[pal])
            loaded(ctx, rng, mode, pal, base, nom, pick, t)


def loaded(ctx, rng, mode, pal, base, nom, pick, t):
    import palette
    n = len(pick)
    raw = np.load("transcoder/data/%s_palette_%d_edit_distance.npz" % (mode, palette.Palette[pal].value))["edit_distance"]
    cst = oracle.cost(pal)
    if t.shape != (len(base.PHASES), n * n):
        raise Violation("shape", "table has shape %r" % (t.shape,))
    for o in range(len(base.PHASES)):
        px = oracle.u8([pixels(base, nom, pick[v], o) for v in range(n)])
        want = oracle.string_table(px, px.shape[1], cst).astype(np.int64)
        got = t[o].reshape(n, n).astype(np.int64)
        # context numbers with the same pixels have distance 0 both ways
        bad = np.argwhere(got != want)
        if len(bad):
            i, j = bad[0]
            raise Violation("generated", "%s %s column %d: distance of contexts %d and %d is %d, minimum cost %d" % (
                mode, pal, o, pick[i], pick[j], got[i, j], want[i, j]), a=px[i], b=px[j])
        if not np.array_equal(got, got.T) or got.diagonal().any():
            raise Violation("symmetry", "%s %s column %d is not symmetric with zero diagonal" % (mode, pal, o))
        half = raw[o].reshape(n, n).astype(np.int64)
        if not np.array_equal(half + half.T, want):
            raise Violation("generated-file", "%s %s column %d: saved file does not hold each pair once" % (mode, pal, o))
        ctx.count("evaluations", n * n)
        ctx.count("generated_entries", n * n)
        for v in np.unique(want).tolist():
            ctx.seen(mode, pal, o, v)
        # confirm the string distance itself on some pairs
        for _ in range(60):
            i, j = rng.randrange(n), rng.randrange(n)
            b = brute(px[i], px[j], cst)
            if b != want[i, j]:
                raise core.Inconclusive("oracle distance disagrees with its definition")
            ctx.count("confirmed_by_definition")


def pixels(cls, nom, v, o):
    """Independent colours of a context: checked against the display by C13."""
    import colours
    f = colours.dots_to_nominal_colour_pixel_values
    f = getattr(f, "__wrapped__", f)
    return list(f(int(cls.MASKED_DOTS), cls.to_dots(v, byte_offset=o), nom, init_phase=cls.PHASES[o]))


def on_disk(ctx, a):
    import screen, palette, glob
    mode, pal = a
    base, nom = next((c, n) for m, c, n in modes() if m == mode)
    fn = "transcoder/data/%s_palette_%d_edit_distance.npz" % (mode, palette.Palette[pal].value)
    if not os.path.exists(fn):
        ctx.count("tables_not_on_disk")
        return
    with core.quiet():
        t = base.edit_distances(palette.Palette[pal])
    nv = 2 ** int(base.MASKED_BITS)
    cst = oracle.cost(pal)
    if t.shape != (len(base.PHASES), nv * nv):
        raise Violation("shape", "table on disk has shape %r" % (t.shape,))
    for o in range(len(base.PHASES)):
        px = oracle.u8([pixels(base, nom, v, o) for v in range(nv)])
        want = oracle.string_table(px, px.shape[1], cst)
        got = t[o].reshape(nv, nv)
        if not np.array_equal(got, want):
            i, j = np.argwhere(got != want)[0]
            raise Violation("disk", "%s %s column %d: loaded distance of contexts %d and %d is %d, minimum cost %d" % (
                mode, pal, o, i, j, got[i, j], want[i, j]))
        ctx.count("evaluations", nv * nv)
        ctx.count("disk_entries", nv * nv)
        for v in np.unique(want[::97]).tolist():
            ctx.seen("disk", mode, pal, o, v)


def full_width(ctx, a):
    """The generator with the real number of contexts, its loops let through
    only for the contexts of a sample: pairs far apart, first and last contexts."""
    import make_data_tables as mdt, palette, builtins, signal
    mode, pal, load = a
    base, nom = next((c, n) for m, c, n in modes() if m == mode)
    bits = int(base.MASKED_BITS)
    nv = 2 ** bits
    rng = ctx.rng("full", mode, pal)
    pick = sorted(set(rng.sample(range(nv), ctx.scale(70, 200)) + [0, 1, 2, 127, 128, 255, 256, nv // 2 - 1, nv // 2, nv - 2, nv - 1]))

    def some(*b):
        r = builtins.range(*map(int, b))
        return [v for v in pick if v in r] if len(r) > 64 else r

    class Slow(Exception):
        pass

    def stop(*_):
        raise Slow
    P = palette.PALETTES[palette.Palette[pal]]
    mdt.range = some
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(90)
    try:
        with core.quiet():
            t = mdt.compute_edit_distance(mdt.compute_substitute_costs(P), base, nom)
    except Slow:
        # does not go by range(): nothing to say
        ctx.count("full_width_given_up")
        return
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        del mdt.range
    cst = oracle.cost(pal)
    if load:
        real = np.load
        np.load = lambda *b, **k: {"edit_distance": t}
        try:
            with core.quiet():
                t = base.edit_distances(palette.Palette[pal])
        finally:
            np.load = real
    for o in range(len(base.PHASES)):
        px = [pixels(base, nom, v, o) for v in pick]
        for x, i in enumerate(pick):
            for y in range(x + 1):
                j = pick[y]
                want = brute(px[x], px[y], cst)
                e, f = int(t[o, (i << bits) + j]), int(t[o, (j << bits) + i])
                if (e, f) != (want, want) if load else e + (f if i != j else 0) != want:
                    raise Violation("full-width", "%s %s column %d: distance of contexts %d and %d is %d and %d, minimum cost %d" % (
                        mode, pal, o, i, j, e, f, want), a=px[x], b=px[y])
                ctx.count("evaluations")
                ctx.count("full_width_pairs")


def definition(ctx):
    """The alignment distance equals the true minimum over edit sequences."""
    rng = ctx.rng("def")
    n = worse = 0
    for pal in ("NTSC", "IIGS"):
        cst = oracle.cost(pal)
        for _ in range(ctx.scale(60, 400)):
            k = rng.randrange(2, 6)
            vals = rng.sample(range(16), 3)
            a = [rng.choice(vals) for _ in range(k)]
            b = a[:]
            for _ in range(rng.randrange(1, 3)):
                i = rng.randrange(k - 1)
                b[i], b[i + 1] = b[i + 1], b[i]
            if rng.random() < 0.4:
                b[rng.randrange(k)] = rng.choice(vals)
            x = brute(a, b, cst)
            n += 1
            if unrestricted(a, b, cst, x + 1) != x:
                worse += 1
    ctx.count("alignment_vs_search", n)
    ctx.count("search_cheaper_with_overlapping_swaps", worse)


def run(ctx):
    core.setup_transcoder(ctx.scratch)
    oracle.lib()
    import make_data_tables
    definition(ctx)
    jobs = []
    for part in range(ctx.scale(4, 12)):
        jobs.append((part, ctx.scale(8, 9)))
    here = os.getcwd()
    ctx.pmap(lambda a: generated(ctx, a), jobs)
    os.chdir(here)
    ctx.pmap(lambda a: full_width(ctx, a), [(m, p, False) for m in ("HGR", "DHGR") for p in ("NTSC", "IIGS")])
    if ctx.scale(0, 1):
        ctx.pmap(lambda a: full_width(ctx, a), [("HGR", "IIGS", True), ("DHGR", "IIGS", True)], procs=1)
    ctx.pmap(lambda a: on_disk(ctx, a), [(m, p) for m in ("HGR", "DHGR") for p in ("NTSC", "IIGS")], procs=2)
    ctx.need("generated_entries", 10000)
