"""Random histories of partially shown frames, then one frame held: after each
pair of bank updates that ran to completion the screen (accumulated from the
emitted stores only) is rendered with the independent display model and its
visible dots compared with the frame's, colours with equal appearance counting
as equal; this must be reached within 8 updates per bank and be preserved by
what is emitted afterwards.  Streams ending in a long still are judged the same
way.  Distinct = distinct histories that
converged."""
import numpy as np
import core, streams, updmodel, media, oracle
from core import Violation

ROUNDS = 8
GREY = 100000     # cases from here on: look-alike greys only


class Eq:
    def __init__(self, dhgr, pal):
        self.dhgr = dhgr
        self.mask = oracle.visible_pixel_mask(dhgr)
        c = oracle.cost(pal)
        # greys look alike in NTSC: pixel values at distance 0
        self.cls = np.array([min(j for j in range(16) if c[i, j] == 0) for i in range(16)], dtype=np.uint8)

    def px(self, scr):
        return self.cls[oracle.pixels(self.dhgr, scr[0], scr[1])]

    def bad(self, scr, tpx):
        return (self.px(scr) != tpx) & self.mask


def apply(scr, bank, op):
    page, c, offs = op
    for o in offs:
        scr[bank][page - 32, int(o)] = int(c)


def full_pass(ctx, d, t, bank, scr, cap=9000):
    """Runs one update until it has nothing left to do: it repeats itself
    without changing memory, or changes nothing for long."""
    it = d.start(t, bank)
    n = quiet = same = 0
    last = None
    while n < cap:
        op = next(it)
        op = (int(op[0]), int(op[1]), tuple(map(int, op[2])))
        before = scr[bank][op[0] - 32].copy()
        apply(scr, bank, op)
        n += 1
        quiet = quiet + 1 if np.array_equal(before, scr[bank][op[0] - 32]) else 0
        same = same + 1 if quiet and op == last else 0
        last = op
        if same >= 12 or quiet >= 600:
            break
    else:
        raise Violation("endless", "an update towards a still frame still changes memory after %d opcodes" % cap)
    ctx.count("pass_opcodes", n)
    return n


def hold(ctx, i):
    rng = ctx.rng("hold", i)
    dhgr = i % 2 == 1
    pal = rng.choice(["NTSC", "NTSC", "IIGS"])
    kp = rng.choice([["grey", "palette"], ["grey", "blocks", "flat"], ["sparse", "onepage", "blocks", "blank"], ["flat", "columns"],
                     ["edges", "sparse"], ["onepage", "sparse"], ["grey", "sparse"], ["palette", "sparse", "flat"],
                     ["greypage"], ["greypage", "sparse"]])
    if i >= GREY:
        dhgr, pal, kp = True, "NTSC", ["greypage"]
    media.seed_encoder(rng)
    d = updmodel.Direct(dhgr, pal)
    eq = Eq(dhgr, pal)
    scr = [np.zeros((32, 256), np.uint8), np.zeros((32, 256), np.uint8)]
    pics = media.pictures(rng, dhgr, rng.randrange(1, 5), kp)
    if rng.random() < 0.4:
        # the held frame differs from an earlier one in greys only
        def regrey(a):
            if a is None:
                return None
            a = a.copy()
            sel = np.isin(a, [0x55, 0x2a, 0xd5, 0xaa]) & (np.random.rand(32, 256) < 0.5)
            a[sel] ^= 0x7f
            a[oracle.HOLES2] = 0
            return a
        pics.append((regrey(pics[-1][0]), regrey(pics[-1][1])))
    bank = 0
    with core.quiet():
        for main, aux in pics[:-1]:
            d.frame()
            t = d.target(main, aux)
            for _ in range(rng.randrange(1, 4)):
                it = d.start(t, bank)
                for _ in range(rng.choice([1, 10, 100, 292])):
                    apply(scr, bank, next(it))
                if dhgr:
                    bank ^= 1
        main, aux = pics[-1]
        tpx = eq.px([main, aux])
        t = d.target(main, aux)
        d.frame()
        need = None
        for rnd in range(ROUNDS):
            for _ in range(2 if dhgr else 1):
                full_pass(ctx, d, t, bank, scr)
                if dhgr:
                    bank ^= 1
            ctx.count("rounds")
            bad = eq.bad(scr, tpx)
            ctx.count("evaluations")
            if not bad.any():
                need = rnd + 1
                break
        if need is None:
            p, x = np.argwhere(bad)[0]
            raise Violation("not-converged", "after %d full updates per bank %d visible dots differ, e.g. page %d dot %d (%s %s)" % (
                ROUNDS, bad.sum(), p + 32, x - 3, "DHGR" if dhgr else "HGR", pal), kinds=kp)
        ctx.count("converged_in_%d" % need)
        # from here on nothing visible may change
        for _ in range(4):
            it = d.start(t, bank)
            for _ in range(rng.choice([1, 40, 120])):
                op = next(it)
                before = scr[bank][op[0] - 32].copy()
                apply(scr, bank, op)
                ctx.count("idle_ops")
                if not np.array_equal(before, scr[bank][op[0] - 32]):
                    ctx.count("invisible_changes")
                    if eq.bad(scr, tpx).any():
                        raise Violation("disturbed", "after the picture was complete, opcode page %d content %02x offsets %r changes it" % (
                            op[0], int(op[1]), list(map(int, op[2]))))
            ctx.count("evaluations")
            if eq.bad(scr, tpx).any():
                raise Violation("disturbed", "the complete picture did not stay")
            if dhgr:
                bank ^= 1
    rest = int((scr[0] != main).sum() + ((scr[1] != aux).sum() if dhgr else 0))
    ctx.count("bytes_differing_invisibly", rest)
    ctx.seen(dhgr, pal, tuple(kp), need, rest, d.v.frame_number, rng.random())
    return need


def mon(ctx, run):
    """Streams whose last frame stays for long."""
    eq = Eq(run.job["dhgr"], run.job["pal"])

    def f(r, e, before):
        if e[0] != "end":
            return
        t = r.target()
        bad = eq.bad(r.screen.mem, eq.px(t))
        ctx.count("still_streams")
        ctx.count("evaluations")
        if bad.any():
            p, x = np.argwhere(bad)[0]
            raise Violation("still", "the last frame was shown for %d opcodes but %d visible dots differ, e.g. page %d dot %d" % (
                r.dec.nops - r.s.fetch[-1][1], bad.sum(), p + 32, x - 3))
        ctx.seen("still", r.job["seed"])
    return f


def run(ctx):
    streams.prepare(ctx)
    ctx.pmap(lambda i: hold(ctx, i), list(range(ctx.scale(24, 400))) + [GREY + k for k in range(ctx.scale(24, 200))])
    jl = streams.jobs(ctx, ctx.scale(8, 60), 10, every_n=1, holes=False)
    for j in jl:
        # a few frames early on, then many update rounds of the last
        j.update(kinds=[["sparse", "onepage"], ["greypage"]][j["i"] // 2 % 2], av="slack", fps=(3, 1), bitrate=3000, ops=ctx.scale(6000, 15000), still_from=2)
    streams.run_jobs(ctx, jl, mon)
    ctx.need("rounds", 20)
    ctx.need("idle_ops", 500)
    ctx.need("still_streams", 4)
