"""Reference model of one bank update, driven by what the encoder really
emits: it recomputes visible errors from raw screen memory with the independent
display model and judges each opcode against them."""
import numpy as np
import oracle
from core import Violation


class UpdModel:
    def __init__(self, ctx, dhgr, pal, kinds):
        self.ctx, self.dhgr, self.kinds = ctx, dhgr, kinds
        self.cost = oracle.cost(pal)
        self.scr = [np.zeros((32, 256), np.uint8), np.zeros((32, 256), np.uint8)]
        self.A = [np.zeros((32, 256), np.int64), np.zeros((32, 256), np.int64)]
        self.bank = None
        self.passes = 0
        self.idle = 0

    def bad(self, kind, key, msg, **d):
        if kind in self.kinds:
            raise Violation(key, msg, **d)

    def begin(self, bank, main, aux):
        """An update of `bank` towards the frame (main, aux) starts."""
        self.bank = bank = int(bank)
        self.t = [main, aux]
        W = oracle.diff(self.dhgr, bank, self.scr[0], self.scr[1], main, aux if self.dhgr else None, self.cost).astype(np.int64)
        W[oracle.HOLES2] = 0
        A = self.A[bank]
        carried = int(np.count_nonzero((A > 0) & (W > 0)))
        dropped = int(np.count_nonzero((A > 0) & (W == 0)))
        A[W == 0] = 0
        A += W
        self.W = W
        self.key0 = A.copy()       # error when the update began
        self.ctx.count("updates")
        self.ctx.count("carried_positions", carried)
        self.ctx.count("dropped_positions", dropped)
        self.ctx.count("nonempty_updates", bool(A.any()))
        self.passes += 1
        self.n = 0

    def op(self, page, content, offs):
        b, A, W, p, c = self.bank, self.A[self.bank], self.W, page - 32, int(content)
        offs = [int(o) for o in offs]
        tb = self.t[b]
        at = "opcode %d of update %d (bank %d): " % (self.n, self.passes, b)
        self.n += 1
        self.ctx.count("evaluations")
        if not A.any():
            self.idle += 1
            self.ctx.count("idle_ops")
            for o in offs:
                if self.scr[b][p, o] != c:
                    self.bad("idle", "idle-change", at + "nothing is pending but $%02x%02x changes from %02x to %02x" % (
                        page, o, self.scr[b][p, o], c))
                self.scr[b][p, o] = c
            return
        o0 = offs[0]
        x = dict(page=page, content=c, offsets=offs)
        if A[p, o0] <= 0:
            why = "no visible difference there when the update began" if W[p, o0] == 0 and self.key0[p, o0] == 0 else "already repaired in this update"
            self.bad("select", "primary", at + "first store goes to $%02x%02x: %s (%d positions are pending)" % (
                page, o0, why, np.count_nonzero(A)), **x)
            self.bad("order", "primary", at + "first store goes to $%02x%02x, which is not pending (%d positions are)" % (
                page, o0, np.count_nonzero(A)), **x)
        elif int(tb[p, o0]) != c:
            self.bad("select", "primary-content", at + "stores %02x at $%02x%02x, frame has %02x" % (c, page, o0, tb[p, o0]), **x)
        else:
            # key of a position: what it had when the update began, or the
            # error another position's byte left there
            pend = A > 0
            k1 = np.where(pend, np.maximum(self.key0, A), -1)
            k2 = np.where(pend, A, -1)
            if k1[p, o0] != k1.max() and k2[p, o0] != k2.max():
                q = np.unravel_index(np.argmax(k1), k1.shape)
                self.bad("order", "order", at + "repairs $%02x%02x with accumulated error %d while $%02x%02x has %d" % (
                    page, o0, k1[p, o0], q[0] + 32, q[1], k1.max()), **x)
            self.ctx.count("ordered_ops")
            self.ctx.count("priority_ties", np.count_nonzero(k1 == k1.max()) > 1)
            self.ctx.seen(b, p, o0, c)
        A[p, o0] = 0
        W[p, o0] = 0
        self.scr[b][p, o0] = c
        # secondary stores
        delta = oracle.store_page(self.dhgr, b, self.t[0][p], self.t[1][p] if self.dhgr else None, c, self.cost).astype(np.int64) - W[p]
        ok = (delta < 0) & (A[p] > 0) & ~oracle.HOLES2[p]
        ok[o0] = False
        distinct = []
        for o in offs[1:]:
            if o != o0 and o not in distinct:
                distinct.append(o)
        for o in distinct:
            if not ok[o]:
                self.bad("select", "secondary", at + "also stores %02x at $%02x%02x: error there was %d when the update began and becomes %d%s" % (
                    c, page, o, W[p, o], delta[o] + W[p, o], "" if A[p, o] > 0 else " (position is not pending)"), **x)
        n = int(np.count_nonzero(ok))
        if len(distinct) < min(3, n):
            self.bad("select", "unused-slot", at + "only %d further positions although %d would improve" % (len(distinct), n), **x)
        if distinct and n > len(distinct):
            best = np.sort(delta[ok])[:len(distinct)]
            got = np.sort(delta[distinct])
            if (got > best).any():
                self.bad("select", "not-best", at + "further positions improve by %r, available were %r" % ((-got).tolist(), (-best).tolist()), **x)
            self.ctx.count("chosen_among_more")
        # padding must be the first position
        tail = offs[1 + len(distinct):]
        if any(o != o0 for o in tail) or len(set(offs[1:1 + len(distinct)])) != len(distinct):
            self.bad("select", "padding", at + "offsets %r" % (offs,), **x)
        self.ctx.count("secondary_stores", len(distinct))
        for o in distinct:
            self.scr[b][p, o] = c
            r = oracle.store_one(self.dhgr, b, self.t[0][p], self.t[1][p] if self.dhgr else None, o, c, self.cost)
            A[p, o] = r
            self.key0[p, o] = max(self.key0[p, o], r)
            self.ctx.count("residuals", r > 0)
            self.ctx.count("small_residuals", 0 < r < 130)


class Direct:
    """A Video driven directly with an arbitrary schedule of frames and banks."""

    def __init__(self, dhgr, pal, fps=30.):
        import video, video_mode, palette, screen
        self.dhgr = dhgr
        self.scrmod = screen
        self.P = palette.Palette[pal]

        class G:
            input_frame_rate = fps
        self.v = video.Video(G(), ticks_per_second=14700., mode=video_mode.VideoMode.DHGR if dhgr else video_mode.VideoMode.HGR,
                             palette=self.P)

    def target(self, main, aux):
        s = self.scrmod
        mm = s.MemoryMap(1, np.array(main))
        if self.dhgr:
            return s.DHGRBitmap(main_memory=mm, aux_memory=s.MemoryMap(1, np.array(aux)), palette=self.P)
        return s.HGRBitmap(main_memory=mm, palette=self.P)

    def frame(self):
        self.v.out_of_work = {True: False, False: False}

    def start(self, target, bank):
        return iter(self.v.encode_frame(target, is_aux=bool(bank)))


def stream_monitor(ctx, run, kinds):
    """Monitor for streams.run_jobs: follows the encoder's update calls."""
    m = UpdModel(ctx, run.job["dhgr"], run.job["pal"], kinds)
    st = dict(ne=0)

    def f(r, e, before):
        if e[0] != "op":
            return
        if len(r.s.encodes) != st["ne"]:
            # only the last call of a sample is ever run
            st["ne"] = len(r.s.encodes)
            bank = int(r.s.encodes[-1][1])
            t = r.target()
            m.begin(bank, t[0], t[1])
        if e[6] != m.bank:
            raise Violation("bank", "opcode %d plays in bank %d, update is for bank %d" % (e[1], e[6], m.bank))
        m.op(e[3], e[4], e[5])
    return f


def direct_run(ctx, rng, dhgr, pal, kinds_pics, nframes, ops_per_frame, kinds, mutate=None):
    """A random history: each frame is shown for a random time with bank flips
    at random moments."""
    import core, media
    media.seed_encoder(rng)
    d = Direct(dhgr, pal)
    m = UpdModel(ctx, dhgr, pal, kinds)
    pics = media.pictures(rng, dhgr, nframes, kinds_pics)
    if mutate:
        mutate(pics)
    bank = 0
    shots = []

    def back():
        """A frame that is what the screen shows, or showed, in one or both
        banks, entirely or but for a few bytes."""
        main, aux = [x.copy() for x in (shots[-1] if rng.random() < 0.6 else rng.choice(shots))]
        x = rng.random()
        if x < 0.3:
            a = main if rng.random() < 0.5 or not dhgr else aux
            for _ in range(rng.choice((1, 1, 2, 20))):
                a[rng.randrange(32), rng.randrange(120)] = rng.randrange(128)
            a[oracle.HOLES2] = 0
        elif x < 0.45 and dhgr:
            k = rng.randrange(2)
            main, aux = (main, pics[0][1]) if k else (pics[0][0], aux)
        ctx.count("frames_like_the_screen")
        return main, aux if dhgr else None

    todo = list(pics)[::-1]
    with core.quiet():
        while todo:
            if shots and rng.random() < 0.3:
                main, aux = back()
            else:
                main, aux = todo.pop()
            d.frame()
            left = rng.randrange(1, 2 * ops_per_frame)
            t = d.target(main, aux)
            while left > 0:
                it = d.start(t, bank)
                m.begin(bank, main, aux)
                burst = min(left, rng.choice([1, 3, 20, 292, 292]))
                for _ in range(burst):
                    page, content, offs = next(it)
                    m.op(page, int(content), offs)
                left -= burst
                if dhgr and rng.random() < 0.8:
                    bank ^= 1
                elif not dhgr and rng.random() < 0.5:
                    break
            shots.append([x.copy() for x in m.scr])
    return d, m
