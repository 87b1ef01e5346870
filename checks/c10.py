"""The workload of C09 judged for order: a reference model carries the
accumulated error of every position across updates and frames (adding the
independently recomputed visible error when an update begins, dropping it where
nothing differs, replacing it where a position received another position's
byte) and each opcode's first store must go to a largest one.  A directly
driven history with a small persistent error under constant heavy change checks
that the error is repaired.  Distinct = distinct (bank, page, first offset,
content)."""
import gc
import numpy as np
import core, streams, updmodel, media, c09, oracle
from core import Violation

KIND = {"order"}


def starvation(ctx, i):
    rng = ctx.rng("starve", i)
    dhgr = i % 2 == 1
    bank = int(i % 4 == 3)
    media.seed_encoder(rng)
    d = updmodel.Direct(dhgr, "NTSC")
    m = updmodel.UpdModel(ctx, dhgr, "NTSC", KIND)
    small = (rng.randrange(16, 32), rng.choice([3, 50, 127]))
    if oracle.HOLES2[small]:
        small = (20, 5)
    done = None
    with core.quiet():
        for k in range(120):
            main = media.picture(rng, dhgr, "noise")[0]
            main[8:, :] = 0
            main[:, 128:] = 0
            main[small] = 2
            aux = np.zeros((32, 256), np.uint8) if dhgr else None
            pic = (aux, main) if bank else (main, aux)
            d.frame()
            it = d.start(d.target(*pic), bank)
            m.begin(bank, *pic)
            for _ in range(30):
                page, content, offs = next(it)
                m.op(page, int(content), offs)
            if m.scr[bank][small] == 2:
                done = k
                break
    if done is None:
        raise Violation("starved", "a persistent error at page %d offset %d was not repaired in 120 frames" % (small[0] + 32, small[1]))
    ctx.count("starvation_frames", done)
    ctx.count("persistent_errors_repaired")


def ageing(ctx, i, kind=KIND, n=None):
    """Over a thousand interrupted updates: accumulated errors become very
    large and still decide the order."""
    rng = ctx.rng("ageing", i)
    dhgr = i % 3 > 0
    bank = int(i % 3 == 1)
    media.seed_encoder(rng)
    d = updmodel.Direct(dhgr, rng.choice(["NTSC", "IIGS"]))
    m = updmodel.UpdModel(ctx, dhgr, d.P.name, kind)
    main = np.zeros((32, 256), np.uint8)
    aux = np.zeros((32, 256), np.uint8) if dhgr else None
    n = n or ctx.scale(1150, 2600)
    with core.quiet():
        for k in range(n):
            # most of the screen stays wrong, a part of it
            # changes all the time
            if k % 50 == 0:
                gc.collect()        # arrays the collector does not see the size of
            if k % 100 == 0:
                main[:] = np.frombuffer(
                    rng.getrandbits(8 * 8192).to_bytes(8192, "little"), np.uint8).reshape(32, 256) & 0x7f
                main[1:] = 0x7f
                main[oracle.HOLES2] = 0
            main[0, rng.randrange(256)] ^= 0x7f
            main[oracle.HOLES2] = 0
            pic = (aux, main) if bank else (main, aux)
            d.frame()
            it = d.start(d.target(*pic), bank)
            m.begin(bank, *[None if x is None else x.copy() for x in pic])
            for _ in range(15 if k % 200 == 7 or k > n - 10 else 1):
                page, content, offs = next(it)
                m.op(page, int(content), offs)
    ctx.count("ageing_updates", n)
    ctx.count("positions_with_error_over_a_million", int(np.count_nonzero(m.A[bank] > 1 << 20)))


def twins(ctx, i, kind=KIND):
    """Pages full of bytes that look almost alike, so that many positions are
    left with the smallest errors by another's byte, drawn until nothing is left."""
    rng = ctx.rng("twins", i)
    dhgr = i % 3 > 0
    bank = int(i % 3 == 1)
    media.seed_encoder(rng)
    d = updmodel.Direct(dhgr, rng.choice(["NTSC", "IIGS"]))
    m = updmodel.UpdModel(ctx, dhgr, d.P.name, kind)
    top = 128 if dhgr else 256
    with core.quiet():
        for k in range(ctx.scale(2, 6)):
            pic = [np.zeros((32, 256), np.uint8), np.zeros((32, 256), np.uint8)]
            for p in rng.sample(range(32), 2):
                fam = set()
                for _ in range(rng.choice((1, 2, 4))):
                    b = rng.randrange(1, top)
                    fam.add(b)
                    for _ in range(4):
                        j = rng.randrange(6)
                        x = b >> j & 3
                        fam.add((b & ~(3 << j) | (x >> 1 | (x & 1) << 1) << j) if rng.random() < 0.7 else b ^ 1 << j)
                fam = sorted(fam)
                for o in range(256):
                    pic[bank][p, o] = rng.choice(fam) if rng.random() < 0.9 else 0
                if dhgr and rng.random() < 0.5:
                    # neighbours in the other bank, already on screen
                    pic[1 - bank][p] = rng.choice((0x2a, 0x55, 0x7f, 0x33))
            for x in pic:
                x[oracle.HOLES2] = 0
            if not dhgr:
                pic[1] = None
            for b in ((1 - bank, bank) if dhgr else (0,)):
                d.frame()
                it = d.start(d.target(*pic), b)
                m.begin(b, *pic)
                n = 0
                while m.A[b].any() and n < 4000:
                    page, content, offs = next(it)
                    m.op(page, int(content), offs)
                    n += 1
                if m.A[b].any():
                    raise Violation("endless", "an update still has pending positions after %d opcodes" % n)
                for _ in range(4):
                    page, content, offs = next(it)
                    m.op(page, int(content), offs)
                ctx.count("completed_updates")
                ctx.count("completed_ops", n)


def run(ctx):
    c09.run_both(ctx, KIND)
    ctx.pmap(lambda a: a[0](ctx, a[1]), [(ageing, i) for i in range(ctx.scale(3, 9))] +
             [(twins, i) for i in range(ctx.scale(9, 90))] +
             [(starvation, i) for i in range(ctx.scale(8, 32))])
    ctx.need("positions_with_error_over_a_million", 3)
    ctx.need("completed_updates", 12)
    ctx.need("small_residuals", 50)
    ctx.need("persistent_errors_repaired", 4)
