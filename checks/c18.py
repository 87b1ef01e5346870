"""Evaluations: opcode objects of every class with random operands encoded in
random interleavings (each several times, through the classes' own methods)
and compared with the bytes the player expects; decoded back and compared for
equality; and all pairs of a pool of opcodes compared for equality.
Distinct = distinct opcode classes and operand shapes."""
import core, decode, vm
from core import Violation


def parts(o):
    """The opcode's own two generators (None stands for no bytes)."""
    return [x if x is not None else () for x in (o.emit_command(o), o.emit_data())]


def run(ctx):
    core.setup_transcoder(ctx.scratch)
    pl = vm.player(ctx)
    with core.quiet():
        import opcodes as op, video_mode, machine
    if pl.missing():
        raise core.Inconclusive("player lacks entry points")
    ks = [("tick", t, p) for t in range(4, 68, 2) for p in range(32, 64)]
    modes = {0: video_mode.VideoMode.HGR, 1: video_mode.VideoMode.DHGR}

    def make(k, ops):
        """An opcode object; k names the kind, ops its operands."""
        if k[0] == "tick":
            return op.TICK_OPCODES[k[1:]](ops[0], tuple(ops[1]))
        if k[0] == "ack":
            return op.Ack(ops[0])
        if k[0] == "header":
            return op.Header(modes[ops[0]])
        return op.Terminate() if k[0] == "terminate" else op.Nop()

    def operands(rng, k):
        if k[0] == "tick":
            v = lambda: rng.choice((0, 255, 1, rng.randrange(256), rng.randrange(256)))
            return (v(), (v(), v(), v(), v()))
        if k[0] == "ack":
            return (rng.random() < 0.5,)
        return (rng.randrange(2),) if k[0] == "header" else ()

    def want(k, ops):
        if k[0] == "header":
            return [255] * 6 + [ops[0]]
        a = pl.byname[k]
        b = [a >> 8, a & 255]
        if k[0] == "tick":
            b += [ops[0]] + list(ops[1])
        elif k[0] == "ack":
            b += [0x55 if ops[0] else 0x54, 0xff]
        return b

    def undo(b):
        """Operands back from bytes, without the repository."""
        if len(b) == 7 and b[:6] == [255] * 6:
            return ("header",), (b[6],)
        k = pl.entries.get(b[0] << 8 | b[1])
        if k is None:
            return None, None
        if k[0] == "tick":
            return k, (b[2], tuple(b[3:7]))
        return k, ((b[2] == 0x55,) if k[0] == "ack" else ())

    def job(i):
        rng = ctx.rng(i)
        other = [("ack",), ("header",), ("terminate",), ("nop",)]
        pool = []
        emitter = machine.Machine()
        kinds = list(ks)
        rng.shuffle(kinds)
        for k in kinds + other * 30:
            o = operands(rng, k)
            pool.append((k, o, make(k, o)))
        rng.shuffle(pool)
        # interleaved generators as well as one at a time, twice
        for rnd in range(2):
            order = list(range(len(pool)))
            rng.shuffle(order)
            for n in range(0, len(order), 3):
                tri = [pool[x] for x in order[n:n + 3]]
                how = rng.random()
                if how < 0.4:           # as the stream writer does it
                    res = [list(emitter.emit(t[2])) for t in tri]
                elif how < 0.7:
                    res = [[b for p in parts(t[2]) for b in p] for t in tri]
                else:                   # several encodings in progress at once
                    its = [parts(t[2]) for t in tri]
                    res = [[] for _ in tri]
                    for part in (0, 1):
                        live = [(j, iter(it[part])) for j, it in enumerate(its)]
                        while live:
                            live2 = []
                            for j, g in live:
                                try:
                                    res[j].append(next(g))
                                    live2.append((j, g))
                                except StopIteration:
                                    pass
                            live = live2
                for (k, o, obj), b in zip(tri, res):
                    b = list(map(int, b))
                    if b != want(k, o):
                        raise Violation("bytes", "%r %r encodes to %r, should be %r" % (k, o, b, want(k, o)))
                    k2, o2 = undo(b)
                    if k2 != k or o2 != o:
                        raise Violation("decode", "%r %r decodes to %r %r" % (k, o, k2, o2))
                    if not (make(k2, o2) == obj) or make(k2, o2) != obj:
                        raise Violation("roundtrip", "%r %r differs from its decoded copy" % (k, o))
                    ctx.count("encoded")
                    ctx.seen(k)
        # equality
        sub = rng.sample(pool, 160)
        for k, o, obj in list(sub):
            # near misses: one operand changed, same operands in another class
            if k[0] == "tick":
                for j in range(5):
                    c, f = o[0], list(o[1])
                    if j == 0:
                        c = (c + rng.randrange(1, 256)) % 256
                    else:
                        f[j - 1] = (f[j - 1] + rng.randrange(1, 256)) % 256
                    x = (c, tuple(f))
                    sub.append((k, x, make(k, x)))
                f = list(o[1])
                rng.shuffle(f)
                sub.append((k, (o[0], tuple(f)), make(k, (o[0], tuple(f)))))
                k2 = ("tick", rng.choice(range(4, 68, 2)), k[2])
                sub.append((k2, o, make(k2, o)))
                k2 = ("tick", k[1], rng.randrange(32, 64))
                sub.append((k2, o, make(k2, o)))
            elif k[0] in ("ack", "header"):
                x = (not o[0],) if k[0] == "ack" else (1 - o[0],)
                sub.append((k, x, make(k, x)))
        for a in range(len(sub)):
            for b in (range(len(sub)) if a < 40 else rng.sample(range(len(sub)), 60) + [a] + list(range(max(0, a - 9), min(len(sub), a + 9)))):
                ka, oa, x = sub[a]
                kb, ob, y = sub[b]
                e = ka == kb and oa == ob
                if (x == y) is not e or (x != y) is not (not e):
                    raise Violation("equality", "%r %r == %r %r gives %r" % (ka, oa, kb, ob, x == y))
                ctx.count("compared")
                ctx.count("compared_equal", e)
        for x in (None, 3, "ack", (1, 2)):
            if sub[0][2] == x:
                raise Violation("equality", "an opcode equals %r" % (x,))
        for n in list(range(0, 4)) + list(range(5, 9)):
            for k in rng.sample(ks, 12):
                try:
                    op.TICK_OPCODES[k[1:]](rng.randrange(256), tuple(rng.randrange(256) for _ in range(n)))
                except Exception:
                    ctx.count("refused")
                    ctx.seen("refused", n)
                else:
                    raise Violation("offsets", "%r accepts %d offsets" % (k, n))

    ctx.pmap(job, range(ctx.scale(16, 240)))
    ctx.need("encoded", 10000)
    ctx.need("compared_equal", 100)
    ctx.need("refused", 50)
