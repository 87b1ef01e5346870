"""Evaluations: stores of the assembled player observed on the 6502 machine
while it plays streams of every opcode, each attributed to the opcode that was
executing and compared with that opcode's content, offsets, page and bank; and
both screens after each stream compared with an independent decoder's.
Distinct = distinct (opcode, bank)."""
import numpy as np
import core, vm
from core import Violation

NET = {0x428, 0x429, 0x401}


def watch(sc, pl, log, clean, names):
    """Replays the event log against the script."""
    kind, addr, val, pos = (log[f].tolist() for f in ("kind", "addr", "val", "pos"))
    n = len(kind)
    # start at the first opcode
    units = []
    ai = 0
    acks = sc.acks
    for i, (op, st) in enumerate(zip(sc.ops, sc.start)):
        while ai < len(acks) and acks[ai][0] < st:
            units.append(("ack", acks[ai]))
            ai += 1
        units.append(("op", i))
    for a in acks[ai:]:
        units.append(("ack", a))
    e = pl.byname
    k = 0
    while k < n and kind[k] != vm.PC:
        k += 1
    bank = 0
    checked = 0
    for u in units:
        if k >= n or kind[k] != vm.PC:
            raise Violation("lost", "player stopped following the stream at %r" % (u,))
        if u[0] == "op":
            op = sc.ops[u[1]]
            want = e[("tick", op[0], op[1])]
        else:
            want = e[("ack",)]
        if addr[k] != want:
            raise Violation("dispatch", "player executes %04x (%s) instead of %04x at stream byte %d" % (
                addr[k], pl.entries.get(addr[k]), want, pos[k]))
        if val[k] != 0 and u[0] == "op":
            raise Violation("x", "opcode at stream byte %d is entered with X=%d" % (pos[k], val[k]))
        k += 1
        scr, b2 = [], set()
        while k < n and kind[k] != vm.PC:
            a, v = addr[k], val[k]
            if kind[k] == vm.STORE:
                if 0x2000 <= a < 0x4000:
                    scr.append((a, v))
                    b2.add(pos[k])
                elif a < 0x100 or a >= 0xc100:
                    pass                    # scratch, or ROM (no effect)
                elif clean[a - 1] == 0x4c or clean[a - 2] == 0x4c:
                    pass                    # operand of a JMP
                elif u[0] == "ack" and (clean[a - 1] in (0x8d, 0x2c, 0xad)) and clean[a + 1] == 0xc0:
                    pass                    # the ACK's own soft switch operand
                else:
                    raise Violation("stray", "%s stores %02x at %04x" % (names(u), v, a))
            elif kind[k] == vm.SS:
                if u[0] == "op":
                    raise Violation("switch", "%s touches soft switch %04x" % (names(u), a))
                if a not in (0xc054 + u[1][1], 0xc010):
                    raise Violation("switch", "ACK for %04x touches soft switch %04x" % (0xc054 + u[1][1], a))
                if a != 0xc010:
                    bank = u[1][1]
            elif kind[k] == vm.WREG_W:
                if u[0] == "op" or a not in NET:
                    raise Violation("net", "%s writes %02x to network register %04x" % (names(u), v, a))
            k += 1
        if u[0] == "ack":
            if scr:
                raise Violation("ack-store", "ACK stores to the screen: %r" % (scr[:4],))
            if bank != u[1][1]:
                raise Violation("ack-switch", "ACK does not touch soft switch %04x" % (0xc054 + u[1][1]))
        else:
            want = {(op[1] << 8 | o, op[2]) for o in op[3]}
            if set(scr) != want:
                raise Violation("store", "%s stores %s, expected %s" % (names(u), ["%04x=%02x" % s for s in scr], sorted("%04x=%02x" % s for s in want)))
            eb = bank if sc.mode else 0
            if b2 - {eb}:
                raise Violation("bank", "%s stores in bank %r, selected is %d" % (names(u), b2, eb))
            checked += 1
    return checked


def run(ctx):
    core.setup_transcoder(ctx.scratch)
    pl = vm.player(ctx)
    if pl.missing():
        raise Violation("label", "the assembled player lacks %r" % (pl.missing()[:5],))

    def job(i):
        rng = ctx.rng(i)
        mode = i % 2
        n = ctx.scale(rng.choice((2500, 5000)), 12000)
        if i % 5 == 4:
            ops = vm.random_ops(rng, n, rng.sample(range(4, 68, 2), 3))
        else:
            ops = vm.random_ops(rng, n)
        if rng.random() < 0.2:
            ops = ops[:rng.choice((0, 1, 291, 292, 583))]
        pat = rng.choice(["flip", "random", "aux", "main"]) if mode else "main"
        f = {"flip": lambda i: (i + 1) % 2, "random": lambda i: rng.randrange(2), "aux": lambda i: 1, "main": lambda i: 0}[pat]
        sc = vm.Script(pl, mode, ops, acks=f)
        sched, keys = None, []
        if rng.random() < 0.4:
            _, sched = vm.random_schedule(rng, len(sc.data))
        m = vm.VM(pl, rng.getrandbits(30), 1 << 21, ())
        m.net(sc.data, sched)
        budget = vm.cycle_budget(len(sc.data), sched)if sched else 10 ** 8
        if rng.random() < 0.4:
            keys = [(300000 + rng.randrange(500000), 0x20)]
            keys.append((keys[0][0] + rng.randrange(60000, 400000), 0x8d))
        ended, budget = vm.closing(keys, budget, len(sc.data))
        m.keys(ended)
        with ctx.guard(mode=mode, acks=pat, ops=len(ops)):
            # up to the end of start-up
            for a in pl.entries:
                if pl.entries[a][0] in ("tick", "ack", "terminate"):
                    m.watch(a)
                    m.stop(a)
            h = m.run(budget)
            if h != vm.STOP:
                raise Violation("run", "player does not reach the first opcode: %s" % m.state())
            for b in (0, 1) if mode else (0,):
                if m.screen(b).any():
                    raise Violation("clear", "screen bank %d is not clear at the start" % b)
            clean = m.ram().copy()
            aux0 = m.ram(True).copy()
            for a in pl.entries:
                m.stop(a, False)
            m.stop(pl.byname[("terminate",)])
            m.mask(vm.STORE, vm.SS, vm.WREG_W, vm.PC, vm.ANOM)
            if m.get(vm.PCREG) != pl.byname[("terminate",)]:
                h = m.run(budget)
            log = m.log()
            if h != vm.STOP:
                raise Violation("run", "player does not reach TERMINATE: %s" % m.state())
            m.check_anomalies()
            names = lambda u: ("tick %d page %d at stream byte %d" % (sc.ops[u[1]][0], sc.ops[u[1]][1], sc.start[u[1]])) if u[0] == "op" else "ACK at stream byte %d" % u[1][0]
            c = watch(sc, pl, log, clean, names)
            ctx.count("opcodes_watched", c)
            ctx.count("acks_watched", len(sc.acks))
            want = sc.screens()
            for b in (0, 1):
                got = m.screen(b)
                if mode or b == 0:
                    if (got != want[b]).any():
                        p, o = np.argwhere(got != want[b])[0]
                        raise Violation("screen", "bank %d byte %04x is %02x at the end, decoder has %02x" % (b, 0x2000 + p * 256 + o, got[p, o], want[b][p, o]))
                elif (m.ram(True) != aux0).any():
                    raise Violation("aux", "HGR playback changes auxiliary memory")
            # nothing outside the screen, zero page, stack and operands changed
            now = m.ram()
            for a in np.flatnonzero(now != clean).tolist():
                if a >= 0x200 and not 0x2000 <= a < 0x4000 and clean[a - 1] != 0x4c and clean[a - 2] != 0x4c and not (
                        clean[a + 1] == 0xc0 and clean[a - 1] in (0x8d, 0x2c, 0xad)):
                    raise Violation("stray", "memory at %04x changed from %02x to %02x" % (a, clean[a], now[a]))
            if mode:
                na = m.ram(True)
                d = [a for a in np.flatnonzero(na != aux0).tolist() if not 0x2000 <= a < 0x4000]
                if d:
                    raise Violation("stray", "auxiliary memory at %04x changed" % d[0])
            ctx.count("screens_compared", 1 + mode)
            for op, b in zip(sc.ops, sc.bank_of):
                ctx.seen(op[0], op[1], b if mode else 0)
        m.free()

    ctx.pmap(job, range(ctx.scale(40, 400)))
    ctx.need("opcodes_watched", 30000)
    ctx.need("acks_watched", 100)
    ctx.need("screens_compared", 10)
