"""Evaluations: single accesses to the network card's mode, address and data
registers in random histories on the real simulator (directly and by CPU
instructions), judged by a model of the 15-bit address pointer and of the
card's memory.  Distinct = distinct (access, pointer before)."""
import core, sim
from core import Violation

WMODE, WADRH, WADRL, WDATA = 0xC094, 0xC095, 0xC096, 0xC097
# plain registers: gateway, subnet, MAC, IP, buffer sizes, socket ports and addresses, received size and read pointer
PLAIN = list(range(0x01, 0x13)) + [0x1A, 0x1B, 0x404, 0x405] + list(range(0x40C, 0x412)) + list(range(0x426, 0x42A))
BUF = [(0x4000, 0x5FFF), (0x6000, 0x7FFF)]


def data_ok(p):
    return p in PLAIN or any(lo <= p < hi for lo, hi in BUF)


def run(ctx):
    sim.load()

    def job(i):
        rng = ctx.rng(i)
        with core.quiet():
            a = sim.apple()
        bus = sim.Bus(a)
        cpu = rng.random() < 0.5

        def via(w):
            return rng.choice((None, "STA", "STX", "STY", "STAX", "STAY") if w else (None, "LDA", "LDX", "LDY", "LDAX", "LDAY")) if cpu else None
        hist = []

        def w(addr, v):
            hist.append("%04X<-%02X" % (addr, v))
            bus.write(addr, v, via(True))

        def r(addr):
            v = bus.read(addr, via(False))
            hist.append("%04X->%s" % (addr, v))
            return v
        mem = {}
        with ctx.guard(history=hist):
            if rng.random() < 0.5:
                w(WMODE, 0x80)
            w(WMODE, 3)
            ptr = None
            hi = lo = 0

            def target():
                x = rng.random()
                if x < 0.35:
                    return rng.choice(PLAIN)
                if x < 0.6:
                    return rng.choice((0x4000, 0x6000)) + rng.randrange(32) * 256 + rng.choice((0, 1, 0x7F, 0x80, 0x81, 0xFE, 0xFF))
                return rng.choice((0x4000, 0x6000)) + rng.randrange(0x1FFF)
            for v in (WADRH, WADRL):
                w(v, 0)
            hi = lo = 0
            status = None
            for step in range(ctx.scale(600, 6000)):
                del hist[:-16]
                ptr = (hi << 8) | lo
                x = rng.random()
                key = None
                if x < 0.25 or not data_ok(ptr):
                    # move the pointer: one half, or both in either order, often
                    # keeping the other half, sometimes written twice
                    t = target()
                    y = rng.random()
                    if y < 0.3:
                        seq = [(WADRH, t >> 8)]
                    elif y < 0.6:
                        seq = [(WADRL, t & 255)]
                    elif y < 0.8:
                        seq = [(WADRH, t >> 8), (WADRL, t & 255)]
                    else:
                        seq = [(WADRL, t & 255), (WADRH, t >> 8)]
                    if rng.random() < 0.2:
                        seq = [(rng.choice((WADRH, WADRL)), rng.randrange(256))] + seq
                    for reg, v in seq:
                        if reg == WADRH and rng.random() < 0.2:
                            v |= 0x80       # only 15 address bits exist
                        w(reg, v)
                        if reg == WADRH:
                            hi = v & 0x7F
                        else:
                            lo = v
                    ctx.count("pointer_moves")
                    key = ("move", tuple(s[0] for s in seq), ptr & 0xff80)
                elif x < 0.6:
                    v = rng.randrange(256)
                    w(WDATA, v)
                    mem[ptr] = v
                    key = ("w", ptr)
                    ctx.count("data_writes")
                elif x < 0.95:
                    # half the reads go where something was written
                    if rng.random() < 0.5 and mem:
                        ptr = rng.choice(list(mem))
                        if rng.random() < 0.5:
                            w(WADRL, ptr & 255), w(WADRH, ptr >> 8)
                        else:
                            w(WADRH, ptr >> 8), w(WADRL, ptr & 255)
                        hi, lo = ptr >> 8, ptr & 255
                    v = r(WDATA)
                    if not isinstance(v, int) or not 0 <= v <= 255:
                        raise Violation("data", "a data read returns %r" % (v,))
                    if ptr in mem and v != mem[ptr]:
                        raise Violation("data", "data read with the address registers at $%04X returns %02X, that location holds %02X" % (ptr, v, mem[ptr]))
                    mem[ptr] = v
                    key = ("r", ptr)
                    ctx.count("data_reads")
                elif x < 0.955:
                    # the end of the card's address space
                    e = 0x7FFF - rng.randrange(3)
                    g, n = rng.randrange(1, 256), 0x8000 - e
                    w(WADRH, 0), w(WADRL, 1), w(WDATA, g)
                    mem[1] = g
                    w(WADRH, e >> 8), w(WADRL, e & 255)
                    for k in range(n):
                        if rng.random() < 0.5:
                            mem[e + k] = rng.randrange(256)
                            w(WDATA, mem[e + k])
                        else:
                            v = r(WDATA)
                            if (e + k) in mem and v != mem[e + k]:
                                raise Violation("data", "data read with the address registers at $%04X returns %02X, that location holds %02X" % (e + k, v, mem[e + k]))
                            mem[e + k] = v
                    v = r(WDATA)
                    if v != 3:
                        raise Violation("wrap", "after $7FFF a data access reads %r, the mode register at $0000 holds 03" % (v,))
                    v = r(WDATA)
                    if v != g:
                        raise Violation("wrap", "the second data access after $7FFF reads %r, location $0001 holds %02X" % (v, g))
                    hi, lo, ptr = 0, 2, None
                    key = ("wrap", e)
                    ctx.count("wraps")
                elif x < 0.97:
                    m = r(WMODE)
                    if m is not None and m != 3:
                        raise Violation("mode", "mode register reads %02X after 03 was written" % m)
                    key = ("mode", ptr)
                    ctx.count("mode_accesses")
                    if rng.random() < 0.5:
                        w(WMODE, 3)
                    ptr = None
                else:
                    # socket commands
                    cmd, st = rng.choice(((1, 0x13), (4, 0x17)))
                    if status is not None and rng.random() < 0.3:
                        # one that is not simulated: nothing, an error, or
                        # what the chip does
                        cmd = rng.choice((2, 8, 0x10, 0x20, 0x21, 0x22, 0x40, 0, 5, 0xFF))
                        w(WADRH, 4), w(WADRL, 1)
                        try:
                            w(WDATA, cmd)
                        except Exception:
                            pass
                        w(WADRH, 4), w(WADRL, 3)
                        v = r(WDATA)
                        if v not in (status, *{2: (0x14,), 8: (0, 0x18, 0x1A, 0x1B), 0x10: (0,)}.get(cmd, ())):
                            raise Violation("socket", "command %02X turned the socket status from %02X to %02X" % (cmd, status, v))
                        ctx.count("other_commands")
                        hi, lo, ptr = 4, 4, None
                        status = v
                        ctx.seen("cmd", cmd)
                        continue
                    w(WADRH, 4), w(WADRL, 1)
                    w(WDATA, cmd)
                    w(WADRL, 3)
                    v = r(WDATA)
                    if v != st:
                        raise Violation("socket", "after command %02X the socket status is %02X, not %02X" % (cmd, v, st))
                    hi, lo, ptr = 4, 4, None
                    status = st
                    key = ("cmd", cmd)
                    ctx.count("commands")
                if key[0] in ("w", "r"):
                    p = ptr + 1
                    hi, lo = p >> 8, p & 255
                ctx.count("evaluations")
                ctx.seen(*key)
            # everything written is there, read sequentially and at random
            for p in sorted(rng.sample(sorted(mem), min(len(mem), 300))):
                w(WADRH, p >> 8), w(WADRL, p & 255)
                n = 1
                while p + n in mem and n < 4:
                    n += 1
                for k in range(n):
                    v = r(WDATA)
                    if v != mem[p + k]:
                        raise Violation("data", "at the end $%04X reads %02X, it held %02X" % (p + k, v, mem[p + k]))
                    ctx.count("final_reads")
                    ctx.count("evaluations")
            if status is not None:
                w(WADRH, 4), w(WADRL, 3)
                if r(WDATA) != status:
                    raise Violation("socket", "the socket status changed without a command")
            ctx.sample({"history": hist[-8:]}, 2)
    ctx.pmap(job, range(ctx.scale(64, 480)))
    for n in ("pointer_moves", "data_writes", "data_reads", "commands"):
        ctx.need(n, 500)
    ctx.need("wraps", 50)
    ctx.need("other_commands", 50)
