"""Evaluations: single bus accesses (direct, or by a load or store
instruction run on the simulated CPU) over $C000-$C0FF in
random histories on the real simulator.  After every access a monitor reads the
status of all simulated switches and compares with a state model; accesses that
the device does not support must raise.  Distinct = distinct (address,
direction, instruction, switch states before)."""
import core, sim
from core import Violation

# name: (off, on, status, reads count)
SW = {"80Col": (0xC00C, 0xC00D, 0xC01F, False), "AltCharSet": (0xC00E, 0xC00F, 0xC01E, False),
      "Text": (0xC050, 0xC051, 0xC01A, True), "Mixed": (0xC052, 0xC053, 0xC01B, True),
      "Page2": (0xC054, 0xC055, 0xC01C, True), "Hires": (0xC056, 0xC057, 0xC01D, True)}
UNSIM = list(range(0xC000, 0xC00C))          # 80Store .. SlotC3ROM, not simulated
UNSTAT = [0xC013, 0xC014, 0xC015, 0xC016, 0xC017, 0xC018]
ACT, STAT = {}, {}
for _n, (_o, _i, _s, _r) in SW.items():
    ACT[_o], ACT[_i], STAT[_s] = (_n, False, _r), (_n, True, _r), _n
CARD = {0xC094: "rw", 0xC095: "w", 0xC096: "w", 0xC097: "rw"}


def expect(addr, write):
    """('set', name, state) | 'status' | 'ok' | 'raise' | 'any'"""
    if addr in ACT:
        n, st, r = ACT[addr]
        return ("set", n, st) if write or r else "raise"
    if addr in STAT:
        return "raise" if write else "status"
    if addr in UNSIM:
        return "raise"
    if addr in UNSTAT:
        return "raise" if write else "any"
    if addr == 0xC030:
        return "ok"
    if addr in CARD:
        return "ok" if ("w" if write else "r") in CARD[addr] else "raise"
    return "raise"


def run(ctx):
    sim.load()

    def job(i):
        rng = ctx.rng(i)
        with core.quiet():
            a = sim.apple()
        bus = sim.Bus(a)

        def states():
            out = {}
            for n, (_, _, s, _) in SW.items():
                v = bus.read(s)
                if not isinstance(v, int) or not 0 <= v <= 255:
                    raise Violation("status", "status of %s reads %r" % (n, v))
                out[n] = v >= 128
            return out
        for off in (0xC095, 0xC096):
            bus.write(off, 0x40)
        model = states()
        hist = []
        for step in range(ctx.scale(260, 2600)):
            x = rng.random()
            if x < 0.5:
                addr = rng.choice(list(ACT))
            elif x < 0.6:
                addr = rng.choice(list(STAT) + UNSTAT)
            elif x < 0.7:
                addr = rng.choice(list(CARD) + [0xC030])
            elif x < 0.8:
                addr = rng.choice(UNSIM)
            else:
                addr = 0xC000 + (step * 37 + i * 11 + rng.randrange(256)) % 256
            write = rng.random() < 0.5
            via = rng.choice((None, None, "cpu"))
            val = None
            if write:
                val = rng.choice((0, 0, 1, 0x80, 255, rng.randrange(256)))
                if addr == 0xC094:
                    val = rng.randrange(4)
                if addr == 0xC095:
                    val = 0x40 | rng.randrange(16)
            if via:
                via = rng.choice(list(sim.WRITES) + ["STAX", "STAY"] if write else list(sim.READS) + ["LDAX", "LDAY"])
            what = expect(addr, write)
            hist.append("%s %04X%s%s" % ("W" if write else "R", addr, "=%02X" % val if write else "", " " + via if via else ""))
            key = (addr, write, via, tuple(sorted(model.items())))
            err, got = None, None
            try:
                if write:
                    bus.write(addr, val, via)
                else:
                    got = bus.read(addr, via)
            except core.Inconclusive:
                raise
            except Exception as e:
                err = e
            with ctx.guard(history=hist[-12:]):
                if what == "raise" and err is None:
                    raise Violation("ignored", "%s is accepted%s" % (hist[-1], "" if write else " and returns %r" % (got,)))
                if what not in ("raise", "any") and err is not None:
                    raise Violation("raises", "%s raises %r" % (hist[-1], err))
                if isinstance(what, tuple):
                    model[what[1]] = what[2]
                if what == "status" and got is not None and (got >= 128) != model[STAT[addr]]:
                    raise Violation("status", "%s returns %02X with %s %s" % (hist[-1], got, STAT[addr], "on" if model[STAT[addr]] else "off"))
                now = states()
                if now != model:
                    bad = {n: (model[n], now[n]) for n in now if now[n] != model[n]}
                    raise Violation("state", "after %s the switches read %s (expected first, read second)" % (hist[-1], bad))
            if ctx.viol:
                return
            ctx.count("evaluations")
            ctx.count("set_or_clear" if isinstance(what, tuple) else "must_raise" if what == "raise" else "other")
            ctx.seen(*key)
        ctx.sample({"history": hist[-6:], "switches": model}, 2)

    def every(_):
        """Every address in both directions, from a fresh machine each."""
        for addr in range(0xC000, 0xC100):
            for write in (False, True):
                for val in ((0, 0xA0) if write else (None,)):
                    if addr == 0xC094 and write:
                        val = 3 if val else 0
                    what = expect(addr, write)
                    if what == "any":
                        continue
                    with core.quiet():
                        a = sim.apple()
                    bus = sim.Bus(a)
                    if addr == 0xC097:
                        bus.write(0xC095, 0x40)
                    err = None
                    try:
                        bus.write(addr, val) if write else bus.read(addr)
                    except Exception as e:
                        err = e
                    if (err is not None) != (what == "raise"):
                        raise Violation("ignored" if what == "raise" else "raises", "%s of $%04X%s: %r" % (
                            "write" if write else "read", addr, "" if val is None else " (value %d)" % val, err))
                    ctx.count("evaluations")
                    ctx.count("fresh_machine")
                    ctx.seen("fresh", addr, write, val)
    def card(_):
        """Every register location of the network card, both directions."""
        plain = set(range(0x01, 0x13)) | {0x1A, 0x1B, 0x403, 0x404, 0x405} | set(range(0x40C, 0x412)) | set(range(0x426, 0x42A))
        with core.quiet():
            a = sim.apple()
        bus = sim.Bus(a)
        for addr in list(range(0x30)) + list(range(0x400, 0x430)) + list(range(0x430, 0x800, 13)):
            for val in (None, {0: 3, 0x400: 0x21, 0x401: 1}.get(addr, 0), 3):
                if val == 3 and addr in (0x400, 0x401):
                    continue
                want = addr in plain or addr in (0, 0x400, 0x401)
                bus.write(0xC095, addr >> 8)
                bus.write(0xC096, addr & 255)
                err = None
                try:
                    bus.read(0xC097) if val is None else bus.write(0xC097, val)
                except Exception as e:
                    err = e
                if want != (err is None):
                    raise Violation("raises" if want else "ignored", "%s of card location $%04X: %r" % (
                        "read" if val is None else "write of %02X" % val, addr, err))
                ctx.count("evaluations")
                ctx.count("card_locations")
                ctx.seen("card", addr, val)
    ctx.pmap(card, [0])
    ctx.pmap(every, [0])
    ctx.pmap(job, range(ctx.scale(48, 400)))
    ctx.need("set_or_clear", 1000)
    ctx.need("must_raise", 500)
