"""Evaluations: (a) stores to every kind of address, directly and by store,
read-modify-write, push and call instructions, with the memory compared before
and after; (b) transfers between random program counters offered to the
simulator's interception, for the Apple II map and for random maps with
recording handlers; (c) small programs run by the simulator's Run loop; (d) every
address of the map, once entered from another region and once from its own, and
every protected byte stored to.
Distinct = distinct (kind, address or transfer)."""
import io, contextlib
import core, sim
from core import Violation

PROT = [(0x4000, 0x4FFF)] + [(s << 8, (s << 8) + 255) for s in range(0xC1, 0xC8)] + [(0xD000, 0xFFFF)]
RAM = [(0x0000, 0x3FFF), (0x6000, 0xBFFF)]
ENTRY = {0xF3E2: "HGR", 0xFCA8: "wait", 0xFDED: "COUT", 0xFE89: "keyboard"}


def zone(a):
    """Region of an address, None where the map is not specified."""
    for n, lo, hi in (("zp", 0, 0xff), ("stack", 0x100, 0x1ff), ("text", 0x400, 0x7ff), ("hgr", 0x2000, 0x2fff), ("hgr2", 0x4000, 0x4fff),
                      ("io", 0xC000, 0xC0FF), ("rom", 0xD000, 0xFFFF)):
        if lo <= a <= hi:
            return n
    if 0xC100 <= a <= 0xC7FF:
        return "slot%d" % ((a >> 8) & 7)
    if 0x3000 <= a <= 0x3FFF or 0x5000 <= a <= 0x5FFF or 0xC800 <= a <= 0xCFFF:
        return None
    return "ram"


def inr(rng, rs):
    lo, hi = rng.choice(rs)
    x = rng.random()
    return lo if x < 0.15 else hi if x < 0.3 else rng.randrange(lo, hi + 1)


def plain(a, mem, lo, hi):
    return [mem[x] for x in range(lo, hi + 1)]


def image(a):
    m = a.memory
    with core.quiet():
        return [m[x] if not 0xC000 <= x < 0xC100 else 0 for x in range(65536)]


def stores(ctx, i):
    rng = ctx.rng("st", i)
    with core.quiet():
        a = sim.apple()
    a.memory.write(0, [rng.randrange(256) for _ in range(65536)])
    bus = sim.Bus(a)
    c, m = a.cpu, a.memory
    for step in range(ctx.scale(200, 2000)):
        prot = rng.random() < 0.5
        addr = inr(rng, PROT if prot else RAM)
        val = rng.choice((0, 255, rng.randrange(256)))
        kind = rng.choice(("direct", "direct", "STA", "STX", "STY", "STAX", "STAY", "INC", "ASL", "STZ", "slice"))
        if 0x300 <= addr < 0x310 or addr in (0x42, 0x43):
            continue
        full = step % 40 == 0
        before = image(a) if full else None
        with core.quiet():
            old = m[addr]
        err = None
        new = val
        # the access itself patches the code and pointer bytes
        try:
            with core.quiet():
                if kind == "direct":
                    m[addr] = val
                elif kind == "slice":
                    m[addr:addr + 1] = [val]
                elif kind in ("INC", "ASL", "STZ"):
                    bus._put({"INC": 0xEE, "ASL": 0x0E, "STZ": 0x9C}[kind], addr)
                    new = {"INC": (old + 1) & 255, "ASL": (old << 1) & 255, "STZ": 0}[kind]
                    c.step()
                else:
                    bus.write(addr, val, kind)
        except Exception as e:
            err = e
        with core.quiet():
            now = m[addr]
        w = dict(address="%04X" % addr, kind=kind, value=val)
        if prot:
            if err is None:
                raise Violation("unprotected", "%s to protected $%04X is accepted" % (kind, addr), **w)
            report(err, addr)
            if now != old:
                raise Violation("changed", "%s to protected $%04X raised but changed %02X to %02X" % (kind, addr, old, now), **w)
        else:
            if err is not None:
                raise Violation("denied", "%s to RAM $%04X raises %r" % (kind, addr, err), **w)
            if now != new:
                raise Violation("lost", "%s of %02X to RAM $%04X leaves %02X" % (kind, new, addr, now), **w)
        if full:
            after = image(a)
            d = [x for x in range(65536) if after[x] != before[x] and x != addr and not 0x300 <= x < 0x310 and x not in (0x42, 0x43)]
            if d:
                raise Violation("elsewhere", "%s to $%04X changed $%04X" % (kind, addr, d[0]), **w)
            ctx.count("whole_memory_compared")
        ctx.count("evaluations")
        ctx.count("store_protected" if prot else "store_ram")
        ctx.seen("st", kind, addr)


def calls(ctx, i):
    """Stack pushes and calls are ordinary writes."""
    rng = ctx.rng("call", i)
    for _ in range(ctx.scale(20, 100)):
        with core.quiet():
            a = sim.apple()
        m, c = a.memory, a.cpu
        sp = rng.randrange(256)
        c.sp = sp
        at = rng.choice((0x900, 0x6000, 0x1F00)) + rng.randrange(200)
        t = rng.randrange(0x800, 0x1E00)
        m.write(at, [0x20, t & 255, t >> 8])
        c.pc = at
        with core.quiet():
            c.step()
            r = (m[0x100 + sp] << 8) | m[0x100 + ((sp - 1) & 255)]
        if r != at + 2 or c.pc != t:
            raise Violation("call", "JSR at $%04X pushes %04X and goes to %04X" % (at, r, c.pc))
        ctx.count("evaluations")
        ctx.count("calls")
        ctx.seen("call", at, t, sp)


def report(err, *addrs):
    """The report of an error, which names the addresses in this order."""
    try:
        text = str(err).upper()
    except Exception as e:
        raise Violation("report", "the report of %s cannot be shown: %r" % (type(err).__name__, e))
    at = [text.find("%04X" % x) for x in addrs]
    if min(at) < 0 or (addrs[0] not in addrs[1:] and at != sorted(at)):
        raise Violation("report", "the report %r is about $%s" % (str(err), ", $".join("%04X" % x for x in addrs)))


def intercept(a, cpu, old):
    err = None
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        try:
            a.memory_manager.MaybeInterceptExecution(cpu, old)
        except Exception as e:
            err = e
    return err, f.getvalue()


def transfers(ctx, i):
    rng = ctx.rng("tr", i)
    with core.quiet():
        a = sim.apple()
    a.memory.write(0, [rng.choice((0x60, 0x4C, 0x20, 0xEA, 0x40, 0x00, 0x61, 0x6C, rng.randrange(256))) for _ in range(65536)])
    bounds = [0, 0xff, 0x100, 0x1ff, 0x200, 0x3ff, 0x400, 0x7ff, 0x800, 0x1fff, 0x2000, 0x2fff, 0x4000, 0x4fff, 0x6000, 0xbfff,
              0xc100, 0xc1ff, 0xc200, 0xc2ff, 0xc300, 0xc600, 0xc6ff, 0xc700, 0xc7ff, 0xd000, 0xffff]

    def addr():
        x = rng.random()
        if x < 0.3:
            return rng.choice(bounds)
        if x < 0.5:
            return rng.choice(list(ENTRY)) + rng.choice((0, 0, 0, 1, -1, 0x100))
        return rng.randrange(65536)
    for _ in range(ctx.scale(1500, 15000)):
        old, new = addr(), addr()
        if zone(old) in (None, "io") or zone(new) in (None, "io"):
            continue
        a.cpu.pc = new
        with core.quiet():
            op = a.memory[old]
        err, out = intercept(a, a.cpu, old)
        cross = zone(old) != zone(new)
        bad = cross and op != 0x60 and new not in ENTRY
        w = dict(old="%04X" % old, new="%04X" % new, opcode="%02X" % op)
        if bad and err is None:
            raise Violation("undetected", "entering $%04X (%s) from $%04X (%s) by opcode %02X is not reported" % (new, zone(new), old, zone(old), op), **w)
        if bad:
            report(err, old, new)
            ctx.count("reports_read")
        if not bad and err is not None:
            raise Violation("rejected", "going from $%04X to $%04X by opcode %02X raises %r" % (old, new, op, err), **w)
        if new in ENTRY and old != new and ENTRY[new].lower() not in out.lower():
            raise Violation("handler", "entering at $%04X does not run its handler (prints %r)" % (new, out[-200:]), **w)
        if a.cpu.pc != new:
            raise Violation("pc", "interception moved the program counter from $%04X to $%04X" % (new, a.cpu.pc), **w)
        ctx.count("evaluations")
        ctx.count("transfer_reported" if bad else "transfer_entry" if new in ENTRY else "transfer_return" if cross else "transfer_inside")
        ctx.seen("tr", old, new, op == 0x60)


def maps(ctx, i):
    """Random region maps with recording handlers."""
    _, machine, memory, _ = sim.load()
    rng = ctx.rng("map", i)
    cuts = sorted(rng.sample(range(1, 65536), rng.randrange(3, 14)))
    cuts = [0] + cuts + [65536]
    regions, spec, calls = [], [], []

    def handler(tag):
        def h(cpu):
            calls.append((tag, cpu.pc))
        return h
    entry = {}
    seen_w, seen_r = [], []
    for k, (lo, hi) in enumerate(zip(cuts, cuts[1:])):
        if rng.random() < 0.3:
            spec.append((lo, hi - 1, None, True, None, None))
            continue
        ep = {}
        for t in range(rng.randrange(0, 4)):
            x = rng.choice((lo, hi - 1, rng.randrange(lo, hi)))
            ep[x] = handler((k, t))
        entry.update(ep)
        wr = rng.random() < 0.6
        kw = {}
        ri = wi = None
        if rng.random() < 0.4:
            ri = rng.randrange(256)
            kw["read_interceptor"] = (lambda v, k: lambda addr: (seen_r.append((k, addr)), v)[1])(ri, k)
        if rng.random() < 0.4:
            wi = True
            kw["write_interceptor"] = (lambda k: lambda addr, value: seen_w.append((k, addr, value)))(k)
        regions.append(memory.MemoryRegion("r%d" % k, lo, hi - 1, entrypoints=ep, writable=wr, **kw))
        spec.append((lo, hi - 1, k, wr, ri, wi))
    rng.shuffle(regions)
    mm = memory.MemoryManager(regions)
    with core.quiet():
        mm.enable()
    mm.memory.write(0, [rng.choice((0x60, 0x4C, rng.randrange(256))) for _ in range(65536)])

    class Cpu:
        pc = 0

    def find(x):
        for s in spec:
            if s[0] <= x <= s[1]:
                return s
    cpu = Cpu()
    edges = [x for s in spec for x in (s[0], s[1])]
    for _ in range(ctx.scale(150, 600)):
        old = rng.choice(edges) if rng.random() < 0.5 else rng.randrange(65536)
        new = rng.choice(list(entry) or [5]) if rng.random() < 0.4 else rng.choice(edges) if rng.random() < 0.5 else rng.randrange(65536)
        so, sn = find(old), find(new)
        with core.quiet():
            op = mm.memory[old]
        cpu.pc = new
        del calls[:]
        err = None
        with core.quiet():
            try:
                mm.MaybeInterceptExecution(cpu, old)
            except Exception as e:
                err = e
        cross = so[2] != sn[2]
        bad = cross and op != 0x60 and new not in entry
        w = dict(old=so[:3], new=sn[:3], opcode=op, entry=new in entry)
        if bad != (err is not None):
            raise Violation("undetected" if bad else "rejected", "%04X -> %04X by %02X: %r" % (old, new, op, err), **w)
        if new in entry and old != new and not calls:
            raise Violation("handler", "entry point $%04X reached from $%04X (%s region) without its handler" % (new, old, "another" if cross else "same"), **w)
        if calls and (new not in entry or len(calls) > 1 or calls[0][1] != new):
            raise Violation("handler", "handlers %r run on entering $%04X" % (calls, new), **w)
        if new in entry and calls:
            del calls[:]
            entry[new](cpu)
            want = calls[0][0]
            # the handler run was the one registered for that address
            del calls[:]
            with core.quiet():
                mm.MaybeInterceptExecution(cpu, old)
            if [t for t, _ in calls] != [want]:
                raise Violation("handler", "entering $%04X runs handler %r, not %r" % (new, calls, want), **w)
        ctx.count("evaluations")
        ctx.count("map_transfers")
        ctx.seen("map", i, old, new)
        x = rng.choice(edges) if rng.random() < 0.6 else rng.randrange(65536)
        s = find(x)
        v = rng.randrange(256)
        del seen_w[:], seen_r[:]
        before = list.__getitem__(mm.memory._subject, x) if isinstance(getattr(mm.memory, "_subject", None), list) else None
        err = None
        with core.quiet():
            try:
                mm.memory[x] = v
            except Exception as e:
                err = e
        if (err is not None) != (not s[3]):
            raise Violation("denied" if s[3] else "unprotected", "write to $%04X in a %s region: %r" % (x, "writable" if s[3] else "protected", err), **w)
        if s[3] and s[5] and seen_w != [(s[2], x, v)]:
            raise Violation("interceptor", "write interceptor calls: %r for $%04X" % (seen_w, x), **w)
        if seen_w and not s[5]:
            raise Violation("interceptor", "write to $%04X reaches another region's interceptor" % x, **w)
        with core.quiet():
            r = mm.memory[x]
        want = s[4] if s[4] is not None else v if s[3] else before
        if want is not None and r != want:
            raise Violation("lost", "after writing %02X to $%04X it reads %02X, expected %02X" % (v, x, r, want), **w)
        ctx.count("evaluations")
        ctx.count("map_stores")


def programs(ctx, i):
    """A few legs of code in different regions, run by Run()."""
    rng = ctx.rng("prog", i)
    for _ in range(ctx.scale(25, 120)):
        with core.quiet():
            a = sim.apple()
        m, c = a.memory, a.cpu
        m.write(0, [0xEA] * 0xC000)
        m.write(0xD000, [0xEA] * 0x3000)
        for e in ENTRY:
            m.write(e, [0x60])
        # main program in low RAM or high RAM
        pc = start = rng.choice((0x0800, 0x0A00, 0x6000, 0x9000)) + rng.randrange(64)
        code = []
        want = []
        bad = None
        legs = rng.randrange(1, 7)
        for _l in range(legs):
            here = pc + len(code)
            k = rng.choice(("entry", "entry", "sub", "nop", "nop", "count", "bad"))
            if k == "bad" and _l < legs - 1:
                k = "nop"
            if k == "entry":
                e = rng.choice(list(ENTRY))
                code += [0x20, e & 255, e >> 8]
                want.append(e)
            elif k == "sub":
                t = rng.choice((0x1000, 0x7000, 0xA000)) + rng.randrange(128)
                m.write(t, [0xE8, 0x60])
                code += [0x20, t & 255, t >> 8]
            elif k == "nop":
                code += [0xEA] * rng.randrange(1, 5)
            elif k == "count":
                code += [0xA9, rng.randrange(256), 0x8D, 0x00, 0x11]
            else:
                how = rng.choice(("jmp", "jsr", "ind", "fall", "rti", "rtsrom"))
                t = rng.choice((0x0010, 0x0150, 0x0450, 0x2010, 0xC600, 0xD123, 0xFDEC, 0xFDEE, 0xFFF0, 0xF3E3))
                bad = (how, t)
                if how == "jmp":
                    code += [0x4C, t & 255, t >> 8]
                elif how == "jsr":
                    code += [0x20, t & 255, t >> 8]
                elif how == "ind":
                    m.write(0x0380, [t & 255, t >> 8])
                    code += [0x6C, 0x80, 0x03]
                elif how == "rti":
                    code += [0xA9, t >> 8, 0x48, 0xA9, t & 255, 0x48, 0x08, 0x40]
                elif how == "rtsrom":
                    # an RTS into ROM is a return, not an entry; then RAM is entered by a jump
                    code += [0xA9, 0xD1, 0x48, 0xA9, 0xFF, 0x48, 0x60]
                    m.write(0xD200, [0x4C, 0x00, 0x0C])
                else:
                    # fall off the end of the RAM below the screen
                    code += [0x4C, 0xF0, 0x1F]
                    m.write(0x1FF0, [0xEA] * 16)
        here = pc + len(code)
        code += [0x4C, here & 255, here >> 8]
        m.write(start, code)
        err = None
        f = io.StringIO()
        with contextlib.redirect_stdout(f):
            try:
                a.Run(start)
            except Exception as e:
                err = e
        w = dict(start="%04X" % start, code=bytes(code), bad=bad)
        if bad and err is None:
            raise Violation("undetected", "a program that enters another region by %r is not stopped" % (bad,), **w)
        if not bad:
            if err is not None:
                raise Violation("rejected", "a well-behaved program raises %r" % err, **w)
            if c.pc != here:
                raise Violation("run", "the program ends at $%04X, not in its final loop at $%04X" % (c.pc, here), **w)
        out = f.getvalue().lower()
        for e in set(want):
            if out.count(ENTRY[e].lower()) < want.count(e):
                raise Violation("handler", "entry point $%04X called %d times, handler ran %d times" % (e, want.count(e), out.count(ENTRY[e].lower())), **w)
        ctx.count("evaluations")
        ctx.count("programs_stopped" if bad else "programs_finished")
        ctx.seen("prog", start, bytes(code))


PARTS = 16


def everywhere(ctx, i):
    """Each address of one part of the map: a transfer to it from another
    region and from its own, and a store to it."""
    rng = ctx.rng("every", i)
    with core.quiet():
        a = sim.apple()
    a.memory.write(0, [rng.choice((0x4C, 0x20, 0xEA, 0x6C, 0x40)) for _ in range(65536)])
    m, mm = a.memory, a.memory_manager
    olds = {}
    for x in (0x10, 0x123, 0x480, 0x900, 0x2100, 0x4100, 0x6100, 0xC110, 0xC620, 0xD234):
        olds[zone(x)] = x
    n = 65536 // PARTS
    with core.quiet():
        for x in range(i * n, (i + 1) * n):
            z = zone(x)
            if z not in (None, "io"):
                cross = rng.choice([o for k, o in olds.items() if k != z])
                for old in (cross, olds.get(z)):
                    if old is None or old == x:
                        continue
                    a.cpu.pc = x
                    err = None
                    try:
                        mm.MaybeInterceptExecution(a.cpu, old)
                    except Exception as e:
                        err = e
                    bad = old == cross and x not in ENTRY
                    if bad != (err is not None):
                        raise Violation("undetected" if bad else "rejected", "going from $%04X to $%04X by opcode %02X: %r" % (old, x, m[old], err), old="%04X" % old, new="%04X" % x)
                    ctx.count("evaluations")
                    ctx.count("every_transfer")
            prot = any(lo <= x <= hi for lo, hi in PROT)
            if prot or any(lo <= x <= hi for lo, hi in RAM):
                was = m[x]
                v = was ^ rng.randrange(1, 256)
                err = None
                try:
                    m[x] = v
                except Exception as e:
                    err = e
                if prot != (err is not None) or m[x] != (was if prot else v):
                    raise Violation("unprotected" if prot else "denied", "storing %02X over %02X at $%04X: %r, then it reads %02X" % (v, was, x, err, m[x]), address="%04X" % x)
                if not prot:
                    m[x] = was
                ctx.count("evaluations")
                ctx.count("every_store")


def run(ctx):
    sim.load()
    jobs = []
    for f, q, t in ((stores, 16, 64), (calls, 4, 16), (transfers, 16, 64), (maps, 24, 160), (programs, 16, 96)):
        jobs += [(f.__name__, i) for i in range(ctx.scale(q, t))]
    jobs += [("everywhere", i) for i in range(PARTS)]
    ctx.pmap(lambda j: globals()[j[0]](ctx, j[1]), jobs)
    for n in ("store_protected", "store_ram", "transfer_reported", "transfer_entry", "transfer_return", "transfer_inside", "map_transfers", "map_stores", "programs_stopped", "programs_finished"):
        ctx.need(n, 20)
    ctx.need("every_transfer", 80000)
    ctx.need("every_store", 40000)
