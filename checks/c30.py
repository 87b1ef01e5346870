"""Evaluations: boots of the freshly assembled player in the repository's
simulator from random initial memory and registers.  The bus writes to the card
are recorded and compared, as (card location, value) in order, with those of the
same player on the independent machine of a2vm.c up to the connect command; then
the card's registers and the socket status are read back through the bus and the
player is observed to wait for stream data; finally a header is made available
and the player is observed to read it and clear the screen.  It is also run by the
simulator's own run loop until it has polled for data many times.  Distinct = distinct
(initial memory, number of steps) and distinct card writes."""
import core, sim, vm
import c22
from core import Violation


def run(ctx):
    pl = vm.player(ctx)
    _, _, memory, _ = sim.load()
    # reference: the same player on the independent machine
    ref = vm.VM(pl, 5, 1 << 16, (vm.WREG_W, vm.CMD, vm.SS))
    ref.net(b"", [(0, 0)])
    ref.attempts([1])
    ref.run(200000)
    log = ref.log()
    # location 0 stands for the mode register, written on the bus
    want = [(int(e["addr"]) if e["kind"] == vm.WREG_W else 0, int(e["val"])) for e in log
            if e["kind"] == vm.WREG_W or e["kind"] == vm.SS and e["addr"] == 0xC094]
    k = [j for j, e in enumerate(want) if e == (0x401, 4)]
    if not k:
        raise core.Inconclusive("the player does not connect on the reference machine: %s" % ref.state())
    want = want[:k[0] + 1]
    ref.free()
    ctx.extra["reference_card_writes"] = len(want)

    def job(i):
        rng = ctx.rng(i)
        with core.quiet():
            a = sim.apple()
        m, c = a.memory, a.cpu
        m.write(0, [rng.randrange(256) for _ in range(0xC000)])
        m.write(0xD000, [0x60] * 0x3000)
        m.write(0x0800, list(pl.code))
        c.reset()
        c.pc = 0x0800
        c.sp = 0xFF
        for r in "axy":
            setattr(c, r, rng.randrange(256))
        c.p = (c.p | rng.choice((0, 1, 2, 0x80, 0x40))) & ~0x08
        seen, reads = [], []
        m.subscribe_to_write(range(0xC094, 0xC098), lambda ad, v: seen.append((ad, v)))
        m.subscribe_to_read(range(0xC094, 0xC098), lambda ad: reads.append((ad, len(seen))))
        ptr = 0
        got = []

        def digest():
            nonlocal ptr
            # reads advance the pointer too: merge in order
            ev = [(n, 1, ad, None) for ad, n in reads] + [(n, 0, ad, v) for n, (ad, v) in enumerate(seen, 1)]
            ev.sort(key=lambda e: (e[0], e[1]))
            p, out = 0, []
            for _, rd, ad, v in ev:
                if rd:
                    if ad == 0xC097:
                        p = (p + 1) & 0x7fff
                elif ad == 0xC094:
                    out.append((0, v))
                elif ad == 0xC095:
                    p = ((v & 0x7f) << 8) | (p & 255)
                elif ad == 0xC096:
                    p = (p & 0x7f00) | v
                else:
                    out.append((p, v))
                    p = (p + 1) & 0x7fff
            return out
        steps = 0
        with ctx.guard(boot=i, pc=c.pc):
            with core.quiet():
                while steps < 4000 and (0x401, 4) not in digest_tail(seen):
                    c.step()
                    steps += 1
                for _ in range(200):
                    c.step()
                    steps += 1
            got = digest()    # (location, value), location 0 for the mode register
            modes = [v for x, v in got if x == 0]
            if not modes or modes[-1] & 3 != 3:
                raise Violation("writes", "card mode writes %r" % modes)
            regs, exp = got, want
            if regs != exp:
                n = next((j for j, (x, y) in enumerate(zip(regs, exp)) if x != y), min(len(regs), len(exp)))
                raise Violation("writes", "card write %d is %s in the simulator, %s on the hardware model" % (
                    n, regs[n:n + 2], exp[n:n + 2]), pc="%04X" % c.pc)
            ctx.count("evaluations")
            ctx.count("card_writes", len(regs))
            # the player waits for data: only reads of the card
            before, nread = len(seen), len(reads)
            pcs = set()
            with core.quiet():
                for _ in range(400):
                    c.step()
                    pcs.add(c.pc)
            addrs = {v for ad, v in seen[before:] if ad == 0xC096}
            if any(ad in (0xC094, 0xC097) for ad, v in seen[before:]) or len(reads) == nread:
                raise Violation("wait", "after connecting the player does not wait for data: writes %r" % (seen[before:before + 6],), pc="%04X" % c.pc)
            if addrs - {0x26, 0x27}:
                raise Violation("wait", "while waiting the player polls card locations %r" % sorted(addrs))
            ctx.count("polls", len(reads) - nread)
            # read the configuration back over the bus
            bus = sim.Bus(a)
            saved = {n: getattr(c, n) for n in ("pc", "a", "x", "y", "sp", "p")}
            final = {}
            for x, v in want:
                if x not in (0, 0x401):
                    final[x] = v
            final[0x403] = 0x17
            for base, v in ((0x09, c22.MAC), (0x0F, c22.SRC), (0x1A, b"\3\3"), (0x400, b"\x21"), (0x404, b"\xc0\0"),
                            (0x40C, c22.FOREIGN), (0x410, c22.PORT.to_bytes(2, "big"))):
                final.update((base + j, b) for j, b in enumerate(v))
            if bus.read(0xC094) not in (None, modes[-1]):
                raise Violation("registers", "the card's mode reads %r after %02X was written" % (bus.read(0xC094), modes[-1]))
            for x, v in sorted(final.items()):
                bus.write(0xC095, x >> 8)
                bus.write(0xC096, x & 255)
                g = bus.read(0xC097)
                if g != v:
                    raise Violation("registers", "card location $%04X holds %r after the boot, %02X was configured" % (x, g, v))
                ctx.count("registers_read")
            # a header arrives
            mode = 0
            hdr = [255] * 6 + [mode]
            body = [rng.randrange(256) for _ in range(8)]

            def poke(x, vs):
                bus.write(0xC095, x >> 8)
                bus.write(0xC096, x & 255)
                for v in vs:
                    bus.write(0xC097, v)
            poke(0x6000, hdr + body)
            poke(0x426, [rng.choice((1, 2, 7)), rng.randrange(256)])
            bus.write(0xC095, 0x04)
            bus.write(0xC096, 0x26)
            for n, v in saved.items():
                setattr(c, n, v)
            sw = []
            m.subscribe_to_write(range(0xC000, 0xC080), lambda ad, v: sw.append(ad))
            n0 = len(reads)
            with core.quiet():
                for _ in range(400):
                    c.step()
                    if 0xC050 in sw:
                        break
                else:
                    raise Violation("header", "the header is not read once it is there", pc="%04X" % c.pc)
            st = {}
            for name, ad in (("Text", 0xC01A), ("Mixed", 0xC01B), ("Page2", 0xC01C), ("Hires", 0xC01D)):
                st[name] = bus.read(ad) >= 128
            if st != {"Text": False, "Mixed": False, "Page2": False, "Hires": True}:
                raise Violation("mode", "after an HGR header the switches are %r" % st)
            nr = sum(1 for ad, _ in reads[n0:] if ad == 0xC097)
            if nr < 7:
                raise Violation("header", "%d data reads for the header" % nr)
            ctx.count("headers_read")
            ctx.count("steps", steps)
            ctx.seen(i, steps)
            for x in regs:
                ctx.seen("w", x)
            ctx.sample({"writes": regs[:8], "steps": steps, "switches": st}, 2)
    class Enough(Exception):
        pass

    def whole(i):
        """The simulator's own run loop, with its control-flow checks, from the
        start of the player to its waiting loop and on into the header."""
        rng = ctx.rng("run", i)
        with core.quiet():
            a = sim.apple()
            # the player's code spans what the map calls screen pages
            a.memory_manager.RegisterRegion(memory.MemoryRegion("Player", 0x0800, 0xBFFF))
        m, c = a.memory, a.cpu
        m.write(0, [rng.randrange(256) for _ in range(0xC000)])
        m.write(0xD000, [0x60] * 0x3000)
        m.write(0x0800, list(pl.code))
        c.reset()
        c.sp = 0xFF
        for r in "axy":
            setattr(c, r, rng.randrange(256))
        limit = rng.choice((40, 400, 3000))
        st = dict(p=0, polls=0, reads=0)
        out = []

        def wr(ad, v):
            if ad == 0xC094:
                out.append((0, v))
            elif ad == 0xC095:
                st["p"] = ((v & 0x7f) << 8) | (st["p"] & 255)
            elif ad == 0xC096:
                st["p"] = (st["p"] & 0x7f00) | v
            else:
                out.append((st["p"], v))
                st["p"] = (st["p"] + 1) & 0x7fff

        def rd(ad):
            st["reads"] += 1
            if st["reads"] > 40 * limit + 20000:
                raise Violation("run", "after %d card writes the player reads the card on and on without waiting for data" % len(out), location="%04X" % st["p"])
            if ad == 0xC097:
                if st["p"] in (0x426, 0x427) and len(out) >= len(want):
                    st["polls"] += 1
                    if st["polls"] > limit:
                        raise Enough()
                st["p"] = (st["p"] + 1) & 0x7fff
        m.subscribe_to_write(range(0xC094, 0xC098), wr)
        m.subscribe_to_read(range(0xC094, 0xC098), rd)
        with ctx.guard(run=i, polls=limit):
            try:
                with core.quiet():
                    a.Run(0x0800)
            except (Enough, Violation) as e:
                if isinstance(e, Violation):
                    raise
            except Exception as e:
                raise Violation("run", "running the player raises %r after %d card writes" % (e, len(out)), pc="%04X" % c.pc)
            if out != want:
                n = next((j for j, (x, y) in enumerate(zip(out, want)) if x != y), min(len(out), len(want)))
                raise Violation("writes", "card write %d is %s in the simulator's run, %s on the hardware model" % (n, out[n:n + 2], want[n:n + 2]))
            if st["polls"] <= limit:
                raise Violation("run", "the simulator's run ends after %d card writes and %d polls for data" % (len(out), st["polls"]), pc="%04X" % c.pc)
            ctx.count("evaluations")
            ctx.count("runs")
            ctx.count("run_polls", st["polls"])
            ctx.seen("run", i)
    ctx.pmap(whole, range(ctx.scale(16, 96)))
    ctx.pmap(job, range(ctx.scale(32, 240)))
    ctx.need("headers_read", 4)
    ctx.need("runs", 4)


def digest_tail(seen):
    """The last card write if it is the connect command (value 4 after an address 01 write)."""
    if len(seen) >= 2 and seen[-1] == (0xC097, 4) and seen[-2] == (0xC096, 1):
        return [(0x401, 4)]
    return []
