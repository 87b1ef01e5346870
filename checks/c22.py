"""Evaluations: complete runs of the assembled player on the 6502 machine with
refused, delayed and accepted connections, both modes, key presses at chosen
moments and RESET at random cycles; network register writes, screen clears,
soft switches, messages, speaker activity and the final ProDOS call are
checked.  Distinct = distinct (scenario, retries, mode, moment class)."""
import numpy as np
import core, vm
from core import Violation

MAC = bytes((0x00, 0x08, 0xDC, 0x01, 0x02, 0x03))
SRC = bytes((10, 0, 65, 2))
FOREIGN = bytes((10, 0, 0, 1))
PORT = 1977


def wreg(log):
    return [(int(a), int(v), int(k)) for k, a, v in zip(log["kind"].tolist(), log["addr"].tolist(), log["val"].tolist())]


def check_config(log, ctx):
    """Replays register writes; returns the number of CONNECT commands."""
    regs = {}
    connects = opens = resets = 0
    fresh = False
    for e in log:
        k, a, v = int(e["kind"]), int(e["addr"]), int(e["val"])
        if k == vm.SS and a == 0xc094:
            if v & 0x80:
                regs = {}
                resets += 1
                fresh = True
            elif v & 3 != 3:
                raise Violation("mode", "network card mode %02x lacks indirect auto-increment access" % v)
        elif k == vm.WREG_W:
            regs[a] = v
        elif k == vm.CMD and v in (1, 4):
            get = lambda base, n: bytes(regs.get(base + i, 0) for i in range(n))
            if v == 1:
                opens += 1
                if not fresh:
                    raise Violation("reset", "socket opened without resetting the network card")
                fresh = False
                if get(9, 6) != MAC:
                    raise Violation("config", "MAC address is %s" % get(9, 6).hex())
                if get(0xf, 4) != SRC:
                    raise Violation("config", "source address is %s" % list(get(0xf, 4)))
                if regs.get(0x1a) != 3 or regs.get(0x1b) != 3:
                    raise Violation("config", "buffer size registers are %r %r" % (regs.get(0x1a), regs.get(0x1b)))
                if regs.get(0x400) != 0x21:
                    raise Violation("config", "socket mode is %r, not TCP with prompt acknowledgement" % regs.get(0x400))
                if get(0x404, 2) != b"\xc0\x00":
                    raise Violation("config", "local port is %s" % get(0x404, 2).hex())
            else:
                connects += 1
                if opens != connects:
                    raise Violation("open", "connect without a newly opened socket")
                if get(0x40c, 4) != FOREIGN:
                    raise Violation("config", "foreign address is %s" % list(get(0x40c, 4)))
                if get(0x410, 2) != PORT.to_bytes(2, "big"):
                    raise Violation("config", "foreign port is %s" % get(0x410, 2).hex())
            ctx.count("commands_checked")
    return connects, resets


def text(log):
    return "".join(chr(v & 0x7f) for k, v in zip(log["kind"].tolist(), log["val"].tolist()) if k == vm.COUT)


def readable(t):
    """A message of a few screen lines, not whatever follows it in memory."""
    return len(t) <= 160 and all(x.isprintable() or x in "\r\n" for x in t)


def quit_ok(m, log, ctx):
    e = [x for x in log if x["kind"] == vm.MLI]
    if not e:
        raise Violation("quit", "no ProDOS call")
    ram = m.ram()
    if int(e[-1]["val"]) != 0x65:
        raise Violation("quit", "ProDOS call %02x is not QUIT" % e[-1]["val"])
    p = int(e[-1]["addr"])
    if list(ram[p:p + 7]) != [4, 0, 0, 0, 0, 0, 0]:
        raise Violation("quit", "QUIT parameters are %r" % list(ram[p:p + 7]))
    if ram[0x3f4] == ram[0x3f3] ^ 0xa5:
        raise Violation("quit", "the reset vector is still valid after quitting")
    ctx.count("quits")


def run(ctx):
    core.setup_transcoder(ctx.scratch)
    pl = vm.player(ctx)
    if pl.missing():
        raise Violation("label", "the assembled player lacks %r" % (pl.missing()[:5],))
    BASE = (vm.SS, vm.WREG_W, vm.CMD, vm.COUT, vm.MLI, vm.HGR0, vm.ANOM)

    def connect(rng, i):
        fails = i % 8
        if fails == 7:                      # socket cannot be opened
            k = rng.randrange(0, 4)
            m = vm.VM(pl, rng.getrandbits(30), 1 << 16, BASE)
            m.attempts([0] * k + [1], [rng.randrange(0, 3000) for _ in range(k + 1)], [1] * k + [0])
            m.net(b"", [(0, 0)])
            h = m.run(5 * 10 ** 6)
            log = m.log()
            if h != vm.BRK:
                raise Violation("open", "player goes on although the socket does not open: %s" % m.state())
            c, r = check_config(log, ctx)
            t = text(log)
            if c != k or "COULD NOT OPEN SOCKET" not in t.upper() or not readable(t):
                raise Violation("open", "socket that does not open is reported as %r after %d connects" % (t, c))
            ctx.count("open_failures")
            ctx.seen("open", k)
            m.free()
            return
        mode = rng.randrange(2)
        sc = vm.Script(pl, mode, vm.random_ops(rng, rng.choice((0, 5, 400))))
        m = vm.VM(pl, rng.getrandbits(30), 1 << 18, BASE)
        res = [0] * fails + [1]
        m.attempts(res, [rng.choice((0, 1, 50, rng.randrange(200000))) for _ in res])
        t0 = rng.randrange(0, 2000000)
        m.net(sc.data, [(t0, 255), (t0 + rng.randrange(100000), len(sc.data))])
        for a in (pl.byname[("terminate",)],):
            m.stop(a)
        h = m.run(3 * 10 ** 7)
        log = m.log()
        c, r = check_config(log, ctx)
        t = text(log)
        if fails <= 5:
            if h != vm.STOP:
                raise Violation("connect", "playback does not start after %d refused connections: %s" % (fails, m.state()))
            if c != fails + 1 or r < fails + 1:
                raise Violation("connect", "%d connects and %d resets after %d refusals" % (c, r, fails))
            if "COULD NOT" in t.upper():
                raise Violation("connect", "message %r although connected" % t)
            ctx.count("connected")
        else:
            if h != vm.BRK:
                raise Violation("connect", "player does not give up after six refusals: %s" % m.state())
            if c != 6 or "COULD NOT CONNECT" not in t.upper() or not readable(t):
                raise Violation("connect", "after %d connects the player says %r" % (c, t))
            ctx.count("gave_up")
        ctx.seen("connect", fails, mode)
        m.free()

    def start(rng, i):
        """Screen state when the first opcode is reached, with the header
        arriving in any pieces."""
        mode = i % 2
        ops = vm.random_ops(rng, 3)
        sc = vm.Script(pl, mode, ops)
        m = vm.VM(pl, rng.getrandbits(30), 1 << 18, BASE + (vm.RX,))
        _, sched = vm.random_schedule(rng, len(sc.data))
        m.net(sc.data, sched)
        a = pl.byname[("tick",) + ops[0][:2]]
        m.stop(a)
        ram0, aux0 = m.ram(), m.ram(True)
        h = m.run(vm.cycle_budget(len(sc.data), sched))
        if h != vm.STOP:
            raise Violation("start", "first opcode is not reached: %s" % m.state())
        m.check_anomalies()
        st = dict(text=m.get(vm.TEXT), mixed=m.get(vm.MIXED), hires=m.get(vm.HIRES), page2=m.get(vm.PAGE2),
                  store80=m.get(vm.STORE80), col80=m.get(vm.COL80), dhires=m.get(vm.DHIRES))
        want = dict(text=0, mixed=0, hires=1, page2=0, store80=mode, col80=mode, dhires=mode)
        if st != want:
            raise Violation("switches", "mode %d starts with %r" % (mode, {k: v for k, v in st.items() if v != want[k]}))
        if m.screen().any() or (mode and m.screen(True).any()):
            raise Violation("clear", "mode %d starts with a screen that is not clear" % mode)
        na = m.ram(True)
        keep = [x for x in range(65536) if not (mode and 0x2000 <= x < 0x4000)]
        if (na[keep] != aux0[keep]).any():
            raise Violation("aux", "start-up changes auxiliary memory outside the screen")
        now = m.ram()
        if now[0x3f4] != now[0x3f3] ^ 0xa5:
            raise Violation("reset", "the reset vector is not valid during playback")
        # pictures are not displayed before they are cleared
        ev = [(int(e["kind"]), int(e["addr"])) for e in m.log()]
        shown = next(k for k, e in enumerate(ev) if e == (vm.SS, 0xc050))
        clears = [k for k, e in enumerate(ev) if e[0] == vm.HGR0]
        if len(clears) != 1 + mode or max(clears) > shown:
            raise Violation("order", "%d screen clears, display switched on after %d of them" % (len(clears), sum(k < shown for k in clears)))
        ctx.count("starts")
        ctx.seen("start", mode)
        m.free()

    def pause(rng, i):
        n = rng.choice((600, 1200, 3000))
        sc = vm.Script(pl, rng.randrange(2), vm.random_ops(rng, n))
        m = vm.VM(pl, rng.getrandbits(30), 1 << 20, (vm.RX, vm.TICK, vm.KEY, vm.MLI, vm.ANOM))
        m.net(sc.data)
        keys, t = [], 0
        pairs = rng.randrange(1, 4)
        for _ in range(pairs):
            t += rng.randrange(25000, 120000) + (rng.randrange(20000, 500000) if not keys else 0)
            d = rng.choice((45000, 100000, 1000000, 5000000)) + rng.randrange(1000)
            if not keys:
                # the keyboard is not looked at while the screens are cleared;
                # a key is only seen if none follows before they are
                d = max(d, 420000)
            keys += [(t, rng.randrange(128)), (t + d, rng.randrange(128))]
            t += d
        end = t + n * 74 + 2000000
        m.keys(keys + [(end, 0x1b)])
        h = m.run(end + 100000)
        log = m.log()
        if h != vm.ATMLI:
            raise Violation("pause", "player does not quit: %s" % m.state())
        m.check_anomalies()
        if m.get(vm.NEXT) != sc.term + 2:
            raise Violation("pause", "%d bytes read of %d" % (m.get(vm.NEXT), sc.term + 2))
        want = sc.screens()
        for b in (0, 1) if sc.mode else (0,):
            if (m.screen(b) != want[b]).any():
                raise Violation("pause", "pausing changes the picture")
        # activity between keys: at most one block after the pausing key,
        # none until the resuming key, immediately after it again
        rx = log[log["kind"] == vm.RX]
        cyc = rx["cyc"].tolist()
        last = cyc[-1]
        tick = log[log["kind"] == vm.TICK]["cyc"].tolist()
        for p in range(0, len(keys), 2):
            a, b = keys[p][0], keys[p + 1][0]
            if a >= last - 22000:
                break           # no further block starts: nothing to pause
            if a < cyc[0]:
                a = max(a, cyc[0])
            limit = a + 24000 + (140000 * 2 if a <= cyc[8] else 0)
            during = [c for c in cyc + tick if limit < c < b]
            if during:
                raise Violation("pause", "player still active %d cycles after the pausing key" % (during[0] - a))
            # the strobe is read in a short loop
            back = [c for c in cyc if b <= c <= b + 200]
            if b > limit and not back:
                raise Violation("resume", "player does not resume at the second key")
            if b > limit:
                ctx.count("pauses")
                ctx.seen("pause", sc.mode, p)
        ctx.count("runs_with_pauses")
        m.free()

    def leave(rng, i):
        sc = vm.Script(pl, rng.randrange(2), vm.random_ops(rng, rng.choice((0, 3, 291, 700))))
        end = 300000 + 150000 * sc.mode + len(sc.ops) * 74 + 200000
        m = vm.VM(pl, rng.getrandbits(30), 1 << 18, (vm.MLI, vm.KEY, vm.ANOM, vm.TICK))
        if i % 2:
            # key after TERMINATE
            m.net(sc.data)
            k = end + rng.randrange(3000000)
            t = pl.byname[("terminate",)]
            m.stop(t)
            keys = [(k, rng.randrange(128))]
            h = m.run(end)
            if h != vm.STOP:
                raise Violation("end", "TERMINATE is not reached: %s" % m.state())
            ticks = m.get(vm.TICKS)
            h = m.run(k - 1)
            if h != vm.MAXCYC:
                raise Violation("end", "player leaves without a key: %s" % m.state())
            if m.get(vm.TICKS) != ticks:
                raise Violation("end", "the speaker is still driven after TERMINATE")
            m.keys(keys)
            h = m.run(k + 5000)
            if h != vm.ATMLI:
                raise Violation("end", "a key after TERMINATE does not quit: %s" % m.state())
            quit_ok(m, m.log(), ctx)
            ctx.seen("key", sc.mode, len(sc.ops))
        else:
            sched = vm.random_schedule(rng, len(sc.data))[1] if rng.random() < 0.5 else None
            m.net(sc.data, sched)
            m.attempts([0] * rng.choice((0, 0, 2)) + [1])
            # RESET at any time once the vector is set
            t = rng.choice((rng.randrange(60, 3000), rng.randrange(60, 700000), rng.randrange(60, end + 50000)))
            h = m.run(t)
            ram = m.ram()
            if ram[0x3f4] != ram[0x3f3] ^ 0xa5:
                raise Violation("reset", "RESET at cycle %d would not be taken" % t)
            m.reset()
            h = m.run(m.get(vm.CYC) + 5000)
            if h != vm.ATMLI:
                raise Violation("reset", "RESET at cycle %d does not quit: %s" % (t, m.state()))
            quit_ok(m, m.log(), ctx)
            ctx.count("resets")
            ctx.seen("reset", sc.mode, min(t // 50000, 10))
        m.free()

    def latched(rng, i):
        """A key already latched when TERMINATE starts must not quit."""
        sc = vm.Script(pl, rng.randrange(2), vm.random_ops(rng, 20))
        m = vm.VM(pl, rng.getrandbits(30), 1 << 16, (vm.MLI, vm.ANOM))
        m.net(sc.data)
        m.stop(pl.byname[("terminate",)])
        if m.run(10 ** 7) != vm.STOP:
            raise Violation("end", "TERMINATE is not reached: %s" % m.state())
        m.latch(0x41)
        if m.run(m.get(vm.CYC) + 200000) != vm.MAXCYC:
            raise Violation("end", "a key pressed before TERMINATE quits at once")
        m.latch(0x42)
        if m.run(m.get(vm.CYC) + 5000) != vm.ATMLI:
            raise Violation("end", "a key after TERMINATE does not quit: %s" % m.state())
        quit_ok(m, m.log(), ctx)
        ctx.count("latched")
        ctx.seen("latched", sc.mode)
        m.free()

    kinds = dict(connect=connect, start=start, pause=pause, leave=leave, latched=latched)

    def job(j):
        with ctx.guard(scenario=j[0], n=j[1]):
            kinds[j[0]](ctx.rng(*j), j[1])
            ctx.count("evaluations")

    s = ctx.scale(1, 12)
    ctx.pmap(job, [("connect", i) for i in range(24 * s)] + [("start", i) for i in range(20 * s)] +
             [("pause", i) for i in range(24 * s)] + [("leave", i) for i in range(60 * s)] + [("latched", i) for i in range(4 * s)])
    for n in ("commands_checked", "connected", "gave_up", "open_failures", "starts", "pauses", "quits", "resets", "latched"):
        ctx.need(n, 2)
