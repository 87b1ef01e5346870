"""Evaluations: stream bytes read by the assembled player through the simulated
W5100 under arrival schedules from single bytes to whole streams, with stalls,
block-edge splits and key pauses; every read is checked for order, for having
been received and reported, every RECV command for the bytes it frees.
Distinct = distinct (schedule kind, block, buffer fill when the block was
started)."""
import numpy as np
import core, vm
from core import Violation


def monitor(ctx, sc, log, kind):
    recvs = 0
    reported = 0            # end of what the chip has reported as received
    nxt = 0
    rd = None
    hi = lo = None
    prevrd = 0
    for k, a, v, p in zip(*(log[f].tolist() for f in ("kind", "addr", "val", "pos"))):
        if k == vm.WREG_R:
            if a == 0x426:
                hi = v
                reported = max(reported, recvs * 2048 + v * 256)
            elif a == 0x427 and hi is not None:
                reported = max(reported, recvs * 2048 + hi * 256 + v)
        elif k == vm.WREG_W:
            if a == 0x428:
                rd = (prevrd & 0xff) | v << 8 if rd is None else (rd & 0xff) | v << 8
            elif a == 0x429:
                rd = (prevrd & 0xff00) | v if rd is None else (rd & 0xff00) | v
        elif k == vm.CMD and v == 0x40:
            if rd is None:
                raise Violation("free", "RECV number %d without a new read pointer" % recvs)
            d = (rd - prevrd) & 0xffff
            if d != 2048:
                raise Violation("free", "RECV number %d frees %d bytes" % (recvs, d))
            if p < (recvs + 1) * 2048:
                raise Violation("early-ack", "block %d acknowledged after reading only %d bytes" % (recvs, p))
            prevrd, rd = rd, None
            recvs += 1
            ctx.count("blocks_freed")
        elif k == vm.RX:
            if p != nxt:
                raise Violation("order", "read of stream byte %d, expected %d" % (p, nxt))
            need = 7 if p < 7 else (p // 2048 + 1) * 2048
            if reported < need:
                raise Violation("unreported", "byte %d read when the chip had reported only %d bytes" % (p, reported))
            if v != sc.data[p]:
                raise Violation("value", "byte %d read as %02x" % (p, v))
            nxt += 1
            if p % 2048 == 0 or p == 7:
                ctx.seen(kind, min(p // 2048, 60), hi)
            if p // 2048 < recvs:
                raise Violation("reread", "byte %d read after its block was freed" % p)
    return nxt, recvs


def run(ctx):
    core.setup_transcoder(ctx.scratch)
    pl = vm.player(ctx)
    if pl.missing():
        raise Violation("label", "the assembled player lacks %r" % (pl.missing()[:5],))

    def job(i):
        rng = ctx.rng(i)
        long = i % 8 == 7
        # one long stream wraps the 16-bit read pointer several times
        blocks = ctx.scale(rng.choice((120, 200)), rng.choice((400, 1500))) if long else rng.choice((1, 2, 3, 5, 9, 20, 40))
        n = blocks * 291 - rng.choice((0, 1, 2, 150, 289, 290))
        if rng.random() < 0.1:
            n = rng.choice((0, 1))
        sc = vm.Script(pl, rng.randrange(2), vm.random_ops(rng, max(0, n)))
        kind, sched = vm.random_schedule(rng, len(sc.data), rng.choice(("fast", "all", "edge", "bursts")) if long else None)
        keys = []
        budget = vm.cycle_budget(len(sc.data), sched)
        if not long and rng.random() < 0.3:
            t = rng.randrange(200000, 900000)
            for _ in range(2 * rng.randrange(1, 4)):
                keys.append((t, rng.randrange(128)))
                t += rng.randrange(30000, 2000000)
            budget += t
        m = vm.VM(pl, rng.getrandbits(30), 1 << 21 if not long else 1 << 22,
                  (vm.RX, vm.WREG_R, vm.WREG_W, vm.CMD, vm.ANOM) if not long else (vm.WREG_R, vm.WREG_W, vm.CMD, vm.ANOM))
        m.net(sc.data, sched)
        ended, budget = vm.closing(keys, budget, len(sc.data))
        m.keys(ended)
        # status polling at the end would fill the log: stop at the door
        t = pl.byname[("terminate",)]
        m.stop(t)
        with ctx.guard(schedule=kind, blocks=len(sc.data) // 2048, ops=len(sc.ops), keys=len(keys)):
            h = m.run(budget)
            if h == vm.LOGFULL:
                # long stalls fill the log with polls: go on without it
                ctx.count("logs_cut")
                m.mask(vm.ANOM)
                m.log()
                h = m.run(budget)
            log = m.log()
            m.check_anomalies()
            if h != vm.STOP:
                raise Violation("stuck", "player does not reach TERMINATE: %s, delivered %d of %d" % (
                    m.state(), m.get(vm.DELIVERED), len(sc.data)))
            got = m.get(vm.NEXT)
            if got != sc.term + 2:
                raise Violation("count", "%d bytes read, stream has %d up to TERMINATE" % (got, sc.term + 2))
            if m.get(vm.ACKED) != 2048 * len(sc.acks):
                raise Violation("free", "%d bytes freed for %d blocks" % (m.get(vm.ACKED), len(sc.acks)))
            a, b = monitor(ctx, sc, log, kind)
            want = sc.screens()
            for bank in (0, 1) if sc.mode else (0,):
                if (m.screen(bank) != want[bank]).any():
                    raise Violation("screen", "screen bank %d is not what the stream says" % bank)
            ctx.count("bytes_read", got)
            ctx.count("bytes_monitored", a)
            ctx.count("streams")
            ctx.count("schedule_" + kind)
            ctx.extra["max"] = 0
            if got > 65536:
                ctx.count("pointer_wraps", got // 65536)
            if m.get(vm.MAXRX) >= 8192:
                ctx.count("buffer_full")
        m.free()

    ctx.pmap(job, range(ctx.scale(96, 800)))
    ctx.extra.pop("max", None)
    ctx.need("bytes_monitored", 100000)
    ctx.need("pointer_wraps", 2)
    ctx.need("blocks_freed", 100)
