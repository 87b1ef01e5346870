"""Evaluations: speaker intervals of the assembled player measured in cycles on
the 6502 machine while it plays streams of every opcode with random operands
and successors, with data always available and with arbitrary arrival timing
and pauses.  Distinct = distinct (opcode, opcode that follows)."""
import numpy as np
import core, vm
from core import Violation

WIDTH = {22: 21, 40: 39}        # the documented one-cycle deviations
ACK = [34, 39, 34, 39]          # two periods with the pulse of level zero
ASSUMPTIONS = ["NMOS 6502 cycle counts at a constant clock; no stretched cycles"]


def walk(sc, rows, always):
    """Compares the speaker accesses with the script.  rows: [(cycle, pos)]."""
    n_ops = n_ack = 0
    i = 0
    # everything before the first opcode's first access is start-up
    first = sc.start[0] + 2 if sc.ops else sc.term + 2
    while i < len(rows) and rows[i][1] < first:
        i += 1
    if always and i != 2:
        raise Violation("startup", "%d speaker accesses before the first opcode, expected 2" % i)
    ackpos = dict((p, k) for k, (p, _) in enumerate(sc.acks))
    prev = None
    for n, op in enumerate(sc.ops):
        w = WIDTH.get(op[0], op[0])
        if i + 1 >= len(rows):
            raise Violation("missing", "opcode %d (tick %d page %d) has %d speaker accesses" % (n, op[0], op[1], len(rows) - i))
        t0, t1 = rows[i][0], rows[i + 1][0]
        if prev is not None and t0 - prev != 73:
            raise Violation("period", "opcode before %d (tick %d page %d) takes %d cycles" % (n, sc.ops[n - 1][0], sc.ops[n - 1][1], t0 - prev))
        if t1 - t0 != w:
            raise Violation("pulse", "opcode %d (tick %d page %d): accesses %d cycles apart, expected %d" % (n, op[0], op[1], t1 - t0, w))
        prev = t0
        i += 2
        n_ops += 1
        end = sc.start[n] + 7
        if end in ackpos:
            j = i
            while j < len(rows) and rows[j][1] <= end + 4:
                j += 1
            mine = [r[0] for r in rows[i:j]]
            # the next opcode's first access ends the path (TERMINATE has none)
            nxt = rows[j][0] if n + 1 < len(sc.ops) and j < len(rows) else None
            if not mine:
                raise Violation("ack-missing", "no speaker access in the ACK at %d" % end)
            if mine[0] - prev != 73:
                raise Violation("period", "opcode before the ACK at %d (tick %d page %d) takes %d cycles" % (end, op[0], op[1], mine[0] - prev))
            gaps = np.diff(mine + ([nxt] if nxt is not None else [])).tolist()
            if always:
                want = ACK[:len(gaps)] if nxt is None else ACK
                if gaps != want or len(mine) != 4:
                    raise Violation("ack", "speaker intervals in the ACK path at %d are %r, expected %r" % (end, gaps, want))
            n_ack += 1
            prev = None
            i = j
    if i != len(rows):
        raise Violation("extra", "%d speaker accesses after the last opcode" % (len(rows) - i))
    return n_ops, n_ack


def play(ctx, pl, rng, sc, sched, keys, kinds):
    m = vm.VM(pl, rng.getrandbits(30), 1 << 20, (vm.TICK, vm.ANOM))
    m.net(sc.data, sched)
    budget = vm.cycle_budget(len(sc.data), sched or [(0, 0)]) + (keys[-1][0] if keys else 0)
    ended, budget = vm.closing(keys, budget, len(sc.data))
    m.keys(ended)
    h = m.run(budget)
    log = m.log()
    st = m.state()
    anom = m.get(vm.ANOMALIES)
    m.free()
    if h != vm.ATMLI:
        raise Violation("run", "player does not reach the end of the stream: %s" % st)
    if anom:
        raise Violation("run", "player misreads the stream: %s" % st)
    log = log[log["kind"] == vm.TICK]
    return list(zip(log["cyc"].tolist(), log["pos"].tolist()))


def run(ctx):
    core.setup_transcoder(ctx.scratch)
    pl = vm.player(ctx)
    if pl.missing():
        raise Violation("label", "the assembled player lacks %r" % (pl.missing()[:5],))

    def job(i):
        rng = ctx.rng(i)
        always = i % 3 != 2
        n = ctx.scale(6000, 20000)
        kind = rng.choice(["all", "all", "one", "pair", "edge"])
        if kind == "one":
            ops = vm.random_ops(rng, n, [rng.choice(range(4, 68, 2))])
        elif kind == "pair":
            ops = vm.random_ops(rng, n, rng.sample(range(4, 68, 2), 2), rng.sample(range(32, 64), 3))
        elif kind == "edge":
            ops = vm.random_ops(rng, n, [4, 6, 8, 22, 40, 64, 66, 52, 16, 18, 34])
        else:
            ops = vm.random_ops(rng, n)
        if rng.random() < 0.3:
            ops = ops[:rng.choice((1, 2, 290, 291, 292, 582, 583))]
        sc = vm.Script(pl, rng.randrange(2), ops)
        sched, keys = None, []
        if not always:
            _, sched = vm.random_schedule(rng, len(sc.data))
            t = 400000
            for _ in range(rng.randrange(0, 6)):
                t += rng.randrange(50000, 900000)
                keys.append((t, rng.randrange(32, 127)))
            if len(keys) % 2:
                keys.append((t + 100000, 65))
        with ctx.guard(kind=kind, always=always, ops=len(ops)):
            a, b = walk(sc, play(ctx, pl, rng, sc, sched, keys, None), always)
            ctx.count("opcodes_timed", a)
            ctx.count("ack_paths_timed" if always else "ack_paths_delayed", b)
            for x, y in zip(ops, ops[1:]):
                ctx.seen(x[0], x[1], y[0])

    # every opcode followed by every duty cycle's opcode
    def successors(i):
        rng = ctx.rng("succ", i)
        duties = list(range(4, 68, 2))
        ops = []
        for p in range(32, 64)[i::8]:
            for d in duties:
                for e in duties:
                    ops.append((d, p, 255, (0, 255, 128, 1)))
                    ops.append((e, rng.randrange(32, 64), 0, (255, 255, 255, 255)))
        sc = vm.Script(pl, 1, ops)
        with ctx.guard(kind="successors"):
            a, b = walk(sc, play(ctx, pl, rng, sc, None, [], None), True)
            ctx.count("opcodes_timed", a)
            ctx.count("ack_paths_timed", b)
            for x, y in zip(ops, ops[1:]):
                ctx.seen(x[0], x[1], y[0])

    ctx.pmap(job, range(ctx.scale(32, 320)))
    ctx.pmap(successors, range(8))
    ctx.need("opcodes_timed", 50000)
    ctx.need("ack_paths_timed", 100)
    ctx.need("ack_paths_delayed", 20)
