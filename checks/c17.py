"""Evaluations: opcode addresses used by the transcoder compared with the
assembled player's labels and with what the player does there (streams encoded
by the transcoder's own opcode classes, run on the 6502 machine, speaker and
store events compared with the opcode's name), and symbol files with shuffled,
extra, blank, CRLF and re-spaced lines, moved opcodes and missing opcodes.
Distinct = distinct opcodes, symbol file variants and missing opcodes."""
import io, os, shutil, sys
import numpy as np
import core, decode, vm
from core import Violation

WIDTH = {22: 21, 40: 39}


def all_ops(op):
    out = {("tick", t, p): c for (t, p), c in op.TICK_OPCODES.items()}
    out[("ack",)], out[("terminate",)], out[("nop",)] = op.Ack, op.Terminate, op.Nop
    return out


def label(k):
    return "op_tick_%d_page_%d" % k[1:] if k[0] == "tick" else "op_" + k[0]


def encode(o):
    return list(o.emit_command(o)) + list(o.emit_data() or ())


def addr(o):
    b = list(o.emit_command(o))
    if len(b) != 2:
        raise Violation("length", "%r encodes %d address bytes" % (o, len(b)))
    return b[0] << 8 | b[1]


def instance(k, cls, rng):
    if k[0] == "tick":
        return cls(rng.randrange(256), tuple(rng.randrange(256) for _ in range(4)))
    if k[0] == "ack":
        return cls(rng.random() < 0.5)
    return cls()


def addresses(op, rng):
    return {k: addr(instance(k, c, rng)) for k, c in all_ops(op).items()}


def labels_of(ctx, pl):
    import opcodes as op
    rng = ctx.rng("labels")
    got = addresses(op, rng)
    want = [("tick", t, p) for t in range(4, 68, 2) for p in range(32, 64)]
    for k in want:
        if k not in got:
            raise Violation("kinds", "the transcoder has no opcode %r" % (k,))
    rev = {}
    for k, a in sorted(got.items()):
        l = label(k)
        if l not in pl.labels:
            raise Violation("label", "the assembled player has no %s" % l)
        if pl.labels[l] != a:
            raise Violation("address", "%s is encoded as %04x, the assembled player has it at %04x" % (l, a, pl.labels[l]))
        if a in rev:
            raise Violation("shared", "%s and %s share address %04x" % (l, label(rev[a]), a))
        rev[a] = k
        ctx.count("addresses")
        ctx.seen("addr", k)
    com = decode.parse_dbg(os.path.join(core.REPO, "player", "iivision.dbg"))
    for l, v in pl.labels.items():
        if l.startswith("op_") and com.get(l) != v:
            raise Violation("committed", "committed symbol file has %s at %r, assembled player at %04x" % (l, com.get(l), v))
        ctx.count("committed_labels", l.startswith("op_"))
    for l in com:
        if l.startswith("op_") and l not in pl.labels:
            raise Violation("committed", "committed symbol file lists %s, the player does not have it" % l)
    return got


def behaviour(ctx, pl, rep):
    """What the player does at each encoded address."""
    import opcodes as op
    rng = ctx.rng("behaviour", rep)
    T = op.TICK_OPCODES
    ks = [(t, p) for t in range(4, 68, 2) for p in range(32, 64)]
    rng.shuffle(ks)
    out, ops = bytearray([255] * 6 + [1]), []
    for k in ks:
        while len(out) % 2048 == 2044:
            out += bytes(encode(op.Ack(rng.random() < 0.5)))
        o = T[k](rng.randrange(256), tuple(rng.sample(range(256), 4)))
        ops.append((k, o))
        b = encode(o)
        if len(b) != 7:
            raise Violation("length", "%r encodes to %d bytes" % (k, len(b)))
        out += bytes(b)
    while len(out) % 2048 == 2044:
        out += bytes(encode(op.Ack(False)))
    out += bytes(encode(op.Terminate()))
    out += bytes(-len(out) % 2048)
    m = vm.VM(pl, rep + 7, 1 << 18, (vm.TICK, vm.STORE, vm.RX, vm.ANOM, vm.SS))
    m.net(out)
    m.keys([(10 ** 7, 0x41)])
    h = m.run(2 * 10 ** 7)
    if h != vm.ATMLI:
        raise Violation("run", "stream of every opcode does not run to TERMINATE: %s" % m.state())
    m.check_anomalies()
    log = m.log()
    m.free()
    # the n-th opcode's content byte is at a known position in the stream
    pos, st = [], 7
    for _ in ops:
        if st % 2048 == 2044:
            st += 4
        pos.append(st)
        st += 7
    rows = list(zip(log["kind"].tolist(), log["addr"].tolist(), log["val"].tolist(), log["pos"].tolist(), log["cyc"].tolist()))
    ticks = [(r[4], r[3]) for r in rows if r[0] == vm.TICK]
    scr = [r for r in rows if r[0] == vm.STORE and 0x2000 <= r[1] < 0x4000]
    cleared = [r for r in rows if r[0] == vm.RX and r[3] == 9]
    scr = [r for r in scr if r[4] > cleared[0][4]]
    byk = {}
    i = 0
    first = {p + 2: n for n, p in enumerate(pos)}
    j = 0
    tick_of = {}
    for n, p in enumerate(pos):
        while j < len(ticks) and ticks[j][1] < p + 2:
            j += 1
        # an opcode ticks first just after its address has been read
        if n and pos[n - 1] + 7 == p:
            t0 = tick_of[n - 1] + 73
        else:
            t0 = next(t for t, q in ticks if q == p + 2)
        tick_of[n] = t0
    tset = sorted(t for t, _ in ticks)
    import bisect
    for n, (k, o) in enumerate(ops):
        t0 = tick_of[n]
        a = bisect.bisect_left(tset, t0)
        mine = tset[a:a + 2]
        w = WIDTH.get(k[0], k[0])
        if len(mine) < 2 or mine[0] != t0 or mine[1] - mine[0] != w:
            raise Violation("pulse", "the code at the address of tick %d page %d pulses the speaker at %r, not %d cycles apart" % (
                k[0], k[1], [x - t0 for x in mine], k[0]))
        s = scr[4 * n:4 * n + 4]
        if [r[1] >> 8 for r in s] != [k[1]] * 4 or any(r[2] != o.content for r in s) or sorted(r[1] & 255 for r in s) != sorted(o.offsets):
            raise Violation("page", "the code at the address of tick %d page %d stores %r" % (k[0], k[1], [(hex(r[1]), r[2]) for r in s]))
        ctx.count("opcodes_executed")
    for b in (0, 1):
        e = encode(op.Ack(bool(b)))
        if e[2:3] != [0x54 + b] or len(e) != 4:
            raise Violation("ack", "Ack(%r) encodes as %r" % (bool(b), e))


def variant(rng, lines):
    """A rearranged symbol file with the same opcode symbols."""
    lines = list(lines)
    kind = set(rng.sample(["shuffle", "extra", "blank", "crlf", "spaces", "trail", "move", "near", "order"], rng.randrange(1, 6)))
    moved = {}
    if "move" in kind:
        d = rng.randrange(1, 0x800)
        new = []
        for l in lines:
            f = l.split()
            if f[:1] == ["sym"] and 'name="op_' in l and "val=0x" in l:
                kv = f[1].split(",")
                for i, x in enumerate(kv):
                    if x.startswith("val="):
                        kv[i] = "val=0x%X" % (int(x[4:], 16) + d)
                l = "sym\t" + ",".join(kv)
            new.append(l)
        lines = new
    if "order" in kind:
        new = []
        for l in lines:
            f = l.split()
            if f[:1] == ["sym"]:
                kv = f[1].split(",")
                rng.shuffle(kv)
                l = "sym\t" + ",".join(kv)
            new.append(l)
        lines = new
    if "near" in kind:
        for nm in ("op_tick_4_page_3", "op_tick_4_page_321", "_op_tick_6_page_40", "op_acknowledge", "xop_ack", "op_tick_5_page_32", "OP_x"):
            lines.insert(rng.randrange(len(lines)), 'sym\tid=%d,name="%s",addrsize=absolute,scope=0,def=1,val=0x%X,seg=0,type=lab' % (
                rng.randrange(5000, 9000), nm, rng.randrange(65536)))
    if "extra" in kind:
        for _ in range(60):
            lines.insert(rng.randrange(len(lines)), rng.choice([
                'sym\tid=%d,name="imp%d",addrsize=absolute,scope=0,def=5,type=imp,exp=3' % (rng.randrange(9999), rng.randrange(99)),
                'type\tid=77,val="800920"', 'seg\tid=9,name="OP",start=0x0800,size=0x0000,addrsize=absolute,type=rw',
                'scope\tid=3,name="symbols",mod=0,size=0', 'file\tid=4,name="sym.s",size=10,mtime=0x5ED2ADF3,mod=0',
                'line\tid=99999,file=0,line=12', 'sym\tid=%d,name="equ%d",addrsize=zeropage,scope=0,def=7,val=0x%X,type=equ' % (
                    rng.randrange(9999), rng.randrange(999), rng.randrange(256)), 'lib\tid=1,name="/a b/c.lib"',
                'csym\tid=0,name="op_ack",scope=0,type=0,sc=auto']))
    if "shuffle" in kind:
        rng.shuffle(lines)
    if "blank" in kind:
        for _ in range(40):
            lines.insert(rng.randrange(len(lines) + 1), rng.choice(["", "", " ", "\t"]))
    if "spaces" in kind:
        lines = [l.replace("\t", rng.choice([" ", "  ", "\t", "\t\t", " \t"]), 1) for l in lines]
    if "trail" in kind:
        lines = [l + rng.choice(["", " ", "\t", "   "]) for l in lines]
    text = ("\r\n" if "crlf" in kind else "\n").join(lines) + rng.choice(["", "\n"])
    return sorted(kind), text


def expected(text):
    out = {}
    for l in text.replace("\r", "").split("\n"):
        f = l.split()
        if len(f) >= 2 and f[0] == "sym":
            d = dict(x.split("=", 1) for x in f[1].split(","))
            if d.get("type") == "lab" and "val" in d:
                out.setdefault(d["name"].strip('"'), []).append(int(d["val"], 16))
    return out


def fresh(ctx, text, rng, load_only=False):
    """Imports opcodes afresh against the given symbol file; returns addresses."""
    d = ctx.newdir("sym")
    os.makedirs(os.path.join(d, "player"))
    with open(os.path.join(d, "player", "iivision.dbg"), "w", newline="") as f:
        f.write(text)
    os.symlink(os.path.join(core.REPO, "transcoder"), os.path.join(d, "transcoder"))
    cwd = os.getcwd()
    os.chdir(d)
    saved = {n: sys.modules.pop(n) for n in list(sys.modules) if n in ("opcodes", "symbol_table", "machine", "video_mode", "video", "movie")}
    try:
        with core.quiet():
            import opcodes
            return None if load_only else addresses(opcodes, rng)
    finally:
        for n in ("opcodes", "symbol_table", "machine", "video_mode"):
            sys.modules.pop(n, None)
        sys.modules.update(saved)
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    core.setup_transcoder(ctx.scratch)
    pl = vm.player(ctx)
    if pl.missing():
        raise Violation("label", "the assembled player lacks %r" % (pl.missing()[:5],))
    got = labels_of(ctx, pl)
    lines = open(pl.dbg).read().split("\n")
    names = [label(k) for k in got] + ["op_header"]

    def job(j):
        kind, i = j
        rng = ctx.rng(kind, i)
        if kind == "vm":
            behaviour(ctx, pl, i)
            return
        import symbol_table
        if kind == "var":
            what, text = variant(rng, lines)
            exp = expected(text)
            p = os.path.join(ctx.newdir("f"), "x.dbg")
            with open(p, "w", newline="") as f:
                f.write(text)
            for src in ("file", "stream"):
                t = symbol_table.SymbolTable(p).parse() if src == "file" else symbol_table.SymbolTable().parse(io.StringIO(text))
                for n in names:
                    e = t.get('"%s"' % n)
                    if e is None or int(e["val"], 16) != exp[n][0]:
                        raise Violation("parse", "symbol %s read from a %s as %r, file says %04x" % (n, src, e, exp[n][0]), variant=what)
                    ctx.count("symbols_read")
            a = fresh(ctx, text, rng)
            for k, v in a.items():
                if v != exp[label(k)][0]:
                    raise Violation("address", "%s is encoded as %04x, its symbol file says %04x" % (label(k), v, exp[label(k)][0]), variant=what)
            ctx.count("variants")
            ctx.seen("variant", tuple(what))
        else:
            gone = i
            text = "\n".join(l for l in lines if not (l.startswith("sym") and 'name="%s"' % gone in l))
            if rng.random() < 0.5:
                text = variant(rng, text.split("\n"))[1]
            try:
                fresh(ctx, text, rng, True)
            except Exception:
                ctx.count("rejected")
                ctx.seen("missing", gone)
            else:
                raise Violation("missing", "a symbol file without %s is accepted" % gone)

    rng = ctx.rng("plan")
    miss = ["op_ack", "op_terminate", "op_nop", "op_header"] + rng.sample(names[:-4], ctx.scale(12, 200))
    jobs = [("vm", i) for i in range(ctx.scale(4, 40))] + [("var", i) for i in range(ctx.scale(24, 300))] + [("miss", n) for n in miss]
    ctx.pmap(job, jobs)
    ctx.need("opcodes_executed", 4096)
    ctx.need("variants", 8)
    ctx.need("rejected", 8)
