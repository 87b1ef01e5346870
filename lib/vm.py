"""The assembled player on the 6502 + network card machine of a2vm.c."""
import ctypes, struct
import numpy as np
import core, decode
from core import Violation, Inconclusive

TICK, STORE, SS, WREG_W, WREG_R, RX, PC, COUT, MLI, HGR0, KEY, ANOM, CMD, KBDREAD, DELIVER = range(1, 16)
BRK, ATMLI, ILLEGAL, MAXCYC, LOGFULL, STOP = range(1, 7)
HALTS = {1: "BRK", 2: "MLI call", 3: "illegal instruction", 4: "cycle limit", 5: "log full", 6: "stop address"}
ANOMALY = {1: "read of a byte that has not been received", 2: "stream byte skipped or read out of order",
           3: "bytes acknowledged before they were read", 4: "acknowledged beyond the received data",
           5: "illegal instruction", 6: "network card accessed without auto-increment", 7: "read of the transmit buffer",
           8: "buffer access while not connected"}
EV = np.dtype([("cyc", "<u8"), ("pos", "<u4"), ("addr", "<u2"), ("kind", "u1"), ("val", "u1")])
CYC, PCREG, INSTRS, TICKS, RXREADS, ANOMALIES, NEXT, ACKED, DELIVERED, PAGE2, STORE80, HIRES, TEXT, MIXED, COL80, \
    DHIRES, ATTEMPT, MAXRX, X, STATUS, WMODE, KBD, IKEY, HALTED, S, STORES, RXRD = range(27)
LOAD = 0x800

_lib = None
_player = None


def lib():
    global _lib
    if _lib is None:
        l = core.clib("a2vm")
        l.vm_new.restype = ctypes.c_void_p
        l.vm_new.argtypes = [ctypes.c_int64, ctypes.c_uint64]
        for f in ("vm_log", "vm_mem", "vm_aux", "vm_w"):
            getattr(l, f).restype = ctypes.c_void_p
            getattr(l, f).argtypes = [ctypes.c_void_p]
        for f in ("vm_free", "vm_clearlog", "vm_reset"):
            getattr(l, f).restype = None
            getattr(l, f).argtypes = [ctypes.c_void_p]
        l.vm_nlog.restype = ctypes.c_int64
        l.vm_nlog.argtypes = [ctypes.c_void_p]
        l.vm_get.restype = ctypes.c_uint64
        l.vm_get.argtypes = [ctypes.c_void_p, ctypes.c_int]
        l.vm_run.argtypes = [ctypes.c_void_p, ctypes.c_uint64]
        l.vm_load.argtypes = [ctypes.c_void_p, ctypes.c_uint16, ctypes.c_void_p, ctypes.c_int64]
        l.vm_setpc.argtypes = [ctypes.c_void_p, ctypes.c_uint16]
        l.vm_mask.argtypes = [ctypes.c_void_p, ctypes.c_uint32]
        l.vm_latch.argtypes = [ctypes.c_void_p, ctypes.c_uint8]
        l.vm_latch.restype = None
        l.vm_watch.argtypes = l.vm_stop.argtypes = [ctypes.c_void_p, ctypes.c_uint16, ctypes.c_int]
        l.vm_net.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int64, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int64]
        l.vm_att.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int32, ctypes.c_void_p]
        l.vm_keys.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int32]
        _lib = l
    return _lib


class Player:
    """The player assembled from the tree: memory image, labels, entry points."""

    def __init__(self, scratch):
        img, self.dbg = core.build_player(scratch)
        if img[:4] != b"\x00\x05\x16\x00":
            raise Inconclusive("player binary has no AppleSingle header")
        n = struct.unpack(">H", img[24:26])[0]
        off = ln = None
        for i in range(n):
            k, o, l = struct.unpack(">III", img[26 + 12 * i:38 + 12 * i])
            if k == 1:
                off, ln = o, l
        if off is None:
            raise Inconclusive("player binary has no data fork")
        self.code = img[off:off + ln]
        self.labels = decode.parse_dbg(self.dbg)
        self.entries = decode.entry_points(self.labels)
        self.byname = {}
        for a, k in sorted(self.entries.items()):
            self.byname.setdefault(k, a)

    def missing(self):
        want = [("tick", t, p) for t in range(4, 68, 2) for p in range(32, 64)] + [("ack",), ("terminate",)]
        return [k for k in want if k not in self.byname]


def player(ctx):
    global _player
    if _player is None:
        _player = Player(ctx.scratch)
        lib()
    return _player


def mask(*kinds):
    m = 0
    for k in kinds:
        m |= 1 << k
    return m


class VM:
    def __init__(self, pl, seed, cap=1 << 20, kinds=()):
        self.l = lib()
        self.pl = pl
        self.v = self.l.vm_new(cap, seed & 0x7fffffff)
        self.keep = []
        self.l.vm_load(self.v, LOAD, self._p(np.frombuffer(pl.code, dtype=np.uint8)), len(pl.code))
        self.l.vm_setpc(self.v, LOAD)
        self.l.vm_mask(self.v, mask(*kinds))

    def _p(self, a):
        a = np.ascontiguousarray(a)
        self.keep.append(a)
        return a.ctypes.data

    def net(self, stream, sched=None):
        """sched: [(cycle, number of bytes)]; default everything at once."""
        s = np.frombuffer(bytes(stream), dtype=np.uint8)
        sched = sched or [(0, len(s))]
        t = np.array([a for a, _ in sched], dtype=np.uint64)
        k = np.array([b for _, b in sched], dtype=np.int64)
        self.l.vm_net(self.v, self._p(s), len(s), self._p(t), self._p(k), len(sched))

    def attempts(self, results, delays=None, opens=None):
        n = len(results)
        r = np.array(results, dtype=np.int32)
        d = np.array(delays or [0] * n, dtype=np.uint64)
        o = self._p(np.array(opens, dtype=np.int32)) if opens is not None else None
        self.l.vm_att(self.v, self._p(r), self._p(d), n, o)

    def keys(self, ks):
        t = np.array([a for a, _ in ks], dtype=np.uint64)
        k = np.array([b for _, b in ks], dtype=np.uint8)
        self.l.vm_keys(self.v, self._p(t), self._p(k), len(ks))

    def latch(self, k):
        self.l.vm_latch(self.v, k)

    def setpc(self, a):
        self.l.vm_setpc(self.v, a)

    def stop(self, a, on=True):
        self.l.vm_stop(self.v, a, int(on))

    def watch(self, a, on=True):
        self.l.vm_watch(self.v, a, int(on))

    def mask(self, *kinds):
        self.l.vm_mask(self.v, mask(*kinds))

    def run(self, maxcyc):
        return self.l.vm_run(self.v, int(maxcyc))

    def reset(self):
        self.l.vm_reset(self.v)

    def get(self, what):
        return int(self.l.vm_get(self.v, what))

    def log(self, clear=False):
        n = self.l.vm_nlog(self.v)
        if not n:
            return np.zeros(0, dtype=EV)
        buf = (ctypes.c_char * (n * EV.itemsize)).from_address(self.l.vm_log(self.v))
        a = np.frombuffer(bytes(buf), dtype=EV)
        if clear:
            self.l.vm_clearlog(self.v)
        return a

    def ram(self, aux=False):
        p = self.l.vm_aux(self.v) if aux else self.l.vm_mem(self.v)
        return np.frombuffer(bytes((ctypes.c_char * 65536).from_address(p)), dtype=np.uint8)

    def screen(self, aux=False):
        return self.ram(aux)[0x2000:0x4000].reshape(32, 256)

    def free(self):
        if self.v:
            self.l.vm_free(self.v)
            self.v = None

    def state(self):
        return "pc=%04x cycle=%d read=%d halted=%s" % (self.get(PCREG), self.get(CYC), self.get(NEXT), HALTS.get(self.get(HALTED)))

    def check_anomalies(self):
        if self.get(ANOMALIES):
            a = [e for e in self.log() if e["kind"] == ANOM]
            if a:
                e = a[0]
                raise Violation("network:%d" % e["val"], "%s (address %04x, stream byte %d)" % (
                    ANOMALY.get(int(e["val"]), "anomaly"), e["addr"], e["pos"]), count=len(a))
            raise Violation("network", "%d anomalies" % self.get(ANOMALIES))


def close(vm):
    vm.free()


# ------------------------------------------------------------------ streams
class Script:
    """A synthetic stream: ops[i] = (duty, page, content, offsets)."""

    def __init__(self, pl, mode, ops, acks=None, tail=0):
        e = pl.byname
        out = bytearray([255] * 6 + [mode])
        self.mode, self.ops = mode, []
        self.bank_of = []
        self.acks = []
        bank = 0
        acks = acks or (lambda i: (1 - self.cur) if mode else 0)
        self.cur = 0
        start = []
        for op in ops:
            if len(out) % 2048 == 2044:
                self._ack(out, e, acks)
            start.append(len(out))
            a = e[("tick", op[0], op[1])]
            out += bytes((a >> 8, a & 255, op[2])) + bytes(op[3])
            self.ops.append(op)
            self.bank_of.append(self.cur)
        if len(out) % 2048 == 2044:
            self._ack(out, e, acks)
        self.term = len(out)
        a = e[("terminate",)]
        out += bytes((a >> 8, a & 255))
        out += bytes(-len(out) % 2048)
        self.start = start
        self.data = bytes(out)

    def _ack(self, out, e, acks):
        b = acks(len(self.acks))
        a = e[("ack",)]
        self.acks.append((len(out), b))
        out += bytes((a >> 8, a & 255, 0x54 + b, 0xff))
        self.cur = b

    def screens(self):
        m = [np.zeros((32, 256), dtype=np.uint8), np.zeros((32, 256), dtype=np.uint8)]
        for op, b in zip(self.ops, self.bank_of):
            t = m[b if self.mode else 0][op[1] - 32]
            for o in op[3]:
                t[o] = op[2]
        return m


def random_ops(rng, n, duties=range(4, 68, 2), pages=range(32, 64)):
    """Random opcodes; every (duty, page) gets its turn before any repeats."""
    duties, pages = list(duties), list(pages)
    pool, out = [], []
    for _ in range(n):
        if not pool:
            pool = [(d, p) for d in duties for p in pages]
            rng.shuffle(pool)
        d, p = pool.pop()
        if rng.random() < 0.15:
            o = rng.randrange(256)
            offs = (o, rng.choice((o, rng.randrange(256))), o, rng.randrange(256))
        else:
            offs = tuple(rng.randrange(256) for _ in range(4))
        c = rng.choice((0, 255, 0x80, rng.randrange(256), rng.randrange(256)))
        out.append((d, p, c, offs))
    return out


def random_schedule(rng, total, kind=None):
    """Arrival schedule of a stream: [(cycle, bytes)]."""
    kind = kind or rng.choice(["all", "fast", "slow", "bursts", "edge", "trickle", "stalls"])
    t, left, out = rng.randrange(0, 200000), total, []
    while left > 0:
        if kind == "all":
            n, dt = left, 0
        elif kind == "fast":
            n, dt = rng.randrange(1, 1461), rng.randrange(10, 9000)
        elif kind == "slow":
            n, dt = rng.randrange(1, 1461), rng.randrange(10000, 60000)
        elif kind == "bursts":
            n, dt = rng.randrange(1, 20000), rng.randrange(0, 300000)
        elif kind == "edge":
            n, dt = rng.choice((2047, 2048, 2049, 1, 255, 256, 257, 2046, 6, 7, 8)), rng.choice((0, 73, 21400, rng.randrange(40000)))
        elif kind == "trickle":
            n, dt = rng.randrange(1, 64), rng.randrange(20, 900)
        else:
            n, dt = rng.randrange(1000, 9000), rng.choice((1000, 20000, 1500000))
        n = min(n, left)
        out.append((t, n))
        left -= n
        t += dt
    return kind, out


def cycle_budget(script_len, sched):
    blocks = script_len // 2048 + 1
    return (sched[-1][0] if sched else 0) + blocks * 60000 + 4000000


def closing(keys, budget, script_len):
    """Adds the keys that end a run, and the cycles they need.  Two keys that
    fall between two looks at the keyboard (while nothing arrives, or the
    screens are cleared) are one to the player: where that leaves it paused,
    the first of these resumes it and the second one quits."""
    more = (script_len // 2048 + 1) * 60000 + 1000000
    return keys + [(budget - 400000, 0x51), (budget + more - 400000, 0x52)], budget + more
