"""Shared by the demonstrations: runs the repository in the current directory
with everything it writes kept in a scratch directory that is removed again."""
import atexit, contextlib, io, os, shutil, struct, subprocess, sys, tempfile, types, wave

REPO = os.path.abspath(os.environ.get("DEMO_REPO") or os.getcwd())
SCRATCH = tempfile.mkdtemp(prefix="demo")
_OWNER = os.getpid()


@atexit.register
def _cleanup():
    if os.getpid() == _OWNER:
        os.chdir("/")
        shutil.rmtree(SCRATCH, ignore_errors=True)


def check(cond, msg):
    if not cond:
        sys.stderr.write("DEMO FAILS: %s\n" % (msg,))
        sys.stderr.flush()
        raise SystemExit(1)


def done(msg="ok"):
    sys.stderr.write("demo passes: %s\n" % msg)


@contextlib.contextmanager
def quiet():
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old


# ------------------------------------------------------------ transcoder
def _stubs():
    """numba and scikit-learn are not installed; librosa only imports them."""
    import numpy as np

    def ident(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return lambda f: f

    def vec(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return np.vectorize(a[0])
        return lambda f: np.vectorize(f)

    class T:
        def __getitem__(self, _):
            return self

        def __call__(self, *a, **k):
            return self
    nb = types.ModuleType("numba")
    nb.jit = nb.njit = nb.guvectorize = nb.stencil = ident
    nb.vectorize, nb.prange = vec, range
    for n in "void float32 float64 int32 int64 uint32 uint64 complex64 complex128 boolean b1 i8 f8".split():
        setattr(nb, n, T())
    nb.TypingError = type("TypingError", (Exception,), {})
    nb.__path__ = []
    sys.modules.setdefault("numba", nb)
    sk = types.ModuleType("sklearn")
    sk.__path__ = []
    sys.modules.setdefault("sklearn", sk)
    for n in ("decomposition", "cluster", "feature_extraction", "neighbors"):
        m = types.ModuleType("sklearn." + n)
        setattr(sk, n, m)
        sys.modules.setdefault("sklearn." + n, m)


def transcoder():
    """Makes the transcoder importable; it opens two paths relative to the
    current directory, which are linked into the scratch directory."""
    import warnings
    warnings.simplefilter("ignore")
    _stubs()
    os.makedirs(os.path.join(SCRATCH, "transcoder"), exist_ok=True)
    for a in ("player", "transcoder/data"):
        p = os.path.join(SCRATCH, a)
        if not os.path.lexists(p):
            os.symlink(os.path.join(REPO, a), p)
    os.chdir(SCRATCH)
    sys.path.insert(0, os.path.join(REPO, "transcoder"))
    sys.dont_write_bytecode = True


class Popcount:
    """Stand-in for the (large) edit distance tables: the number of differing
    bits of the two masked values."""

    def __init__(self, bits):
        import numpy as np
        self.np, self.bits = np, bits
        self.pc = np.array([bin(i).count("1") * 9 for i in range(1 << bits)], dtype=np.uint16)

    def __getitem__(self, o):
        return _Row(self)


class _Row:
    def __init__(self, t):
        self.t = t

    def __getitem__(self, pair):
        np = self.t.np
        p = np.asarray(pair).astype(np.int64)
        m = (1 << self.t.bits) - 1
        r = self.t.pc[(p >> self.t.bits) ^ (p & m)]
        return r


def popcount_tables():
    import screen
    for c in (screen.HGRBitmap, screen.DHGRBitmap):
        t = Popcount(int(c.MASKED_BITS))
        c.edit_distances = classmethod(lambda cls, *a, _t=t, **k: _t)


def wav(path, samples, rate=14700, channels=1):
    import numpy as np
    with wave.open(path, "wb") as w:
        w.setnchannels(channels)
        w.setsampwidth(2)
        w.setframerate(rate)
        w.writeframes(np.asarray(samples).astype("<i2").tobytes())


class Clip:
    """frames: list of (main, aux) uint8 arrays of 8192 bytes (aux None in HGR)"""
    def __init__(self, frames, fps=(30, 1)):
        self.frames, self.fps = frames, fps
        self.decoded = 0
        self.fail_at = None
        self.converted = []
        self.convert = None


CLIP = [None]


def media():
    """Stand-ins for ffmpeg, ffprobe and bmp2dhr, none of which is installed."""
    import numpy as np
    import skvideo.io

    class Reader:
        def __init__(self, *a, **k):
            self.clip = CLIP[0]

        def nextFrame(self):
            for k in range(len(self.clip.frames)):
                if self.clip.fail_at == k:
                    raise RuntimeError("cannot decode frame %d" % k)
                self.clip.decoded = k + 1
                a = np.zeros((16, 16, 3), dtype=np.uint8)
                a[:, :, 0], a[:, :, 1], a[:, :, 2] = k & 255, k >> 8, 77
                yield a
    skvideo.io.FFmpegReader = Reader
    skvideo.io.ffprobe = lambda *a, **k: {"video": {
        "@r_frame_rate": "%d/%d" % CLIP[0].fps, "@avg_frame_rate": "%d/%d" % CLIP[0].fps}}

    def convert(argv):
        from PIL import Image
        im = Image.open(argv[1]).convert("RGB")
        r, g, b = im.getpixel((140, 96))
        im.close()
        k = r | g << 8
        c = CLIP[0]
        base = os.path.splitext(argv[1])[0]
        c.converted.append((k, tuple(argv[2:])))
        main, aux = c.frames[k]
        outs = [(base + "C.BIN", main)] if argv[2] == "hgr" else [(base + ".BIN", main), (base + ".AUX", aux)]
        if c.convert:
            return c.convert(k, outs) or 0
        for p, d in outs:
            with open(p, "wb") as f:
                f.write(np.asarray(d, dtype=np.uint8).tobytes())
        return 0
    real = subprocess.Popen

    class P:
        def __init__(self, args, rc):
            self.args, self.returncode, self.pid = args, rc, 0
            self.stdin = self.stdout = self.stderr = None

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def wait(self, timeout=None):
            return self.returncode

        def poll(self):
            return self.returncode

        def communicate(self, input=None, timeout=None):
            return b"", b""

        def kill(self):
            pass

    class Popen(real):
        def __new__(cls, args, *a, **k):
            if isinstance(args, (list, tuple)) and os.path.basename(str(args[0])) == "bmp2dhr":
                return P(args, convert([str(x) for x in args]))
            return object.__new__(cls)
    subprocess.Popen = Popen


def encode(clip, samples, mode="HGR", rate=14700, name="clip.wav", **kw):
    """Transcodes; returns (movie object, byte iterator)."""
    import movie, palette, video_mode
    CLIP[0] = clip
    p = os.path.join(SCRATCH, name)
    wav(p, samples, rate)
    kw.setdefault("audio_normalization", 1.0)
    kw.setdefault("audio_bitrate", rate)
    with quiet():
        m = movie.Movie(p, video_mode=video_mode.VideoMode[mode], palette=palette.Palette[kw.pop("palette", "NTSC")], **kw)
    return m


def stream(m):
    with quiet():
        return bytes(bytearray(m.emit_stream(m.encode())))


def level_sample(l):
    """16-bit sample the encoder turns into level l (normalisation 1)."""
    return 0 if l == 0 else max(-32768, min(32767, (abs(l) * 1024 + 512) * (1 if l > 0 else -1)))


def blank():
    import numpy as np
    return np.zeros(8192, dtype=np.uint8)


def symbols(path=None):
    """Labels of a cc65 debug file."""
    out = {}
    for l in open(path or os.path.join(REPO, "player", "iivision.dbg")):
        if l.startswith("sym\t"):
            d = dict(kv.split("=", 1) for kv in l.split("\t")[1].strip().split(",") if "=" in kv)
            if "val" in d:
                out.setdefault(d["name"].strip('"'), int(d["val"], 16))
    return out


def decode(data, syms=None):
    """Independent decoder: list of ("tick", duty, page, content, offsets, bank, pos),
    ("ack", bank, pos), ("end", pos)."""
    syms = syms or symbols()
    by = {}
    for n, v in syms.items():
        if n.startswith("op_tick_"):
            _, _, d, _, p = n.split("_")
            by[v] = ("tick", int(d), int(p))
    ack, term = syms["op_ack"], syms["op_terminate"]
    out, pos, bank = [], 7, 0
    while True:
        a = data[pos] << 8 | data[pos + 1]
        if a == ack:
            check(pos % 2048 == 2044, "ACK at byte %d" % pos)
            bank = data[pos + 2] & 1
            out.append(("ack", bank, pos))
            pos += 4
        elif a == term:
            out.append(("end", pos))
            return out
        else:
            check(a in by, "no opcode at %04x (byte %d)" % (a, pos))
            check(pos % 2048 <= 2037, "opcode straddles block end at byte %d" % pos)
            _, d, p = by[a]
            out.append(("tick", d, p, data[pos + 2], tuple(data[pos + 3:pos + 7]), bank, pos))
            pos += 7


def screens(events, n=None, dhgr=True):
    """Screen memory (two 8192 byte arrays) after the first n opcodes."""
    m = [bytearray(8192), bytearray(8192)]
    i = 0
    for e in events:
        if e[0] == "tick":
            if n is not None and i >= n:
                break
            i += 1
            for o in e[4]:
                m[e[5] if dhgr else 0][(e[2] - 32) * 256 + o] = e[3]
    return m


# ---------------------------------------------------------------- player
_built = []


def player():
    """(code loaded at $800, labels) of the player assembled from the tree."""
    if not _built:
        d = os.path.join(SCRATCH, "pb")
        os.makedirs(d)
        shutil.copytree(os.path.join(REPO, "player"), os.path.join(d, "player"))
        pd = os.path.join(d, "player")
        for f in os.listdir(pd):
            if f.endswith((".o", ".lst", ".dsk", ".map", ".dbg")) or f == "iivision":
                os.remove(os.path.join(pd, f))
        r = subprocess.run(["make", "build", "CC65_BIN=/usr/bin", "CC65_HOME=/usr/share/cc65"], cwd=pd,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, TERM="dumb"))
        check(os.path.exists(os.path.join(pd, "iivision")), "player does not build: %s" % r.stdout[-500:])
        img = open(os.path.join(pd, "iivision"), "rb").read()
        code = img
        if img[:4] == b"\x00\x05\x16\x00":
            for i in range(struct.unpack(">H", img[24:26])[0]):
                k, o, l = struct.unpack(">III", img[26 + 12 * i:38 + 12 * i])
                if k == 1:
                    code = img[o:o + l]
        _built.append((code, symbols(os.path.join(pd, "iivision.dbg"))))
    return _built[0]


class Apple:
    """64K + AUX hi-res page, soft switches, keyboard, speaker and a W5100 in
    slot 1, around py65's 65C02 core (NMOS opcodes only are used here)."""

    def __init__(self, stream, arrive=None, fails=0):
        from py65.devices.mpu6502 import MPU
        code, self.sym = player()
        self.main, self.aux = bytearray(65536), bytearray(65536)
        self.main[0x800:0x800 + len(code)] = code
        # HGR0: clear the page selected by $E6 through the bus
        self.stream = bytes(stream)
        self.arrive = arrive or (lambda cyc: len(self.stream))
        self.fails = fails
        self.ticks, self.stores, self.cout, self.sw = [], [], [], []
        self.keys = []              # cycles at which a key is pressed
        self.strobe = False
        self.page2 = self.store80 = self.dhires = self.col80 = self.hires = False
        self.text = True
        self.quit = False
        self.w = bytearray(0x8000)
        self.ptr, self.mode = 0, 0
        self.resets = self.connects = 0
        self.closed = False
        self.read = 0               # stream bytes consumed
        self.acked = 0
        self.anom = []
        self.rx = []
        self.cfg = []
        outer = self

        class Mem:
            def __getitem__(self, a):
                if isinstance(a, slice):
                    return [outer.rd(i) for i in range(*a.indices(65536))]
                return outer.rd(a)

            def __setitem__(self, a, v):
                outer.wr(a, v)
        self.cpu = MPU(memory=Mem())
        self.cpu.pc = 0x800
        self.cpu.sp = 0xff

    def bank(self, a):
        if self.store80 and self.hires and self.page2 and 0x2000 <= a < 0x4000:
            return self.aux
        return self.main

    # -- bus
    def rd(self, a):
        if a >= 0xC000 and a < 0xC100:
            return self.io(a, None)
        return self.bank(a)[a]

    def wr(self, a, v):
        v &= 255
        if a >= 0xC000 and a < 0xC100:
            self.io(a, v)
            return
        if 0x2000 <= a < 0x4000:
            self.stores.append((a, v, self.bank(a) is self.aux))
        self.bank(a)[a] = v

    def io(self, a, v):
        if a == 0xC030:
            self.ticks.append(self.cpu.processorCycles)
        elif a == 0xC000 and v is None:
            while self.keys and self.cpu.processorCycles >= self.keys[0]:
                self.keys.pop(0)
                self.strobe = True
            return 0xC1 if self.strobe else 0x41
        elif a == 0xC010:
            self.strobe = False
        elif a in (0xC000, 0xC001):
            self.store80 = a == 0xC001
            self.sw.append(a)
        elif a in (0xC00C, 0xC00D):
            self.col80 = a == 0xC00D
            self.sw.append(a)
        elif a in (0xC050, 0xC051):
            self.text = a == 0xC051
            self.sw.append(a)
        elif a in (0xC054, 0xC055):
            self.page2 = a == 0xC055
            self.sw.append(a)
        elif a in (0xC056, 0xC057):
            self.hires = a == 0xC057
            self.sw.append(a)
        elif a in (0xC05E, 0xC05F):
            self.dhires = a == 0xC05E
            self.sw.append(a)
        elif a in (0xC052, 0xC053):
            self.sw.append(a)
        elif a == 0xC094:
            if v is None:
                return self.mode
            self.mode = v & 0x7f
            if v & 0x80:
                self.resets += 1
                self.w[0:0x800] = bytes(0x800)
                self.acked_base = 0
        elif a == 0xC095:
            if v is None:
                return self.ptr >> 8
            self.ptr = v << 8 | self.ptr & 255
        elif a == 0xC096:
            if v is None:
                return self.ptr & 255
            self.ptr = self.ptr & 0xff00 | v
        elif a == 0xC097:
            return self.data(v)
        return 0

    def received(self):
        return min(len(self.stream), self.arrive(self.cpu.processorCycles), self.acked + 8192)

    def data(self, v):
        p = self.ptr & 0x7fff
        if self.mode & 2:
            n = p + 1
            if n == 0x8000:
                n = 0x6000
            elif n == 0x6000:
                n = 0x4000
            self.ptr = n
        if v is None:
            if p >= 0x6000:
                n = self.received()
                # the stream byte the chip holds at this buffer address
                i = self.acked + ((p - 0x6000 - self.acked) & 0x1fff)
                self.rx.append(i)
                if i != self.read:
                    self.anom.append("read of stream byte %d, expected %d" % (i, self.read))
                if i >= n:
                    self.anom.append("read of stream byte %d before it arrived (%d)" % (i, n))
                self.read = i + 1
                return self.stream[i] if i < n else 0
            if p in (0x426, 0x427):
                s = self.received() - self.acked
                return s >> 8 if p == 0x426 else s & 255
            return self.w[p]
        self.w[p] = v
        self.cfg.append((p, v))
        if p == 0x401:
            if v == 1:
                self.w[0x403] = 0x13
            elif v == 4:
                self.connects += 1
                if self.fails > 0:
                    self.fails -= 1
                    self.w[0x403] = 0
                else:
                    self.w[0x403] = 0x17
            elif v == 0x40:
                rd = self.w[0x428] << 8 | self.w[0x429]
                step = (rd - self.acked) & 0xffff
                self.acked += step
                if self.acked > self.read:
                    self.anom.append("freed up to %d but read only %d" % (self.acked, self.read))

    # -- run
    def run(self, cycles=10 ** 9, until=None):
        """Returns "quit", "brk", "stop" or "cycles"."""
        c = self.cpu
        end = c.processorCycles + cycles
        while c.processorCycles < end:
            pc = c.pc
            if until is not None and until(self):
                return "stop"
            if pc == 0xF3F2:
                p = self.main[0xE6] << 8
                for a in range(p, p + 0x2000):
                    self.bank(a)[a] = 0
                self.stores_hgr0 = getattr(self, "stores_hgr0", 0) + 1
                self.rts()
            elif pc == 0xFDED:
                self.cout.append(c.a)
                self.rts()
            elif pc == 0xBF00:
                self.quit = True
                return "quit"
            elif self.main[pc] == 0:
                return "brk"
            else:
                c.step()
        return "cycles"

    def rts(self):
        c = self.cpu
        lo = self.main[0x100 + ((c.sp + 1) & 255)]
        hi = self.main[0x100 + ((c.sp + 2) & 255)]
        c.sp = (c.sp + 2) & 255
        c.pc = (hi << 8 | lo) + 1 & 0xffff
        c.processorCycles += 6


def script(ops, mode=1, sym=None, banks=None):
    """A stream of (duty, page, content, offsets) opcodes."""
    sym = sym or player()[1]
    out, bank, n = bytearray([255] * 6 + [mode]), 0, 0

    def ack():
        nonlocal bank, n
        bank = (1 - bank) if mode else 0
        a = sym["op_ack"]
        out.extend((a >> 8, a & 255, 0x54 + bank, 255))
    for d, p, c, o in ops:
        if len(out) % 2048 == 2044:
            ack()
        a = sym["op_tick_%d_page_%d" % (d, p)]
        out.extend((a >> 8, a & 255, c) + tuple(o))
    if len(out) % 2048 == 2044:
        ack()
    a = sym["op_terminate"]
    out.extend((a >> 8, a & 255))
    out.extend(bytes(-len(out) % 2048))
    return bytes(out)


# ------------------------------------------------------------- simulator
def simulator(stream=b""):
    sys.path.insert(0, os.path.join(REPO, "simulator"))
    sys.dont_write_bytecode = True
    os.chdir(SCRATCH)
    import apple2, uthernet
    with quiet():
        a = apple2.AppleII(uthernet.Uthernet(stream))
        a.memory_manager.enable()
    return a
