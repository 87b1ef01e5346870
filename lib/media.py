"""Synthetic movies: sound files the real decoder reads, and stand-ins for the
external programs (ffmpeg, ffprobe, bmp2dhr) that are not installed.

A movie is described by a Clip; frame k is delivered as a flat colour that
encodes k (scenic clips: as a rectangle of that colour on a background that
changes smoothly), and the bmp2dhr stand-in recovers k from the bitmap it is
given, compares a scenic bitmap with the frame, and writes the memory image
prescribed for frame k."""
import os, struct, subprocess, sys, time, wave
import numpy as np
import core
import oracle

CLIPS = {}          # path -> Clip
CALLS = []          # bmp2dhr invocations


class Clip:
    def __init__(self, path, frames, fps=(30, 1), rate=14700, samples=None, channels=1, frame_hook=None,
                 bmp_hook=None, size=(16, 16), scenic=False):
        self.path = path
        self.frames = frames          # list of (main, aux or None), (32,256) or (8192,) uint8
        self.fps = fps
        self.frame_hook = frame_hook  # called with k before frame k is decoded
        self.bmp_hook = bmp_hook      # called with (k, argv, write) instead of writing
        self.size = size
        self.scenic = scenic          # frames with content over all of their area
        if samples is not None:
            write_wav(path, samples, rate, channels)
        CLIPS[os.path.abspath(path)] = self


def write_wav(path, samples, rate, channels=1):
    a = np.asarray(samples).astype("<i2")
    with wave.open(path, "wb") as w:
        w.setnchannels(channels)
        w.setsampwidth(2)
        w.setframerate(rate)
        w.writeframes(a.tobytes())


def levels_to_samples(levels, norm=1.0):
    """16-bit samples that the given normalisation maps to the given levels."""
    l = np.asarray(levels, dtype=np.int64)
    # trunc(s/16384*16) = level, in the middle of its range
    s = np.where(l == 0, 0, np.sign(l) * (np.abs(l) * 1024 + 512)) / norm
    s = np.round(s).astype(np.int64)
    return np.clip(s, -32768, 32767)


_RAMP = {}


def _ramp(xs, ys):
    """Smooth background picture at the given coordinates (0..1 across, 0..1
    down): every corner, row and column is different."""
    a = np.zeros((len(ys), len(xs), 3))
    a[:, :, 0] = 20 + 200 * xs[None, :]
    a[:, :, 1] = 230 - 210 * ys[:, None]
    a[:, :, 2] = 60 + 130 * xs[None, :] ** 2 * ys[:, None]
    return a


def _box(n):
    return n * 3 // 10, n - n * 3 // 10


def mark(k, size=(16, 16), scenic=False):
    """Picture that encodes the frame number: flat, or with a flat rectangle in
    the middle of a background that changes smoothly."""
    w, h = size
    if not scenic:
        a = np.zeros((h, w, 3), dtype=np.uint8)
        a[:, :] = (k & 255, (k >> 8) & 255, 77 + (k >> 16))
        return a
    if size not in _RAMP:
        _RAMP[size] = np.round(_ramp((np.arange(w) + .5) / w, (np.arange(h) + .5) / h)).astype(np.uint8)
    a = _RAMP[size].copy()
    (x0, x1), (y0, y1) = _box(w), _box(h)
    a[y0:y1, x0:x1] = (k & 255, (k >> 8) & 255, 77 + (k >> 16))
    return a


PICTURES = [0]      # bitmaps compared with the frame they were made from


def unmark(bmpfile, scenic=False):
    from PIL import Image
    im = Image.open(bmpfile).convert("RGB")
    if im.size != (280, 192):
        raise core.Violation("bmp-size", "bitmap given to bmp2dhr is %r" % (im.size,))
    r, g, b = im.getpixel((140, 96))
    if not 77 <= b < 90:
        raise core.Violation("bmp-picture", "the bitmap given to bmp2dhr is of no frame of the movie: middle pixel %r" % ((r, g, b),))
    if scenic:
        got = np.frombuffer(im.tobytes(), np.uint8).reshape(192, 280, 3).astype(float)
        if "bmp" not in _RAMP:
            xs, ys = (np.arange(280) + .5) / 280, (np.arange(192) + .5) / 192
            use = np.ones((192, 280), bool)
            # away from the edges of the picture and of the rectangle
            use[:8], use[-8:], use[:, :8], use[:, -8:] = False, False, False, False
            (x0, x1), (y0, y1) = _box(280), _box(192)
            use[y0 - 14:y1 + 14, x0 - 14:x1 + 14] = False
            inside = np.zeros((192, 280), bool)
            inside[y0 + 14:y1 - 14, x0 + 14:x1 - 14] = True
            _RAMP["bmp"] = _ramp(xs, ys), use, inside
        want, use, inside = _RAMP["bmp"]
        bad = (np.abs(got - want).max(axis=2) > 9) & use
        bad |= (np.abs(got - np.array((r, g, b))).max(axis=2) > 9) & inside
        if bad.sum() > 20:
            y, x = [int(q[0]) for q in np.nonzero(bad)]
            raise core.Violation("bmp-picture", "the bitmap given to bmp2dhr does not show the whole frame, scaled to the screen: %d pixels differ, "
                                 "such as column %d row %d: %r, should be about %r" % (
                                     bad.sum(), x, y, [int(q) for q in got[y, x]], [int(q) for q in (want[y, x] if use[y, x] else (r, g, b))]))
        PICTURES[0] += 1
    im.close()
    return r | g << 8 | (b - 77) << 16


class FakeReader:
    def __init__(self, filename, *a, **k):
        self.clip = CLIPS[os.path.abspath(filename)]

    def nextFrame(self):
        for k in range(len(self.clip.frames)):
            if self.clip.frame_hook:
                self.clip.frame_hook(k)
            yield mark(k, self.clip.size, self.clip.scenic)

    def getShape(self):
        return (len(self.clip.frames), self.clip.size[1], self.clip.size[0], 3)

    def close(self):
        pass


def fake_ffprobe(filename, *a, **k):
    c = CLIPS[os.path.abspath(filename)]
    # the average over the file is not exactly the rate of the frames
    return {"video": {"@r_frame_rate": "%d/%d" % c.fps, "@avg_frame_rate": "%d/%d" % (c.fps[0] * 997, c.fps[1] * 1000),
                      "@nb_frames": str(len(c.frames)), "@width": str(c.size[0]), "@height": str(c.size[1]),
                      "@duration": "%.6f" % (len(c.frames) * c.fps[1] / c.fps[0])}}


PATIENCE = [1.0]    # how much faster time passes for the code under test


class _P:
    """What subprocess needs of a finished process."""

    def __init__(self, args, rc=0, took=0.0):
        self.args, self.returncode, self.pid = args, rc, 0
        self.took = took
        self.stdin = self.stdout = self.stderr = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def _late(self, timeout):
        if timeout is not None and self.took * PATIENCE[0] > timeout:
            self.took = 0.0
            raise subprocess.TimeoutExpired(self.args, timeout)

    def wait(self, timeout=None):
        self._late(timeout)
        return self.returncode

    def poll(self):
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self._late(timeout)
        return b"", b""

    def kill(self):
        pass
    terminate = kill


CURRENT = [None]   # clip whose frames the converter is asked for


def bmp2dhr(argv):
    bmp = os.path.abspath(argv[1])
    mode = argv[2]
    clip = CURRENT[0]
    k = unmark(bmp, clip.scenic)
    CALLS.append((k, tuple(argv[2:])))
    base = os.path.splitext(bmp)[0]
    main, aux = clip.frames[k]
    main = np.ascontiguousarray(main, dtype=np.uint8).reshape(8192)

    def write(path, arr):
        with open(path, "wb") as f:
            f.write(arr.tobytes())
    if mode == "hgr":
        out = [(base + "C.BIN", main)]
    elif "A" in argv:
        out = [(base + ".BIN", main), (base + ".AUX", np.ascontiguousarray(aux, dtype=np.uint8).reshape(8192))]
    else:
        raise core.Violation("bmp2dhr-args", "dhgr conversion without separate files: %r" % (argv,))
    if clip.bmp_hook:
        return clip.bmp_hook(k, argv, out, write)
    for p, a in out:
        write(p, a)
    return 0


_real_popen = subprocess.Popen


class FakePopen(_real_popen):
    def __new__(cls, args, *a, **k):
        if isinstance(args, (list, tuple)) and os.path.basename(str(args[0])) == "bmp2dhr":
            t0 = time.time()
            rc = bmp2dhr([str(x) for x in args])
            return _P(args, rc or 0, time.time() - t0)
        return object.__new__(cls)


_installed = False


def install():
    global _installed
    if _installed:
        return
    import skvideo.io
    skvideo.io.FFmpegReader = FakeReader
    skvideo.io.ffprobe = fake_ffprobe
    subprocess.Popen = FakePopen
    _installed = True


SIZES = [(640, 480), (320, 240), (480, 360), (640, 360), (360, 640), (281, 193), (280, 192), (140, 192), (1280, 720), (199, 97), (560, 384)]


# ------------------------------------------------------------ picture content
def picture(rng, dhgr, kind, prev=None, holes=False):
    """A (main, aux) pair of (32,256) arrays."""
    top = 128 if dhgr else 256
    r = np.random.RandomState(rng.getrandbits(31))

    if kind == "onebank":
        kind = rng.choice(("main", "aux"))

    def one(prev1, bank=0):
        m = np.zeros((32, 256), dtype=np.uint8)
        if kind == "noise":
            m[:] = r.randint(0, top, (32, 256))
        elif kind == "blank" or kind == "main" and bank or kind == "aux" and not bank:
            pass
        elif kind == "same":
            if prev1 is not None:
                m[:] = prev1
                return m
        elif kind in ("main", "aux"):       # the other bank blank
            m[r.randint(0, 32)] = r.randint(0, top)
        elif kind == "flat":
            m[:] = r.randint(0, top)
        elif kind == "grey":
            m[:] = r.choice([0x55, 0x2a, 0x00, 0x7f] + ([] if dhgr else [0xd5, 0xaa, 0x80, 0xff]), (32, 256))
        elif kind == "blocks":
            for _ in range(r.randint(3, 12)):
                y, x = r.randint(0, 192), r.randint(0, 40)
                h, w = r.randint(1, 80), r.randint(1, 20)
                c = r.randint(0, top)
                for yy in range(y, min(192, y + h)):
                    a = oracle.addr(yy, x)
                    m.reshape(8192)[a:a + min(w, 40 - x)] = c
        elif kind == "columns":
            e, o = r.randint(0, top), r.randint(0, top)
            m[:, 0::2] = e
            m[:, 1::2] = o
        elif kind == "edges":
            # activity at page edges and row ends only
            for p in range(32):
                for q in (0, 1, 2, 39, 40, 79, 80, 119, 126, 127, 128, 129, 167, 168, 207, 208, 246, 247, 248, 255):
                    m[p, q] = r.randint(0, top)
        elif kind == "sparse":
            if prev1 is not None:
                m[:] = prev1
            for _ in range(r.randint(1, 40)):
                m[r.randint(0, 32), r.randint(0, 256)] = r.randint(0, top)
        elif kind == "onepage":
            if prev1 is not None:
                m[:] = prev1
            m[r.randint(0, 32), :] = r.randint(0, top, 256)
        elif kind == "greypage":
            # a few rows of look-alike greys with odd bytes in between
            if prev1 is not None:
                m[:] = prev1
            for q in r.choice([4, 5, 21], 2, replace=False):
                m[q] = r.choice([0x55, 0x2a] + ([] if dhgr else [0xd5, 0xaa]), 256)
                m[q, r.randint(0, 37)::37] = r.randint(0, top)
        elif kind == "palette":
            # same dots, palette bits differ
            if prev1 is not None:
                m[:] = prev1
            if not dhgr:
                m ^= (r.randint(0, 2, (32, 256)) << 7).astype(np.uint8)
            else:
                m ^= (r.randint(0, 2, (32, 256)) * r.randint(0, 128)).astype(np.uint8)
        else:
            raise ValueError(kind)
        m[oracle.HOLES2] = r.randint(0, top, 512) if holes else 0
        return m
    pm, pa = prev if prev is not None else (None, None)
    return one(pm), (one(pa, 1) if dhgr else None)


KINDS = ["noise", "blank", "flat", "grey", "blocks", "columns", "edges", "sparse", "onepage", "palette", "same", "onebank"]


def pictures(rng, dhgr, n, kinds=None, holes=False):
    out, prev = [], None
    for _ in range(n):
        if len(out) > 1 and rng.random() < 0.12:
            # a scene that comes back
            prev = tuple(None if x is None else x.copy() for x in rng.choice(out[:-1]))
        else:
            prev = picture(rng, dhgr, rng.choice(kinds or KINDS), prev, holes)
        out.append(prev)
    return out


# ------------------------------------------------------------------ encoding
class Session:
    """One transcode of a clip with everything the monitors need recorded."""

    def __init__(self, clip, dhgr, pal="NTSC", every_n=1, bitrate=14700, norm=1.0, max_bytes=None):
        import movie, video_mode, palette, random
        self.clip, self.dhgr = clip, dhgr
        CURRENT[0] = clip
        with core.quiet():
            self.m = movie.Movie(
                clip.path, every_n_video_frames=every_n, audio_bitrate=bitrate,
                audio_normalization=norm, max_bytes_out=max_bytes,
                video_mode=video_mode.VideoMode.DHGR if dhgr else video_mode.VideoMode.HGR,
                palette=palette.Palette[pal])
        self.samples = []       # audio levels handed to the encoder
        self.fetch = []         # (frame index, sample number at fetch)
        self.encodes = []       # (sample number, is_aux, target main copy, target aux copy)
        m = self.m
        real_audio = m.audio.audio_stream
        real_frames = m.frame_grabber.frames
        real_encode = m.video.encode_frame

        def audio_stream(*a, **k):
            for s in real_audio(*a, **k):
                self.samples.append(int(s))
                yield s

        def frames(*a, **k):
            i = 0
            it = iter(real_frames(*a, **k))
            while True:
                try:
                    f = next(it)
                except StopIteration:
                    self.fetch.append((None, len(self.samples)))
                    return
                self.fetch.append((i, len(self.samples)))
                i += 1
                yield f

        def encode_frame(target, is_aux, *a, **k):
            self.encodes.append((len(self.samples), bool(is_aux), target))
            return real_encode(target, is_aux, *a, **k)
        m.audio.audio_stream = audio_stream
        m.frame_grabber.frames = frames
        m.video.encode_frame = encode_frame

    def bytes(self):
        import sys
        it = iter(self.m.emit_stream(self.m.encode()))
        out = sys.stdout
        while True:
            sys.stdout = core.NULL
            try:
                b = next(it)
            except StopIteration:
                return
            finally:
                sys.stdout = out
            yield b


def seed_encoder(rng):
    """The encoder breaks ties at random; make that part reproducible."""
    import random
    random.seed(rng.getrandbits(32))
    np.random.seed(rng.getrandbits(32))
