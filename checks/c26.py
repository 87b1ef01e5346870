"""Evaluations: audio levels produced by the real audio path (decoder, mono
mix, resampler, normalisation, quantiser) for WAV files of 1 to 6 channels and
many rates, delivered in the decoder's own or in arbitrary chunk sizes (also
ones that end in the middle of a sample), or decoded by a stand-in for the
ffmpeg program through audioread's own reader of its output, each
level compared with an independent resampler and quantiser; normalisations
compared with independently computed percentiles.  Distinct = distinct
(channels, input rate, output rate, signal, chunking, normalisation)."""
import os
import numpy as np
import core, media
from core import Violation

EPS = 0.01      # levels this close to a step may go either way


def resample(x, n_out):
    """Band-limited (whole chunk periodic) resampling, energy preserving."""
    n = len(x)
    if n == n_out:
        y = x.astype(np.float64)
    else:
        X = np.fft.rfft(x.astype(np.float64))
        m = min(n, n_out)
        Y = np.zeros(n_out // 2 + 1, dtype=complex)
        k = m // 2 + 1
        Y[:k] = X[:k]
        if m % 2 == 0:
            if n_out < n:       # folding of the pair of bins at the new limit
                Y[m // 2] = 2 * X[m // 2].real
            else:
                Y[m // 2] = X[m // 2] / 2
        y = np.fft.irfft(Y, n_out) * (n_out / n)
    return y


def signal(rng, kind, n, ch, rate):
    r = np.random.RandomState(rng.getrandbits(31))
    t = np.arange(n)
    if kind == "noise":
        a = r.uniform(-1, 1, (n, ch)) * rng.choice((32767, 3000, 200))
    elif kind == "loud":
        a = r.choice((-32768, 32767, 0), (n, ch))
    elif kind == "sine":
        a = np.stack([np.sin(2 * np.pi * t * rng.uniform(50, 3000) / rate) * rng.uniform(300, 32767) for _ in range(ch)], 1)
    elif kind == "skew":        # larger on one side
        a = np.abs(r.normal(0, 6000, (n, ch))) * rng.choice((-1, 1)) + r.normal(0, 500, (n, ch))
    elif kind == "silence":
        a = np.zeros((n, ch))
    elif kind == "clicks":
        a = np.zeros((n, ch))
        a[r.randint(0, n, max(1, n // 400))] = rng.choice((32767, -32768, 9000))
    elif kind == "dc":
        a = np.full((n, ch), float(rng.choice((-32768, -5000, 3, 12345, 32767))))
    elif kind == "channels":    # channels differ strongly, one silent, one inverted
        b = r.normal(0, 8000, n)
        a = np.stack([b * (c % 3 - 1) * (1 if c < 3 else 0.2) for c in range(ch)], 1)
    elif kind == "quiet":
        a = r.randint(-2, 3, (n, ch))
    elif kind == "swell":       # louder and louder
        a = r.normal(0, 1, (n, ch)) * np.linspace(10, 12000, n)[:, None]
    elif kind == "half":        # silent first half
        a = r.normal(0, 4000, (n, ch))
        a[:n // 2] = 0
    else:
        raise ValueError(kind)
    return np.clip(np.round(a), -32768, 32767).astype("<i2")


KINDS = ["noise", "loud", "sine", "skew", "silence", "clicks", "dc", "channels", "quiet", "half"]


class Rechunk:
    """The decoder's file object, with what it delivers recorded and, if asked,
    delivered in other sizes."""

    def __init__(self, real, log, rng, hostile):
        self.real, self.log_, self.rng, self.hostile = real, log, rng, hostile

    def __enter__(self):
        self.real.__enter__()
        return self

    def __exit__(self, *a):
        return self.real.__exit__(*a)

    def __getattr__(self, n):
        return getattr(self.real, n)

    def __iter__(self):
        return self.read_data()

    def read_data(self, *a, **k):
        mine = []
        self.log_.append(mine)
        if not self.hostile:
            for b in self.real.read_data(*a, **k):
                mine.append(bytes(b))
                yield b
            return
        data = b"".join(bytes(b) for b in self.real.read_data(*a, **k))
        if self.hostile == 3:       # any number of bytes
            i = 0
            while i < len(data):
                n = self.rng.choice((1, 5, 4096, 8192, self.rng.randrange(1, 40000)))
                if len(data) > 100000:
                    n = max(n, 2047)
                mine.append(data[i:i + n])
                yield mine[-1]
                i += n
            return
        fr = 2 * self.real.channels
        i = 0
        while i < len(data):
            n = self.rng.choice((1, 2, 3, 100, 1024, 4096, 65536, self.rng.randrange(1, 20000))) if self.hostile == 1 else 4096
            if len(data) // fr > 30000:
                n = max(n, 1024)
            b = data[i:i + n * fr]
            mine.append(b)
            yield b
            i += n * fr


FFMPEG = r"""#!/usr/bin/python3 -S
import sys
a = sys.argv[1:]
if a == ["-version"]:
    print("ffmpeg version 0")
    sys.exit(0)
f = open(a[a.index("-i") + 1], "rb")
head = f.readline().decode().split()
sys.stderr.write("Input #0, mov,mp4, from 'x':\n  Duration: 00:00:01.00, start: 0.000000, bitrate: 1 kb/s\n"
    "    Stream #0:1(und): Audio: aac (LC), %s Hz, %s, fltp, 128 kb/s\n" % tuple(head))
sys.stderr.flush()
while True:
    b = f.read(65536)
    if not b:
        break
    sys.stdout.buffer.write(b)
"""
LAYOUT = {1: "mono", 2: "stereo", 3: "2.1", 4: "4.0", 6: "5.1"}


def whole(chunks, size):
    """The chunks cut where samples end."""
    data, ends, n = b"".join(chunks), [0], 0
    for c in chunks:
        n += len(c)
        ends.append(n // size * size)
    return [data[a:b] for a, b in zip(ends, ends[1:]) if b > a]


def mono(buf, ch):
    return np.frombuffer(buf, dtype="<i2").reshape(-1, ch).astype(np.float64).mean(axis=1)


def run(ctx):
    core.setup_transcoder(ctx.scratch)
    with core.quiet():
        import audio, audioread

    home_path = os.environ.get("PATH", "")

    def job(i):
        rng = ctx.rng(i)
        # long sounds: 12 MB, and swelling ones of 1 to 10 MB
        big = (3000000, 2500000, 1400000, 700000, 300000)[i // 24] if i % 24 == 0 and i < 120 else 0
        ch = rng.choice((1, 1, 2, 2, 2, 3, 4, 6))
        rin = rng.choice((8000, 11025, 14700, 16000, 22050, 22500, 32000, 44100, 44100, 48000, 96000, 37))
        rout = rng.choice((14700, 14700, 22500, 14364, 8000, 44100, 11025, 1000))
        if rng.random() < 0.25:
            rin = rout
        elif rng.random() < 0.2:    # rates close to each other
            rin, rout = rng.choice(((14699, 14700), (14701, 14700), (14700, 14699), (8010, 8000), (22040, 22050), (22050, 22040),
                                    (44099, 44100), (1001, 1000), (999, 1000), (14690, 14700), (11020, 11025)))
        kind = KINDS[i % len(KINDS)] if not big else "half" if i == 0 else "swell"
        n = rng.choice((1, 2, 50, 1000, 7919, 30000, 140000, 300000))
        if ctx.thorough and rng.random() < 0.05:
            n = 2000000
        if rin == 37:
            n = min(n, 3000)
        if big:
            ch, rin, rout, n = 2, 44100, 14700, big
        hostile = rng.choice((0, 0, 1, 2, 3)) if not big else 0
        ffmpeg = rng.random() < (0.25 if not big else 0.5)
        norm = rng.choice((None, None, 1.0, 0.5, 2.0, 3.7, 0.01, 40.0, 3000.0, 1e5, 1e-4))
        if big:
            norm = None
        sig = signal(rng, kind, n, ch, rin)
        d = ctx.newdir("a")
        path = os.path.join(d, "s.wav")
        import wave
        with wave.open(path, "wb") as w:
            w.setnchannels(ch)
            w.setsampwidth(2)
            w.setframerate(rin)
            w.writeframes(sig.tobytes())
        if ffmpeg:
            path = os.path.join(d, "s.mov")
            with open(path, "wb") as f:
                f.write(b"%d %s\n" % (rin, LAYOUT[ch].encode()))
                f.write(sig.tobytes())
            with open(os.path.join(d, "ffmpeg"), "w") as f:
                f.write(FFMPEG)
            os.chmod(f.name, 0o755)
            os.environ["PATH"] = d + ":" + home_path
            audioread.available_backends(flush_cache=True)
            ctx.count("files_through_ffmpeg")
        log = []
        real = audioread.audio_open
        audioread.audio_open = lambda *a, **k: Rechunk(real(*a, **k), log, ctx.rng(i, len(log)), hostile)
        info = dict(channels=ch, rate_in=rin, rate_out=rout, signal=kind, frames=n, chunking=hostile, normalization=norm, ffmpeg=ffmpeg)
        try:
            with ctx.guard(**info):
                with np.errstate(all="ignore"):
                    a = audio.Audio(path, bitrate=rout, normalization=norm) if norm is not None else audio.Audio(path, bitrate=rout)
                    used = float(a.normalization)
                    n0 = len(log)
                    got = [x for x in a.audio_stream()]
                if norm is not None:
                    if abs(used - norm) > 1e-9:
                        raise Violation("explicit", "explicit normalisation %r became %r" % (norm, used))
                else:
                    # the sound as one piece, of which very long ones may be
                    # represented by the first 10 MB (or a few chunks more)
                    raw = sig.tobytes()
                    tries = [raw]
                    if len(raw) > 10 << 20:
                        tries = [raw[:(10 << 20) // (2 * ch) * 2 * ch], raw]
                    ok, sure, full = False, False, []
                    for z in tries:
                        x = mono(z, ch)
                        y = resample(x, max(1, int(np.ceil(len(x) * rout / rin)))) / np.sqrt(rout / rin)
                        s = np.sort(y)

                        def pct(p):
                            v = (len(s) - 1) * p / 100.0
                            f = int(np.floor(v))
                            c = min(f + 1, len(s) - 1)
                            return s[f] + (s[c] - s[f]) * (v - f)
                        m = max(abs(pct(0.5)), abs(pct(99.5)))
                        # clicks leave almost silent percentiles to rounding noise
                        if m > 0.05:
                            full.append(16384 / m)
                            ok = ok or abs(used * m / 16384 - 1) < (1e-3 if len(tries) == 1 else 0.01)
                        else:
                            ok = True
                    if not ok:
                        raise Violation("auto", "automatic normalisation is %r, full scale is %r" % (used, full))
                    ctx.count("normalisations_compared", len(full) > 0)
                    ctx.count("normalisations_of_megabytes", len(raw) > 1 << 20)
                    if not np.isfinite(used) or used <= 0:
                        raise Violation("auto", "automatic normalisation is %r" % used)
                if kind == "silence" and any(got):
                    raise Violation("silence", "silence gives level %r" % next(g for g in got if g))
                chunks = log[n0]
                if b"".join(chunks) != sig.tobytes():
                    raise core.Inconclusive("decoder does not deliver the file")
                ctx.count("chunks_ending_within_a_sample", sum(len(c) % (2 * ch) != 0 for c in chunks))
                chunks = whole(chunks, 2 * ch)
                pos = 0
                ga = np.array([int(g) for g in got], dtype=np.int64)
                if len(ga) and ((ga < -15).any() or (ga > 16).any()):
                    raise Violation("range", "level %d" % ga[(ga < -15) | (ga > 16)][0])
                if any(int(g) != g for g in got):
                    raise Violation("integer", "levels are not integers")
                exact = sum(len(c) // (2 * ch) for c in chunks) * rout / rin
                if abs(len(ga) - exact) > len(chunks):
                    raise Violation("count", "%d levels for %.2f expected in %d chunks" % (len(ga), exact, len(chunks)))
                for j, c in enumerate(chunks):
                    x = mono(c, ch)
                    left = sum(len(q) // (2 * ch) for q in chunks[j + 1:])
                    k = int(np.ceil(len(x) * (rout / rin)))
                    g = ga[pos:pos + k]
                    if len(g) != k:
                        raise Violation("count", "chunk %d of %d samples gives %d levels, expected %d" % (j, len(x), len(g), k))
                    y = resample(x, k) / np.sqrt(rout / rin) * used / 16384 * 16
                    want = np.clip(np.trunc(y), -15, 16).astype(np.int64)
                    tol = EPS + 3e-6 * np.abs(y).max()
                    lo = np.clip(np.trunc(y - tol), -15, 16)
                    hi = np.clip(np.trunc(y + tol), -15, 16)
                    bad = (g < lo) | (g > hi)
                    if bad.any():
                        q = int(np.flatnonzero(bad)[0])
                        raise Violation("level", "level %d of chunk %d is %d, signal is %.4f (%d of %d wrong)" % (q, j, g[q], y[q], bad.sum(), k))
                    ctx.count("evaluations", k)
                    ctx.count("exact_levels", (g == want).sum())
                    pos += k
                if pos != len(ga):
                    raise Violation("count", "%d levels more than the chunks account for" % (len(ga) - pos))
                ctx.count("files")
                ctx.count("chunks", len(chunks))
                ctx.count("clipped", ((ga == 16) | (ga == -15)).sum())
                ctx.seen(ch, rin, rout, kind, hostile, norm, ffmpeg)
        finally:
            audioread.audio_open = real
            if ffmpeg:
                os.environ["PATH"] = home_path
                audioread.available_backends(flush_cache=True)
        os.remove(path)

    ctx.pmap(job, range(ctx.scale(120, 1500)))
    ctx.need("files", 40)
    ctx.need("normalisations_compared", 10)
    ctx.need("chunks_ending_within_a_sample", 10)
    ctx.need("files_through_ffmpeg", 5)
