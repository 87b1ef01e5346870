"""Driving the repository's frame grabber on synthetic clips."""
import os, threading, time
import numpy as np
import core, media
from core import Violation


def frame_dir(ctx, clip, dhgr, pal):
    """Where conversions of this clip are kept, as observed on a probe run."""
    root = os.path.splitext(clip.path)[0]
    return os.path.join(root, "DHGR" if dhgr else "HGR", pal)


def outputs(clip, k, dhgr):
    main, aux = clip.frames[k]
    m = np.ascontiguousarray(main, dtype=np.uint8).tobytes()
    if not dhgr:
        return [("%08dC.BIN" % k, m)]
    return [("%08d.BIN" % k, m), ("%08d.AUX" % k, np.ascontiguousarray(aux, dtype=np.uint8).tobytes())]


def grabber(clip, dhgr, pal):
    import frame_grabber, video_mode, palette
    media.CURRENT[0] = clip
    return frame_grabber.FileFrameGrabber(
        clip.path, video_mode.VideoMode.DHGR if dhgr else video_mode.VideoMode.HGR, palette.Palette[pal])


def as_bytes(mm):
    return None if mm is None else np.asarray(mm.page_offset, dtype=np.uint8).reshape(32, 256).copy()


class Result:
    def __init__(self):
        self.frames = []        # (main, aux) copies as delivered
        self.live = []          # the delivered objects
        self.error = None
        self.trace = None
        self.done = False


class Schedule:
    """Delays injected around the queue operations of either thread, so that
    what a thread does next comes late in relation to the other one."""
    KINDS = ["after-put", "before-put", "after-get", "before-get", "any"]

    def __init__(self, rng):
        import queue
        self.kind, self.cls, self.rng = rng.choice(self.KINDS), queue.Queue, rng
        self.undo, self.delays = {}, 0

    def __enter__(self):
        for name in ("put", "get"):
            self.undo[name] = real = getattr(self.cls, name)

            def op(q, *a, _real=real, _name=name, **kw):
                self.sleep("before-" + _name)
                try:
                    return _real(q, *a, **kw)
                finally:
                    self.sleep("after-" + _name)
            setattr(self.cls, name, op)
        return self

    def __exit__(self, *_):
        for name, real in self.undo.items():
            setattr(self.cls, name, real)

    def sleep(self, where):
        if self.kind == where or self.kind == "any" and self.rng.random() < 0.3:
            self.delays += 1
            time.sleep(0.02)


def collect(g, nap=None, limit=None, each=None):
    """Iterates g.frames() in a thread of its own; a Violation if it hangs."""
    r = Result()

    def go():
        try:
            for i, (m, a) in enumerate(g.frames()):
                if each:
                    each(i, m, a)
                    r.frames.append(None)
                    continue
                r.frames.append((as_bytes(m), as_bytes(a)))
                r.live.append((m, a))
                if nap:
                    nap(i)
                if limit is not None and i + 1 >= limit:
                    break
        except BaseException as e:
            r.error = e
        r.done = True
    t = threading.Thread(target=go, daemon=True)
    t0 = time.time()
    t.start()
    last = (0, t0)
    while t.is_alive():
        t.join(0.5)
        n = len(r.frames)
        if n != last[0]:
            last = (n, time.time())
        if t.is_alive() and time.time() - last[1] > 60:
            raise Violation("hang", "no frame and no end for 60 s after %d frames" % n)
    return r


def check_frames(r, clip, dhgr, upto=None):
    want = clip.frames[:upto] if upto is not None else clip.frames
    n = len(want)
    for i, (m, a) in enumerate(r.frames[:n]):
        wm, wa = want[i]
        if m is None or (m != wm).any():
            src = next((k for k, f in enumerate(clip.frames) if m is not None and (f[0] == m).all()), None)
            raise Violation("content", "frame %d is delivered with %s in MAIN" % (
                i, "the contents of frame %d" % src if src is not None else "%d wrong bytes" % (m != wm).sum() if m is not None else "nothing"))
        if dhgr:
            if a is None or (a != wa).any():
                raise Violation("content", "frame %d is delivered with wrong AUX memory" % i)
        elif a is not None:
            raise Violation("content", "HGR frame %d comes with AUX memory" % i)
    if len(r.frames) != n:
        raise Violation("count", "%d frames delivered, expected %d" % (len(r.frames), n))
    for i, ((m, a), (lm, la)) in enumerate(zip(r.frames, r.live)):
        if (as_bytes(lm) != m).any() or (la is not None and (as_bytes(la) != a).any()):
            raise Violation("mutated", "frame %d changed after it was delivered" % i)
