"""A clock that runs `factor` times as fast for the code under test: what waits
or measures time gives up that much earlier, as it would next to a peer that is
that much slower.  As a program: fastclock.py FACTOR SCRIPT ARGS..."""
import sys


def install(factor, harness=()):
    """Timeouts of threads, queues and subprocesses; `harness` are modules whose
    view of time stays as it is (they hold references of their own)."""
    import queue, subprocess, threading, time
    mono, wall, nap = time.monotonic, time.time, time.sleep
    m0, w0 = mono(), wall()

    def monotonic():
        return m0 + (mono() - m0) * factor

    def now():
        return w0 + (wall() - w0) * factor
    wait = threading.Condition.wait
    threading.Condition.wait = lambda self, timeout=None: wait(self, timeout if timeout is None else timeout / factor)
    queue.time = monotonic
    threading._time = monotonic
    return monotonic, now, nap


def program():
    import runpy, socket, struct, threading, time
    factor = float(sys.argv[1])
    monotonic, now, nap = install(factor)
    time.monotonic, time.time = monotonic, now
    time.sleep = lambda s: nap(s / factor)
    for n in ("settimeout",):
        real = getattr(socket.socket, n)
        setattr(socket.socket, n, lambda self, t, real=real: real(self, t / factor if t else t))
    default = socket.setdefaulttimeout
    socket.setdefaulttimeout = lambda t: default(t / factor if t else t)
    opt = socket.socket.setsockopt

    def setsockopt(self, level, name, *v):
        if level == socket.SOL_SOCKET and name in (socket.SO_RCVTIMEO, socket.SO_SNDTIMEO) and len(v) == 1 and isinstance(v[0], bytes):
            s, us = struct.unpack("ll", v[0])
            us = max(1, int((s * 1000000 + us) / factor)) if s or us else 0
            v = (struct.pack("ll", us // 1000000, us % 1000000),)
        elif level == socket.IPPROTO_TCP and name == getattr(socket, "TCP_USER_TIMEOUT", 18) and isinstance(v[0], int) and v[0]:
            v = (max(1, int(v[0] / factor)),)
        return opt(self, level, name, *v)
    socket.socket.setsockopt = setsockopt
    timer = threading.Timer.__init__

    def init(self, interval, *a, **k):
        timer(self, interval / factor, *a, **k)
    threading.Timer.__init__ = init
    script = sys.argv[2]
    sys.argv = sys.argv[2:]
    sys.path[0] = __import__("os").path.dirname(script)
    runpy.run_path(script, run_name="__main__")


if __name__ == "__main__":
    program()
