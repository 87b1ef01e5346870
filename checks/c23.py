"""Evaluations: client connections to the real server process over loopback;
the byte string each client received is compared with the file's content at
that time.  Clients read quickly, slowly, in tiny pieces or after a stall,
disconnect early (cleanly or with a reset), send data, or queue up, and the
file is replaced between clients and while one is served; pauses of over half a minute and (the server's
clock running 200 times as fast) of half an hour, a 200 MB file and over a
thousand clients of one server; servers stopped
(killed, interrupted, in the middle of a movie) and started again on the port
just used.  Distinct = distinct (client behaviour,
file size class, what the previous client did)."""
import ctypes, os, signal, socket, struct, subprocess, sys, threading, time
import core
from core import Violation

ASSUMPTIONS = ["loopback TCP of the sandbox's kernel"]


HERE = os.path.dirname(os.path.abspath(core.__file__))
LIBC = ctypes.CDLL(None)


def orphan():
    """The server ends with the process that started it."""
    LIBC.prctl(1, signal.SIGKILL, 0, 0, 0)
    signal.signal(signal.SIGINT, signal.SIG_DFL)    # as started from a terminal


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def idle(port):
    """Nobody has a socket at the port, but connections of before may linger."""
    try:
        rows = [l.split() for f in ("tcp", "tcp6") if os.path.exists("/proc/net/" + f) for l in open("/proc/net/" + f)]
    except OSError:
        return False
    st = [r[3] for r in rows if len(r) > 3 and r[1].endswith(":%04X" % port)]
    return all(x in ("04", "05", "06") for x in st)       # FIN_WAIT1/2, TIME_WAIT


class Server:
    def __init__(self, path, port=None, again=None, factor=None):
        """port None: the default one; again: this very port once more; factor:
        for the server time passes that much faster."""
        self.default = port is None or again is not None
        for attempt in range(5):
            self.port = again or (1977 if self.default else free_port())
            cmd = [sys.executable] + ([os.path.join(HERE, "fastclock.py"), str(factor)] if factor else []) + [
                os.path.join(core.REPO, "server", "server.py"), path]
            if not self.default or again:
                cmd += ["--port", str(self.port)]
            self.err = open(path + ".err", "wb+")
            self.p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=self.err, cwd=os.path.dirname(path), preexec_fn=orphan)
            t = time.time()
            while time.time() - t < 30:
                if self.p.poll() is not None:
                    break
                try:
                    socket.create_connection(("127.0.0.1", self.port), 5).close()
                    return
                except OSError:
                    time.sleep(0.05)
            self.stop()
            if self.default and (attempt == 2 or "Address already in use" not in self.log() or not idle(self.port)):
                break
            time.sleep(1)
        e = self.log()
        if self.default and "Address already in use" in e and idle(self.port):
            raise Violation("restart", "the server cannot be started again on port %d after it was stopped: %s" % (self.port, e[-200:]))
        if "Address already in use" in e:
            raise core.Inconclusive("cannot bind a port: %s" % e[-300:])
        raise Violation("start", "the server does not come up on port %d: %s" % (self.port, e[-400:]))

    def log(self):
        self.err.seek(0)
        return self.err.read().decode(errors="replace")

    def interrupt(self, sig):
        """Stopped by its user: Ctrl-C or kill."""
        self.p.send_signal(sig)
        try:
            self.p.wait(30)
        except subprocess.TimeoutExpired:
            raise Violation("stop", "the server still runs 30 s after signal %d" % sig)

    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()


def read_all(s, rng, how, limit=90):
    """Reads to end of file in the given manner; returns (bytes, ended)."""
    out = bytearray()
    end = time.time() + limit
    s.settimeout(limit)
    if how.startswith("stall"):
        t = float(how[5:])
        n = rng.choice((0, 1, 2048, 70000))
        while len(out) < n:
            b = s.recv(n - len(out))
            if not b:
                return bytes(out), True
            out += b
        time.sleep(t)
        end = time.time() + limit
    naps = 0
    try:
        while time.time() < end:
            b = s.recv({"tiny": rng.randrange(1, 40), "slow": rng.randrange(1, 9000)}.get(how, 65536))
            if not b:
                return bytes(out), True
            out += b
            if how == "slow" and naps < 150:
                time.sleep(rng.random() * 0.01)
                naps += 1
    except socket.timeout:
        return bytes(out), False
    except ConnectionError as e:
        return bytes(out), "connection broken: %r" % e
    return bytes(out), False


def run(ctx):
    SIZES = [0, 1, 7, 2047, 2048, 4096, 65535, 65536, 65537, 300000, 1 << 20, 5000001]

    def content(rng, n):
        return bytes(rng.getrandbits(8 * n).to_bytes(n, "little")) if n else b""

    def put(path, data, rng):
        if rng.random() < 0.5:
            with open(path + ".new", "wb") as f:
                f.write(data)
            os.replace(path + ".new", path)
        else:
            with open(path, "wb") as f:
                f.write(data)

    def connect(srv, rng, buf=True, small=False):
        s = socket.socket()
        if small:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 8192)
        elif buf and rng.random() < 0.4:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rng.choice((2048, 8192, 30000)))
        s.settimeout(60)
        try:
            s.connect((rng.choice(("127.0.0.1", "127.0.0.1", "127.0.0.2", "127.8.9.10")), srv.port))
        except OSError as e:
            raise Violation("refused", "the server no longer accepts connections: %r; %s" % (e, srv.log()[-300:]))
        return s

    def judge(got, ended, data, how, before):
        if got != data:
            n = next((i for i, (a, b) in enumerate(zip(got, data)) if a != b), min(len(got), len(data)))
            raise Violation("content", "client (%s, after %s) received %d bytes of %d, first difference at %d%s" % (
                how, before, len(got), len(data), n, "" if ended is True else " (%s)" % ended))
        if ended is not True:
            raise Violation("close", "the connection is not closed after the file (%s)" % ended)

    def job(i):
        rng = ctx.rng(i)
        d = ctx.newdir("srv")
        path = os.path.join(d, rng.choice(("movie.a2m", "a b.c.a2m", "x")))
        data = content(rng, rng.choice(SIZES))
        put(path, data, rng)
        default = i == 0
        if default:
            # the port the player connects to; leave it if somebody has it
            t = socket.socket()
            try:
                t.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                t.bind(("0.0.0.0", 1977))
            except OSError:
                default = False
            t.close()
        srv = Server(path, None if default else 1)
        before = "start"
        try:
            if default:
                ctx.count("default_port")
            for n in range(ctx.scale(16, 60)):
                if rng.random() < 0.35:
                    data = content(rng, rng.choice(SIZES))
                    put(path, data, rng)
                how = rng.choice(["fast", "fast", "slow", "tiny", "stall0.3", "early", "reset", "half", "send", "queue", "nothing"])
                if n == 5:
                    how = "stall%g" % (rng.choice((6, 12)) if not ctx.thorough else rng.choice((12, 25, 45)))
                    if len(data) < 5000001:
                        data = content(rng, 5000001)
                        put(path, data, rng)
                if how == "tiny" and len(data) > 70000:
                    how = "slow"
                with ctx.guard(client=how, before=before, size=len(data)):
                    if how in ("early", "reset", "nothing"):
                        s = connect(srv, rng)
                        if how != "nothing" and data:
                            got = b""
                            want = rng.choice((1, 100, 2048, len(data) // 2 + 1))
                            while len(got) < want:
                                b = s.recv(want - len(got))
                                if not b:
                                    break
                                got += b
                            if got != data[:len(got)] or len(got) < min(want, len(data)):
                                raise Violation("content", "first %d bytes received are not the file's" % len(got))
                        if how == "reset" or rng.random() < 0.3:
                            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                        s.close()
                    elif how == "send":
                        # its own tail may be lost to a reset; others' may not
                        s = connect(srv, rng)
                        try:
                            s.sendall(os.urandom(rng.choice((1, 100, 20000))))
                            got, ended = read_all(s, rng, "fast", 20)
                        except OSError:
                            got = b""
                        s.close()
                        if got != data[:len(got)]:
                            raise Violation("content", "client that sends data receives wrong bytes")
                    elif how == "queue":
                        ss = [connect(srv, rng) for _ in range(rng.randrange(2, 5))]
                        res = [None] * len(ss)

                        def go(j):
                            res[j] = read_all(ss[j], rng, "fast")
                        th = [threading.Thread(target=go, args=(j,)) for j in range(len(ss))]
                        for t in th:
                            t.start()
                        for t in th:
                            t.join()
                        for s in ss:
                            s.close()
                        for got, ended in res:
                            judge(got, ended, data, how, before)
                            ctx.count("clients_complete")
                    else:
                        s = connect(srv, rng, small=how.startswith("stall"))
                        if how == "half":
                            s.shutdown(socket.SHUT_WR)
                        got, ended = read_all(s, rng, how)
                        s.close()
                        judge(got, ended, data, how, before)
                        ctx.count("clients_complete")
                        ctx.count("bytes_compared", len(got))
                    ctx.count("clients")
                    ctx.seen(how, min(len(data), 100000) // 3000, before)
                before = how
                if srv.p.poll() is not None:
                    raise Violation("died", "the server exits after a client (%s): %s" % (how, srv.log()[-400:]))
            with ctx.guard(client="last", before=before):
                s = connect(srv, rng, False)
                got, ended = read_all(s, rng, "fast")
                s.close()
                judge(got, ended, data, "last", before)
                ctx.count("clients_complete")
            ctx.count("servers")
        finally:
            srv.stop()
            srv.err.close()

    def special(what):
        """One server each: a long pause, a big file, very many clients."""
        rng = ctx.rng(what)
        d = ctx.newdir("srv")
        path = os.path.join(d, "m.a2m")
        data = content(rng, {"pause": 12000003, "ages": 12000003, "big": 4097, "many": 30000, "restart": 12000003, "replace": 12000003}[what])
        if what == "big":
            data = content(rng, 1048571) * ctx.scale(200, 1100) + data
        put(path, data, rng)
        srv = Server(path, 1, factor=200 if what == "ages" else None)
        try:
            with ctx.guard(special=what):
                if what in ("pause", "ages"):
                    # a viewer who pauses the movie for a while; the pause of
                    # 9 s lasts half an hour on the clock of the server
                    how = "stall%d" % (9 if what == "ages" else ctx.scale(35, 700))
                    s = connect(srv, rng, small=True)
                    got, ended = read_all(s, rng, how)
                    s.close()
                    judge(got, ended, data, how, "start")
                    ctx.count("long_pauses")
                    s = connect(srv, rng, small=True)
                    got, ended = read_all(s, rng, "slow")
                    s.close()
                    judge(got, ended, data, "slow", how)
                elif what == "big":
                    for _ in range(2):
                        s = connect(srv, rng, False)
                        got, ended = read_all(s, rng, "fast")
                        s.close()
                        judge(got, ended, data, "fast", "big")
                        ctx.count("big_files")
                elif what == "replace":
                    # a new movie takes the file's name while a client is served
                    for k in range(ctx.scale(6, 40)):
                        s = connect(srv, rng, small=True)
                        n = rng.choice((1, 2048, 300000, 5000000))
                        got = bytearray()
                        while len(got) < n:
                            b = s.recv(min(65536, n - len(got)))
                            if not b:
                                break
                            got += b
                        new = content(rng, rng.choice((len(data), 12000003, 9000000, 13000000)))
                        if k % 3 == 2:
                            os.remove(path)
                            time.sleep(0.05)
                        with open(path + ".new", "wb") as f:
                            f.write(new)
                        os.replace(path + ".new", path)
                        rest, ended = read_all(s, rng, "fast")
                        s.close()
                        judge(bytes(got) + rest, ended, data, "fast, while the file is replaced", "replace")
                        data = new
                        s = connect(srv, rng, False)
                        got, ended = read_all(s, rng, "fast")
                        s.close()
                        judge(got, ended, data, "fast", "replace")
                        ctx.count("replaced_while_served")
                elif what == "restart":
                    for k in range(ctx.scale(5, 15)):
                        s = connect(srv, rng, small=k % 5 > 2)
                        if k % 5 > 2:       # in the middle of the movie
                            s.recv(5000)
                            srv.interrupt((signal.SIGINT, signal.SIGTERM)[k % 2])
                            s.close()
                        else:
                            got, ended = read_all(s, rng, "fast")
                            judge(got, ended, data, "fast", "restart")
                            time.sleep(0.2)
                            s.close()
                            time.sleep(0.2)
                            if k % 5:
                                srv.interrupt((signal.SIGINT, signal.SIGTERM)[k % 2])
                        srv.stop()
                        srv.err.close()
                        try:
                            srv = Server(path, again=srv.port)
                            ctx.count("restarts")
                        except core.Inconclusive:       # somebody took the port
                            srv = Server(path, 1)
                else:
                    n = ctx.scale(1300, 20000)
                    for k in range(n):
                        s = connect(srv, rng, False)
                        if k % 3 == 1:
                            s.close()
                            continue
                        if k % 3 == 2:
                            s.recv(100)
                            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                            s.close()
                            continue
                        got, ended = read_all(s, rng, "fast")
                        s.close()
                        judge(got, ended, data, "client %d" % k, "many")
                    ctx.count("clients_of_one_server", n)
                s = connect(srv, rng, False)
                got, ended = read_all(s, rng, "fast")
                s.close()
                judge(got, ended, data, "last", what)
                ctx.count("clients_complete")
                ctx.seen(what)
        finally:
            srv.stop()
            srv.err.close()

    ctx.pmap(lambda a: job(a) if isinstance(a, int) else special(a),
             ["pause", "ages", "big", "many", "restart", "replace"] + list(range(ctx.scale(16, 64))), procs=10)
    ctx.need("long_pauses", 2)
    ctx.need("big_files")
    ctx.need("restarts", 2)
    ctx.need("replaced_while_served", 5)
    ctx.need("clients_of_one_server", 1000)
    ctx.need("clients_complete", 40)
