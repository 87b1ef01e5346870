"""Evaluations: whole trips of a synthetic movie: the real command line writes a
stream file, a real server process sends it to a socket client, and the bytes,
cut and delayed as the client happened to receive them plus random delays, feed
the freshly assembled player on the 6502 machine.  The speaker pulses measured
in cycles are compared with the movie's own audio, and the machine's screen
memory, rendered by the independent display model, with the movie's pictures at
the end of every picture that was shown for long enough and at the end of the
movie.  Distinct = distinct (mode, palette, selection, schedule, movie)."""
import os, random, shutil, socket, time
from fractions import Fraction
import numpy as np
import core, media, decode, streams, vm, oracle
import c08, c19, c23, c32
from core import Violation

HOLD = 9        # updates of each bank after which a picture must be complete


def download(srv, rng):
    """The file as a client sees it; returns (bytes, chunk sizes)."""
    s = socket.create_connection(("127.0.0.1", srv.port), 60)
    out, sizes = bytearray(), []
    s.settimeout(60)
    while True:
        try:
            b = s.recv(rng.choice((1, 13, 256, 1460, 1460, 2048, 8192)))
        except (socket.timeout, ConnectionError) as e:
            raise Violation("server", "after %d bytes the server's connection fails: %r" % (len(out), e))
        if not b:
            break
        out += b
        sizes.append(len(b))
    s.close()
    return bytes(out), sizes


def movie_of(rng, dhgr, fps, rate, every, ops):
    """Pictures held over several input frames; the last one is held longest."""
    per = Fraction(rate * fps[1], fps[0])
    nf = int(ops / per) + 1
    two = rng.random() < 0.5
    npic = 2 if two else rng.randrange(2, 5)
    fr, starts, prev = [], [], media.picture(rng, dhgr, "blank")
    hold_last = max(1, int(nf * (Fraction(1, 2) if two else Fraction(7, 10))))
    cuts = sorted(rng.sample(range(1, max(npic, nf - hold_last + 1)), npic - 1)) if nf - hold_last >= npic else list(range(1, min(npic, nf)))
    if two:
        cuts = [nf - hold_last]
    for i in range(nf):
        if i == 0 or i in cuts:
            prev = media.picture(rng, dhgr, rng.choice(("sparse", "sparse", "blocks")) if i == 0 else "sparse", prev)
            if i == 0:
                # little enough to be drawn at once
                for m in prev:
                    if m is not None:
                        keep = np.random.RandomState(rng.getrandbits(30)).rand(32, 256) < 0.02
                        m[~keep] = 0
            starts.append(i)
        fr.append(prev)
    return fr, starts, per


def run(ctx):
    streams.prepare(ctx)
    pl = vm.player(ctx)
    import movie                # while the working directory is the one it expects
    entries = streams.entries()

    def job(i):
        rng = ctx.rng(i)
        dhgr = i % 2 == 0
        pal = "NTSC" if i % 4 < 2 else "IIGS"
        every = rng.choice((1, 1, 2, 3))
        fps = rng.choice(((10, 1), (24, 2), (30000, 2502), (15, 1)) if dhgr else ((20, 1), (24, 1), (30000, 1501)))
        rate = rng.choice((3000, 2940, 4000, 14700))
        if rate == 14700:
            fps = (fps[0] * 4, fps[1])
        ops = ctx.scale(rng.choice((8000, 14500)), 20000) if dhgr else ctx.scale(rng.choice((4500, 8000)), 12000)
        fr, starts, per = movie_of(rng, dhgr, fps, rate, every, ops)
        n = int(len(fr) * per) + rng.choice((-40, 1, 700))
        lv = streams.levels(rng, n)
        d = ctx.newdir("e2e")
        name = rng.choice(("film.mp4", "my.film.v2.mov", "f"))
        path = os.path.join(d, name)
        clip = media.Clip(path, fr, fps=fps, rate=rate, samples=media.levels_to_samples(lv),
                          size=rng.choice(media.SIZES), scenic=True)
        media.CURRENT[0] = clip
        media.seed_encoder(rng)
        argv = [path, "--video_mode", "DHGR" if dhgr else "HGR", "--palette", pal, "--audio_normalization", "1",
                "--every_n_video_frames", str(every)] + (["--audio_bitrate", str(rate)] if rate != 14700 else [])
        if rng.random() < 0.5:
            out = os.path.join(d, "out.bin")
            argv += ["--output", out]
        else:
            out = os.path.splitext(path)[0] + ".a2m"
        with ctx.guard(argv=argv[1:], frames=len(fr), pictures=starts):
            if c32.cli(argv, d):
                raise Violation("cli", "the command line fails")
            srv = c23.Server(out, 1)
            try:
                data, sizes = download(srv, rng)
                if rng.random() < 0.5:
                    again, sizes = download(srv, rng)
                    if again != data:
                        raise Violation("server", "a second client receives other bytes")
            finally:
                srv.stop()
                srv.err.close()
            # what the stream should contain, from the movie alone
            if n < len(fr) * per:
                want_ops = n
            else:
                t = len(fr) * per           # the first sample at which a missing frame is due
                want_ops = -(-t.numerator // t.denominator) - 1
            ev = decode.decode(data, entries)
            op = [e for e in ev if e[0] == "op"]
            if abs(len(op) - want_ops) > 1:
                raise Violation("length", "the stream has %d opcodes, the movie %d samples up to its end" % (len(op), want_ops))
            # the schedule: as received, with pauses
            kind = rng.choice(("brisk", "jerky", "starved", "burst"))
            t, sched = rng.randrange(100000), []
            for z in sizes:
                sched.append((t, z))
                t += {"brisk": rng.randrange(1, 4) * z, "jerky": rng.choice((0, 0, 0, 40000)), "starved": 14 * z + rng.randrange(2000),
                      "burst": rng.choice((0, 0, 0, 0, 200000))}[kind]
            m = vm.VM(pl, rng.getrandbits(30), 1 << 20, (vm.TICK, vm.ANOM))
            m.net(data, sched)
            budget = vm.cycle_budget(len(data), sched)
            m.keys([(budget - 500000, 0x51)])
            eq = c08.Eq(dhgr, pal)
            # pictures in the order the encoder is to show them
            shown = [k for k in range(len(fr)) if k % every == 0 and k * per < len(op)]
            checks = []
            for x, k in enumerate(shown):
                last = x + 1 == len(shown)
                if not last and fr[shown[x + 1]] is fr[k]:
                    continue
                first = next(f for f in shown if fr[f] is fr[k])
                begin = first * per
                end = len(op) if last else shown[x + 1] * per
                # updates of either bank while this picture was shown
                nb = int((end - begin) / 292)
                upd = sum(1 for f in shown if first <= f <= k) if not dhgr else nb // 2
                room = (end - begin) / max(1, upd)
                if upd >= HOLD and room > 100:
                    checks.append((len(op) if last else int(end) - 1, k))
            cyc = 0
            for nop, k in checks:
                pos = op[nop - 1][7] + 7 if nop <= len(op) else len(data)
                # exactly after that opcode's stores: when the two bytes that follow it are read
                while m.get(vm.NEXT) < min(pos + 2, len(data)) and not m.get(vm.HALTED) in (vm.ATMLI, vm.BRK, vm.ILLEGAL) and cyc < budget - 600000:
                    cyc = m.get(vm.CYC) + (4 if m.get(vm.NEXT) > pos - 70 else 300)
                    m.run(cyc)
                got = [m.screen(0), m.screen(1)]
                tgt = [fr[k][0], fr[k][1] if dhgr else np.zeros((32, 256), np.uint8)]
                bad = eq.bad(got, eq.px(tgt))
                if bad.any():
                    p, x = np.argwhere(bad)[0]
                    raise Violation("picture", "after %d opcodes the machine's screen differs from frame %d in %d visible dots, e.g. page %d dot %d" % (
                        nop, k, bad.sum(), p + 32, x - 3), schedule=kind)
                ctx.count("pictures_compared")
            h = m.run(budget)
            st = m.state()
            log = m.log()
            m.check_anomalies()
            final = [m.screen(0), m.screen(1)]
            if h != vm.ATMLI:
                raise Violation("run", "the player does not play to the end: %s" % st)
            # pulses against the movie's samples
            sc = vm.Script.__new__(vm.Script)
            sc.ops = [(34 + 2 * lv[j], e[3]) for j, e in enumerate(op)]
            sc.start = [e[7] for e in op]
            sc.acks = [(e[2], e[1]) for e in ev if e[0] == "ack"]
            sc.term = next(e[1] for e in ev if e[0] == "terminate")
            log = log[log["kind"] == vm.TICK]
            a, b = c19.walk(sc, list(zip(log["cyc"].tolist(), log["pos"].tolist())), False)
            ctx.count("samples_played", a)
            ctx.count("acks", b)
            # bytes that were never different are still clear
            touched = [np.zeros((32, 256), bool), np.zeros((32, 256), bool)]
            for e in op:
                for o in e[5]:
                    touched[e[6]][e[3] - 32, o] = True
            for bk in (0, 1):
                if (final[bk][~touched[bk]] != 0).any() and (dhgr or bk == 0):
                    raise Violation("clear", "screen bytes no opcode wrote are not clear at the end")
            m.free()
            ctx.count("evaluations")
            ctx.count("trips_" + ("dhgr" if dhgr else "hgr"))
            ctx.count("schedule_" + kind)
            ctx.seen(dhgr, pal, every, fps, kind, i)
            ctx.sample({"argv": argv[1:], "frames": len(fr), "samples": a, "bytes": len(data), "schedule": kind, "chunks": len(sizes), "pictures_checked": [k for _, k in checks]})
        shutil.rmtree(d, ignore_errors=True)
    ctx.pmap(job, range(ctx.scale(24, 128)))
    ctx.need("trips_dhgr", 2)
    ctx.need("trips_hgr", 2)
    ctx.need("pictures_compared", 4)
    ctx.need("samples_played", 10000)
