"""Evaluations: runs of the real command line (transcoder/main.py as __main__)
with random options, defaults, file names and working directories; the directory
tree is recorded before and after, and the file written is compared with the
stream the encoder produces in-process for exactly the requested options (same
seed for its tie breaking), as are the converter's arguments.  Distinct =
distinct (file name, output form, options)."""
import os, random, runpy, shutil, sys, threading, time
import numpy as np
import core, media, decode, streams
from core import Violation

NAMES = ["movie.mp4", "movie", "a.b.c.mkv", "My Movie (2019).mp4", "x.tar.gz", "UPPER.MOV", "clip.v1", "it's.mp4", "a..mp4", "mp4", "1977.avi", "a.a2m.mp4", ".hidden", ".hidden.mp4", "..x.y"]
DIRS = ["", "sub", "v1.0", "v1.0/x.y", "with space", "a.b/../a.b", "./sub"]


def stem_of(name):
    """The name without its last extension; leading dots begin no extension."""
    lead = len(name) - len(name.lstrip("."))
    return name[:lead] + name[lead:].rsplit(".", 1)[0]


def tree(top):
    out = {}
    for root, ds, fs in os.walk(top):
        for x in ds:
            out[os.path.relpath(os.path.join(root, x), top)] = None
        for x in fs:
            p = os.path.join(root, x)
            try:
                with open(p, "rb") as f:
                    out[os.path.relpath(p, top)] = f.read()
            except FileNotFoundError:       # a conversion thread may still be at work
                pass
    return out


def settle(before):
    """The real program ends here and its threads with it; ours are waited
    for (one may be blocked for ever on its full queue)."""
    end = time.monotonic() + 5
    for t in threading.enumerate():
        if t not in before:
            t.join(max(0.05, min(0.5, end - time.monotonic())))


def cli(argv, cwd):
    old, oldcwd = sys.argv, os.getcwd()
    sys.argv = [os.path.join(core.REPO, "transcoder", "main.py")] + argv
    os.chdir(cwd)
    err = sys.stderr
    try:
        with core.quiet():
            sys.stderr = core.NULL
            runpy.run_path(sys.argv[0], run_name="__main__")
        return 0
    except SystemExit as e:
        return e.code or 0
    finally:
        sys.stderr = err
        sys.argv = old
        os.chdir(oldcwd)


def options(rng, i):
    """(argv, values) with each option given or left to its default."""
    o = dict(video_mode="DHGR", palette="NTSC", audio_bitrate=14700, audio_normalization=None, every_n_video_frames=2, max_output_mb=0)
    argv = []
    given = {}
    if i % 6:
        for k, vs in (("video_mode", ["HGR", "HGR", "DHGR"]), ("palette", ["IIGS", "NTSC"]), ("audio_bitrate", [22500, 8000, 3000, 14364]),
                      ("audio_normalization", [1.0, 0.25, 2.5, 7]), ("every_n_video_frames", [1, 2, 3, 5]),
                      ("max_output_mb", [0, 0.001, 0.0025, 0.002, 0.0035, 5, 1050.5 / 1048576, 2023.5 / 1048576, 4081.25 / 1048576])):
            if rng.random() < 0.5:
                given[k] = rng.choice(vs)
    ks = list(given)
    rng.shuffle(ks)
    for k in ks:
        o[k] = given[k]
        argv += ["--%s=%s" % (k, given[k])] if rng.random() < 0.5 else ["--" + k, str(given[k])]
    return argv, o, given


def run(ctx):
    streams.prepare(ctx)
    import movie, palette, video_mode

    def job(i):
        rng = ctx.rng(i)
        top = ctx.newdir("cli")
        d, name = DIRS[i % len(DIRS)], NAMES[(i * 5 + i // len(NAMES)) % len(NAMES)]
        if i < 8:       # names without an extension, in directories with one
            d, name = DIRS[2 + i % 2 if i < 4 else i % len(DIRS)], ("movie", "mp4", ".hidden", "noext")[i % 4]
        opts, o, given = options(rng, i)
        dhgr = o["video_mode"] == "DHGR"
        rate = rng.choice((o["audio_bitrate"], 44100, 22050))
        ch = rng.choice((1, 1, 2))
        want_ops = rng.choice((150, 500, 700))
        n = max(8, want_ops * rate // o["audio_bitrate"]) * ch
        fps = (rng.choice((60, 120, 50)) * max(1, o["audio_bitrate"] // 10000), 1)
        need = 2 + want_ops * fps[0] // o["audio_bitrate"]
        fr = media.pictures(rng, dhgr, need + rng.choice((0, 3)), ["blocks", "sparse", "flat", "blank"])
        r = np.random.RandomState(i)
        samples = np.clip(np.cumsum(r.randint(-3000, 3000, n)) % 40000 - 20000, -32768, 32767)
        work = os.path.join(top, "work")
        os.makedirs(os.path.join(work, "sub")), os.makedirs(os.path.join(work, "v1.0", "x.y")), os.makedirs(os.path.join(work, "with space")), os.makedirs(os.path.join(work, "a.b"))
        os.makedirs(os.path.join(top, "else.where"))
        path = os.path.join(work, d, name)
        clip = media.Clip(os.path.normpath(path), fr, fps=fps, rate=rate, samples=samples, channels=ch)
        media.CLIPS[path] = clip
        # bystanders that must not be touched
        for x in ("other.mp4", "v1.a2m", "b.a2m", "movie.txt"):
            with open(os.path.join(work, x), "wb") as f:
                f.write(x.encode())
        cwd = rng.choice((work, os.path.join(top, "else.where"), os.path.join(work, "sub")))
        arg = rng.choice((path, os.path.relpath(path, cwd)))
        form = rng.choice(("default", "default", "here", "abs", "noext", "existing"))
        if i < 8:
            form = "default"
        if form == "default":
            out = os.path.join(work, d, stem_of(name)) + ".a2m"
        else:
            oarg = {"here": "out.bin", "abs": os.path.join(top, "else.where", "o.p.a2m"), "noext": "plain",
                    "existing": os.path.join(work, "movie.txt")}[form]
            out = os.path.join(cwd, oarg)
            opts = opts + ["--output", oarg]
        if rng.random() < 0.5:
            # an earlier, longer output is there already
            with open(out, "wb") as f:
                f.write(b"\xa5" * rng.choice((100, 5000, 300000)))
            ctx.count("outputs_replaced")
        argv = opts + [arg] if rng.random() < 0.5 else [arg] + opts
        media.CURRENT[0] = clip
        before = tree(top)
        del media.CALLS[:]
        with ctx.guard(argv=argv, cwd=os.path.relpath(cwd, top), file=os.path.join(d, name)):
            random.seed(i), np.random.seed(i)
            threads = threading.enumerate()
            rc = cli(argv, cwd)
            settle(threads)
            calls = list(media.CALLS)
            if rc:
                raise Violation("exit", "the command line exits with %r" % (rc,))
            after = tree(top)
            rel = os.path.relpath(out, top)
            if rel not in after:
                raise Violation("output", "no output file %s; new: %r" % (rel, sorted(set(after) - set(before))[:6]))
            got = after[rel]
            for p in before:
                if p != rel and after.get(p, 0) != before[p]:
                    raise Violation("touched", "the run changed or removed %s" % p)
            new = sorted(set(after) - set(before) - {rel})
            here = os.path.relpath(os.path.dirname(os.path.normpath(path)), top)
            tops = set()
            for p in new:
                q = os.path.relpath(p, here)
                if q == ".." or q.startswith("../"):
                    raise Violation("stray", "the run created %s, outside the movie's frame directory" % p)
                tops.add(q.split(os.sep)[0])
            stem = stem_of(name)
            if len(tops) > 1 or any(not t.startswith(stem) for t in tops):
                raise Violation("stray", "next to the movie %s the run created %r" % (name, sorted(tops)))
            if tops and after[os.path.join(here, list(tops)[0])] is not None:
                raise Violation("stray", "the run created the file %r" % sorted(tops))
            ctx.count("created_paths", len(new))
            # the same encode in-process
            ref = os.path.join(top, "ref")
            os.makedirs(ref)
            rp = os.path.join(ref, "m.mp4")
            rclip = media.Clip(rp, fr, fps=fps, rate=rate, samples=samples, channels=ch)
            media.CURRENT[0] = rclip
            del media.CALLS[:]
            random.seed(i), np.random.seed(i)
            mb = o["max_output_mb"]
            with core.quiet():
                m = movie.Movie(rp, every_n_video_frames=o["every_n_video_frames"], audio_bitrate=o["audio_bitrate"],
                                audio_normalization=o["audio_normalization"], max_bytes_out=mb * 1048576 or None,
                                video_mode=video_mode.VideoMode[o["video_mode"]], palette=palette.Palette[o["palette"]])
                want = bytes(bytearray(m.emit_stream(m.encode())))
            if got != want:
                k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
                raise Violation("stream", "with options %r the command line writes %d bytes that differ at byte %d from the %d bytes the encoder produces for them" % (
                    given, len(got), k, len(want)))
            kinds = {c[1][:2] for c in calls}
            if kinds != {c[1][:2] for c in media.CALLS} or any(c[1][0] != o["video_mode"].lower() for c in calls):
                raise Violation("converter", "converter arguments %r for %r" % (sorted(kinds), given))
            # and directly against the options
            number = {"NTSC": "P5", "IIGS": "P0"}[o["palette"]]     # BMP2DHR's numbers
            if any([x for x in c[1][1:] if x[:1] == "P"] != [number] for c in calls):
                raise Violation("converter", "palette %s is given to the converter as %r, its number is %s" % (o["palette"], sorted(kinds), number))
            ctx.count("converter_calls", len(calls))
            nops = sum(1 for e in decode.decode(got, streams.entries()) if e[0] == "op")
            if got[6] != int(dhgr):
                raise Violation("mode", "mode byte %d for %s" % (got[6], o["video_mode"]))
            if mb and nops and 7 * (nops - 1) > mb * 1048576:
                raise Violation("limit", "%d opcodes with a limit of %r MB" % (nops, mb))
            if not mb or mb * 1048576 > len(got):
                exact = len(samples) // ch * o["audio_bitrate"] / rate
                if abs(nops - exact) > 3:
                    raise Violation("bitrate", "%d samples for %.1f due at %d Hz" % (nops, exact, o["audio_bitrate"]))
            ctx.count("evaluations")
            ctx.count("runs_" + form)
            ctx.count("opcodes", nops)
            if not given:
                ctx.count("defaults_only")
            ctx.seen(d, name, form, tuple(sorted(given.items())))
            ctx.sample({"argv": argv, "output": rel, "bytes": len(got), "created": sorted(tops)})
        shutil.rmtree(top, ignore_errors=True)

    def refused(i):
        """Options outside the documented choices are refused before anything is written."""
        rng = ctx.rng("ref", i)
        top = ctx.newdir("bad")
        path = os.path.join(top, "m.mp4")
        media.Clip(path, media.pictures(rng, True, 2, ["blank"]), samples=[0] * 50)
        before = tree(top)
        bad = [["--video_mode", "LORES"], ["--palette", "PAL"], ["--audio_bitrate", "fast"], ["--max_output_mb", "x"], ["--every_n_video_frames", "1.5"], ["--nosuch"]][i]
        with ctx.guard(argv=bad):
            rc = cli([path] + bad, top)
            if not rc:
                raise Violation("accepted", "%r is accepted" % bad)
            if tree(top) != before:
                raise Violation("touched", "files were written although %r was refused" % bad)
            ctx.count("refused")
            ctx.count("evaluations")
            ctx.seen(tuple(bad))
    ctx.pmap(job, range(ctx.scale(64, 512)))
    ctx.pmap(refused, range(6))
    ctx.need("runs_default", 10)
    ctx.need("defaults_only", 4)
