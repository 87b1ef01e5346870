"""Random transcodes and directly driven updates (interrupted at random
moments, bank flips at random times); for every opcode the visible error of all
positions is recomputed from raw memory with an independent display model, and
the first store, the further stores (must improve, best first, none left
unused) and the padding are judged.  Updates starved for hundreds of frames and
pages of look-alike bytes drawn to the end are among them.  Distinct = distinct (bank, page, first
offset, content)."""
import core, streams, updmodel

KIND = {"select"}


def direct(ctx, a, kind):
    i, = a
    rng = ctx.rng("direct", i)
    dhgr = i % 2 == 1
    import media
    kp = rng.choice([media.KINDS, ["noise"], ["sparse", "onepage", "blocks"], ["grey", "palette", "columns"], ["flat", "blocks"], ["edges", "sparse"]])
    mut = None
    if i % 3 == 2:
        # one small error that persists while the rest changes all the time
        def mut(pics):
            pics[0][0][:, :] = 0
            for m, x in pics:
                m[20, 5] = 1
    updmodel.direct_run(ctx, rng, dhgr, rng.choice(["NTSC", "IIGS"]), kp, ctx.scale(14, 40), ctx.scale(60, 80), kind, mut)
    ctx.count("histories")


def run_both(ctx, kind):
    streams.prepare(ctx)
    ctx.pmap(lambda a: direct(ctx, a, kind), [(i,) for i in range(ctx.scale(16, 160))])
    jl = streams.jobs(ctx, ctx.scale(12, 160), ctx.scale(900, 3000), holes=False)
    streams.run_jobs(ctx, jl, lambda c, r: updmodel.stream_monitor(c, r, kind))
    ctx.need("secondary_stores", 500)
    ctx.need("chosen_among_more", 50)
    ctx.need("ordered_ops", 1000)
    ctx.need("carried_positions", 100)


def run(ctx):
    run_both(ctx, KIND)
    import c10
    ctx.pmap(lambda a: a[0](ctx, a[1], KIND, *a[2:]), [(c10.ageing, i, ctx.scale(300, 1500)) for i in range(ctx.scale(6, 12))] +
             [(c10.twins, i) for i in range(ctx.scale(6, 60))])
    ctx.need("ageing_updates", 1000)
