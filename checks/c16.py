"""All 16 x 16 colour pairs of both palettes and both display modes: the costs
the repository computes, and those its string distance really charges for
single pixels in each mode's numbering, are compared with an independent
CIE2000 implementation applied to the palette's RGB values.  Distinct =
distinct (palette, mode, pair)."""
import numpy as np
import core, oracle
from core import Violation


def run(ctx):
    core.setup_transcoder(ctx.scratch)
    import make_data_tables as mdt, palette, colours
    # published test pairs pin the independent implementation itself
    for p, q, want in (((50, 2.6772, -79.7751), (50, 0, -82.7485), 2.0425), ((50, 3.1571, -77.2803), (50, 0, -82.7485), 2.8615),
                       ((50, -1.0, 2.0), (50, 0, 0), 2.3669), ((50, 2.5, 0), (73, 25, -18), 27.1492), ((50, 2.5, 0), (50, 0, -2.5), 4.3065),
                       ((60.2574, -34.0099, 36.2677), (60.4626, -34.1751, 39.4387), 1.2644), ((2.0776, 0.0795, -1.1350), (0.9033, -0.0636, -0.5514), 0.9082)):
        if abs(oracle.ciede2000(p, q) - want) > 1e-4:
            raise core.Inconclusive("colour difference oracle is wrong")
        ctx.count("reference_pairs")
    for pal in ("NTSC", "IIGS"):
        P = palette.PALETTES[palette.Palette[pal]]
        got_rgb = {c.name: tuple(int(round(v * 255)) for v in rgb.get_value_tuple()) for c, rgb in P.RGB.items()}
        if got_rgb != oracle.RGB[pal]:
            k = next(k for k in oracle.RGB[pal] if got_rgb.get(k) != oracle.RGB[pal][k])
            raise Violation("rgb", "%s palette: %s is %r, should be %r" % (pal, k, got_rgb.get(k), oracle.RGB[pal][k]))
        with core.quiet():
            dm = np.asarray(mdt.compute_diff_matrix(P))
            edp = mdt.compute_substitute_costs(P)
        if dm.shape != (16, 16) or (dm != dm.T).any() or dm.diagonal().any():
            raise Violation("matrix", "%s cost matrix is not a symmetric 16x16 matrix with zero diagonal" % pal)
        fl = oracle.cost_float(pal, oracle.NAMES)
        for a in range(16):
            for b in range(16):
                if dm[a, b] != int(fl[a, b]):
                    raise Violation("cost", "%s: %s to %s costs %d, CIE2000 difference is %.4f" % (
                        pal, oracle.NAMES[a], oracle.NAMES[b], dm[a, b], fl[a, b]))
                ctx.count("evaluations")
        for mode, names in (("HGR", oracle.NAMES), ("DHGR", oracle.DHGR_NAMES)):
            fl = oracle.cost_float(pal, names)
            alt = oracle.cost_float(pal, oracle.NAMES)
            for a in range(16):
                for b in range(16):
                    want = int(fl[a, b])
                    table = edp.substitute_costs[ord(mdt.pixel_char(a)), ord(mdt.pixel_char(b))]
                    real = mdt.edit_distance(edp, mdt.pixel_string((a,)), mdt.pixel_string((b,)), error=False)
                    # several pixels: charged independently
                    three = mdt.edit_distance(edp, mdt.pixel_string((a, a, a)), mdt.pixel_string((b, a, b)), error=False)
                    ctx.count("evaluations", 3)
                    ctx.seen(pal, mode, a, b)
                    if table == want and real == want and three == 2 * want:
                        continue
                    m = "%s %s: replacing %s by %s costs %g, CIE2000 difference is %.4f" % (pal, mode, names[a], names[b], real, fl[a, b])
                    x = int(alt[a, b])
                    if mode == "DHGR" and table == x and real == x and three == 2 * x:
                        ctx.count("dhgr_pairs_costed_by_hgr_numbering")
                        ctx.violation("dhgr-costs-by-hgr-numbering", m)
                    else:
                        raise Violation("charged", m)
            ctx.count("modes")
    ctx.need("modes", 4)
