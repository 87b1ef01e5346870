"""Independent models: display, colour difference, pixel edit distance, memory
layout.  No repository code except in load_tables (which takes the repository's
own context encoding, judged by C13-C15)."""
import ctypes, math
import numpy as np
import core

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = core.clib("oracle")
        for n in ("o_dist", "o_store_one"):
            getattr(_lib, n).restype = ctypes.c_int
    return _lib


def ptr(a):
    return ctypes.c_void_p(a.ctypes.data) if a is not None else ctypes.c_void_p(0)


# ------------------------------------------------------------------ colours
# HGR dot numbering of the 16 nominal colours
NAMES = {0b0000: "BLACK", 0b0001: "MAGENTA", 0b1000: "BROWN", 0b1001: "ORANGE",
         0b0100: "DARK_GREEN", 0b0101: "GREY1", 0b1100: "GREEN", 0b1101: "YELLOW",
         0b0010: "DARK_BLUE", 0b0011: "VIOLET", 0b1010: "GREY2", 0b1011: "PINK",
         0b0110: "MED_BLUE", 0b0111: "LIGHT_BLUE", 0b1110: "AQUA", 0b1111: "WHITE"}
NUM = {v: k for k, v in NAMES.items()}


def ror4(v, n=1):
    n &= 3
    return ((v >> n) | (v << (4 - n))) & 15


# In DHGR the colour reference is one dot off: same names, rotated numbers
DHGR_NAMES = {ror4(k): v for k, v in NAMES.items()}

RGB = {
    "NTSC": dict(BLACK=(0, 0, 0), MAGENTA=(148, 12, 125), BROWN=(99, 77, 0), ORANGE=(249, 86, 29),
                 DARK_GREEN=(51, 111, 0), GREY1=(126, 126, 126), GREEN=(67, 200, 0), YELLOW=(221, 206, 23),
                 DARK_BLUE=(32, 54, 212), VIOLET=(188, 55, 255), GREY2=(126, 126, 126), PINK=(255, 129, 236),
                 MED_BLUE=(7, 168, 225), LIGHT_BLUE=(158, 172, 255), AQUA=(93, 248, 133), WHITE=(255, 255, 255)),
    "IIGS": dict(BLACK=(0, 0, 0), MAGENTA=(221, 0, 51), BROWN=(136, 85, 34), ORANGE=(255, 102, 0),
                 DARK_GREEN=(0, 119, 0), GREY1=(85, 85, 85), GREEN=(0, 221, 0), YELLOW=(255, 255, 0),
                 DARK_BLUE=(0, 0, 153), VIOLET=(221, 0, 221), GREY2=(170, 170, 170), PINK=(255, 153, 136),
                 MED_BLUE=(34, 34, 255), LIGHT_BLUE=(102, 170, 255), AQUA=(0, 255, 153), WHITE=(255, 255, 255)),
}


def lab(rgb):
    def lin(c):
        c /= 255.
        return c / 12.92 if c <= 0.04045 else ((c + 0.055) / 1.055) ** 2.4
    r, g, b = map(lin, rgb)
    x = 0.412424 * r + 0.357579 * g + 0.180464 * b
    y = 0.212656 * r + 0.715158 * g + 0.0721856 * b
    z = 0.0193324 * r + 0.119193 * g + 0.950444 * b

    def f(t):
        return t ** (1 / 3.) if t > 216 / 24389. else (24389 / 27. * t + 16) / 116
    fx, fy, fz = f(x / 0.95047), f(y), f(z / 1.08883)
    return 116 * fy - 16, 500 * (fx - fy), 200 * (fy - fz)


def ciede2000(p, q):
    L1, a1, b1 = p
    L2, a2, b2 = q
    rad, deg = math.radians, math.degrees
    cb = (math.hypot(a1, b1) + math.hypot(a2, b2)) / 2
    g = 0.5 * (1 - math.sqrt(cb ** 7 / (cb ** 7 + 25. ** 7)))
    a1, a2 = a1 * (1 + g), a2 * (1 + g)
    c1, c2 = math.hypot(a1, b1), math.hypot(a2, b2)
    h1 = deg(math.atan2(b1, a1)) % 360 if c1 else 0.
    h2 = deg(math.atan2(b2, a2)) % 360 if c2 else 0.
    dl, dc = L2 - L1, c2 - c1
    if c1 * c2 == 0:
        dh = 0.
    else:
        dh = h2 - h1
        if dh > 180:
            dh -= 360
        elif dh < -180:
            dh += 360
    dH = 2 * math.sqrt(c1 * c2) * math.sin(rad(dh) / 2)
    lb, cbp = (L1 + L2) / 2, (c1 + c2) / 2
    if c1 * c2 == 0:
        hb = h1 + h2
    elif abs(h1 - h2) <= 180:
        hb = (h1 + h2) / 2
    elif h1 + h2 < 360:
        hb = (h1 + h2 + 360) / 2
    else:
        hb = (h1 + h2 - 360) / 2
    t = (1 - 0.17 * math.cos(rad(hb - 30)) + 0.24 * math.cos(rad(2 * hb)) +
         0.32 * math.cos(rad(3 * hb + 6)) - 0.20 * math.cos(rad(4 * hb - 63)))
    sl = 1 + 0.015 * (lb - 50) ** 2 / math.sqrt(20 + (lb - 50) ** 2)
    sc = 1 + 0.045 * cbp
    sh = 1 + 0.015 * cbp * t
    rt = -2 * math.sqrt(cbp ** 7 / (cbp ** 7 + 25. ** 7)) * math.sin(
        rad(60 * math.exp(-((hb - 275) / 25) ** 2)))
    return math.sqrt((dl / sl) ** 2 + (dc / sc) ** 2 + (dH / sh) ** 2 + rt * (dc / sc) * (dH / sh))


def cost_float(palname, names):
    """16x16 colour differences, indexed by pixel value under `names`."""
    m = np.zeros((16, 16))
    for i, a in names.items():
        for j, b in names.items():
            m[i, j] = ciede2000(lab(RGB[palname][a]), lab(RGB[palname][b]))
    return m


_cost = {}


def cost(palname):
    """The integer costs the tables are built with (indexed by HGR numbers;
    see known finding on DHGR, C16)."""
    if palname not in _cost:
        _cost[palname] = np.ascontiguousarray(cost_float(palname, NAMES).astype(np.int32))
    return _cost[palname]


# ------------------------------------------------------------------- layout
def addr(y, x):
    """Offset within the 8K page of row y, byte x."""
    return 1024 * (y % 8) + 128 * ((y // 8) % 8) + 40 * (y // 64) + x


VISIBLE = np.zeros(8192, dtype=bool)
for _y in range(192):
    for _x in range(40):
        VISIBLE[addr(_y, _x)] = True
VISIBLE2 = VISIBLE.reshape(32, 256)
HOLES2 = ~VISIBLE2


# ------------------------------------------------------------------ display
def u8(a):
    return np.ascontiguousarray(a, dtype=np.uint8)


def pixels(dhgr, main, aux):
    """Colours of dots -3..3584 of each page: (32, 3588)."""
    main = u8(main).reshape(32, 256)
    aux = u8(aux).reshape(32, 256) if dhgr else main
    out = np.empty((32, 256 * 14 + 4), dtype=np.uint8)
    for p in range(32):
        lib().o_pixels(int(dhgr), ptr(main[p]), ptr(aux[p]), ptr(out[p]))
    return out


def diff_page(dhgr, aux_bank, sm, sx, tm, tx, cst):
    out = np.empty(256, dtype=np.int32)
    sm, tm = u8(sm), u8(tm)
    sx = u8(sx) if dhgr else sm
    tx = u8(tx) if dhgr else tm
    lib().o_diff_page(int(dhgr), int(aux_bank), ptr(sm), ptr(sx), ptr(tm), ptr(tx), ptr(cst), 1, ptr(out))
    return out


def diff(dhgr, aux_bank, sm, sx, tm, tx, cst):
    return np.array([diff_page(dhgr, aux_bank, sm[p], None if sx is None else sx[p],
                               tm[p], None if tx is None else tx[p], cst) for p in range(32)])


def store_page(dhgr, aux_bank, tm, tx, content, cst):
    out = np.empty(256, dtype=np.int32)
    tm = u8(tm)
    tx = u8(tx) if dhgr else tm
    lib().o_store_page(int(dhgr), int(aux_bank), ptr(tm), ptr(tx), int(content), ptr(cst), 1, ptr(out))
    return out


def store_one(dhgr, aux_bank, tm, tx, o, content, cst):
    tm = u8(tm)
    tx = u8(tx) if dhgr else tm
    return lib().o_store_one(int(dhgr), int(aux_bank), ptr(tm), ptr(tx), int(o), int(content), ptr(cst), 1)


def visible_pixel_mask(dhgr):
    """Dots of each page whose colour belongs to displayed bytes."""
    m = np.zeros((32, 256 * 14 + 4), dtype=bool)
    for p in range(32):
        for o in range(256):
            if VISIBLE2[p, o]:
                m[p, 14 * o + 3:14 * o + 17] = True
    return m


def string_table(px, n, cst, tc=1):
    """px: (nvals, n) pixel values -> (nvals, nvals) distances."""
    px = u8(px)
    out = np.empty((px.shape[0], px.shape[0]), dtype=np.uint16)
    lib().o_table(ptr(px), px.shape[0], n, ptr(cst), tc, ptr(out))
    return out


def context_pixels(cls, nominal, o):
    """Pixel strings of all masked contexts at column position o, by the
    repository's own encoding."""
    import colours
    n = int(cls.MASKED_DOTS)
    f = colours.dots_to_nominal_colour_pixel_values
    f = getattr(f, "__wrapped__", f)
    ph = cls.PHASES[o]
    buf = bytearray()
    for i in range(2 ** int(cls.MASKED_BITS)):
        buf += bytes(f(n, cls.to_dots(i, byte_offset=o), nominal, init_phase=ph))
    return np.frombuffer(bytes(buf), dtype=np.uint8).reshape(-1, n)


_tables = {}


def load_tables(modes=("HGR", "DHGR"), pals=("NTSC",)):
    """Builds the edit-distance tables in memory and makes the repository use
    them instead of the (absent or slow to load) files."""
    import screen, colours
    for mode in modes:
        cls = screen.HGRBitmap if mode == "HGR" else screen.DHGRBitmap
        nom = colours.HGRColours if mode == "HGR" else colours.DHGRColours
        px = None
        for pal in pals:
            if (mode, pal) in _tables:
                continue
            nv = 2 ** int(cls.MASKED_BITS)
            if px is None:
                px = [u8(context_pixels(cls, nom, o)) for o in range(len(cls.PHASES))]
            t = np.empty((len(px), nv * nv), dtype=np.uint16)
            for o, p in enumerate(px):
                lib().o_table(ptr(p), nv, p.shape[1], ptr(cost(pal)), 1, ptr(t[o]))
            _tables[mode, pal] = t
    screen.Bitmap.edit_distances = classmethod(
        lambda cls, palette_id: _tables[cls.NAME, palette_id.name])
    return _tables
