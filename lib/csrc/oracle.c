/* Independent model of the Apple II (D)HGR display and of the pixel edit
 * distance.  Used as oracle; shares no code with the repository.
 *
 * Dots: position 14*o + k is the k-th 14MHz dot of screen byte column o of one
 * 256-byte memory page (neighbours = neighbouring memory bytes of the page).
 * Colour of the pixel at dot i: the four dots i..i+3, rotated by i mod 4. */
#include <stdint.h>
#include <stddef.h>
#include <string.h>

#define ND (256 * 14 + 32)
#define PAD 8

static void render(int dhgr, const uint8_t *m, const uint8_t *x, uint8_t *d)
{
    memset(d, 0, ND);
    uint8_t *e = d + PAD;
    for (int o = 0; o < 256; o++) {
        if (dhgr) {
            for (int k = 0; k < 7; k++) {
                e[14 * o + k] = (x[o] >> k) & 1;
                e[14 * o + 7 + k] = (m[o] >> k) & 1;
            }
        } else {
            int p = m[o] >> 7;
            /* each bit lights two dots; a set palette bit delays by one dot,
             * in which case the previous byte's last dot stays lit longer */
            for (int k = 0; k < 7; k++) {
                int b = (m[o] >> k) & 1;
                e[14 * o + p + 2 * k] = b;
                e[14 * o + p + 2 * k + 1] = b;
            }
            e[14 * o + p + 14] = (m[o] >> 6) & 1;
        }
    }
    /* beyond the page: a zero byte, which overwrites what spilled over */
    for (int k = 0; k < 16; k++) e[256 * 14 + k] = 0;
}

static inline int rol4(int v, int n)
{
    n &= 3;
    return ((v << n) | (v >> (4 - n))) & 15;
}

static inline int pixel(const uint8_t *e, int i)
{
    int w = e[i] | e[i + 1] << 1 | e[i + 2] << 2 | e[i + 3] << 3;
    return rol4(w, (i + 400) & 3);
}

/* distance of two equal-length strings: substitutions at cost[] and swaps of
 * neighbours at tc; insertions and deletions are prohibitively expensive */
static int dist(const uint8_t *A, const uint8_t *B, int n,
                const int32_t *cost, int tc)
{
    int p2 = 0, p1 = 0, d = 0;
    for (int i = 0; i < n; i++) {
        d = p1 + cost[A[i] * 16 + B[i]];
        if (i && A[i] == B[i - 1] && A[i - 1] == B[i] && p2 + tc < d)
            d = p2 + tc;
        p2 = p1;
        p1 = d;
    }
    return d;
}

int o_dist(const uint8_t *A, const uint8_t *B, int n, const int32_t *cost, int tc)
{
    return dist(A, B, n, cost, tc);
}

/* all pixels of a page that have a full window: out[256*14+4], index 0 = dot -3 */
void o_pixels(int dhgr, const uint8_t *m, const uint8_t *x, uint8_t *out)
{
    uint8_t d[ND];
    render(dhgr, m, x, d);
    for (int i = -3; i < 256 * 14 + 1; i++) out[i + 3] = pixel(d + PAD, i);
}

static void span(int dhgr, int aux, int o, int *first, int *n)
{
    if (dhgr) { *first = 14 * o + (aux ? 0 : 7) - 3; *n = 10; }
    else { *first = 14 * o - 3; *n = 18; }
}

/* error weight of every byte of a page between source and target memory.
 * HGR context: only what the 4-dot windows of this byte can see. */
void o_diff_page(int dhgr, int aux, const uint8_t *sm, const uint8_t *sx,
                 const uint8_t *tm, const uint8_t *tx,
                 const int32_t *cost, int tc, int32_t *out)
{
    uint8_t a[256 * 14 + 4], b[256 * 14 + 4];
    o_pixels(dhgr, sm, sx, a);
    o_pixels(dhgr, tm, tx, b);
    for (int o = 0; o < 256; o++) {
        int f, n;
        span(dhgr, aux, o, &f, &n);
        out[o] = dist(a + f + 3, b + f + 3, n, cost, tc);
    }
}

/* pixels f..f+n-1 (relative to byte o: 14*o + rel) of a page in which byte o
 * holds `content`; renders only the neighbourhood */
static void around(int dhgr, int aux, const uint8_t *pm, const uint8_t *px,
                   int o, int content, uint8_t *out)
{
    uint8_t d[5 * 14 + 8];
    int f, n;
    memset(d, 0, sizeof d);
    for (int j = -2; j <= 2; j++) {
        int b = o + j;
        if (b < 0 || b > 255) {
            if (!dhgr && b > 255) memset(d + 14 * (j + 2), 0, 14);
            continue;
        }
        int m = pm[b], x = dhgr ? px[b] : 0;
        if (j == 0 && content >= 0) { if (aux) x = content; else m = content; }
        uint8_t *e = d + 14 * (j + 2);
        if (dhgr) {
            for (int k = 0; k < 7; k++) { e[k] = (x >> k) & 1; e[7 + k] = (m >> k) & 1; }
        } else {
            int p = m >> 7;
            for (int k = 0; k < 7; k++) e[p + 2 * k] = e[p + 2 * k + 1] = (m >> k) & 1;
            e[p + 14] = (m >> 6) & 1;
        }
    }
    span(dhgr, aux, o, &f, &n);
    for (int i = 0; i < n; i++) {
        int g = f + i, l = g - 14 * (o - 2);
        int w = d[l] | d[l + 1] << 1 | d[l + 2] << 2 | d[l + 3] << 3;
        out[i] = rol4(w, (g + 400) & 3);
    }
}

/* cost of having `content` at offset o of an otherwise perfect target page */
int o_store_one(int dhgr, int aux, const uint8_t *tm, const uint8_t *tx, int o,
                int content, const int32_t *cost, int tc)
{
    uint8_t a[18], b[18];
    around(dhgr, aux, tm, tx, o, content, a);
    around(dhgr, aux, tm, tx, o, -1, b);
    return dist(a, b, dhgr ? 10 : 18, cost, tc);
}

void o_store_page(int dhgr, int aux, const uint8_t *tm, const uint8_t *tx,
                  int content, const int32_t *cost, int tc, int32_t *out)
{
    for (int o = 0; o < 256; o++)
        out[o] = o_store_one(dhgr, aux, tm, tx, o, content, cost, tc);
}

/* table from pixel strings: px is nvals*n pixel values */
void o_table(const uint8_t *px, int nvals, int n, const int32_t *cost, int tc,
             uint16_t *out)
{
#pragma omp parallel for schedule(dynamic, 16)
    for (int a = 0; a < nvals; a++)
        for (int b = 0; b < nvals; b++)
            out[(size_t)a * nvals + b] =
                dist(px + (size_t)a * n, px + (size_t)b * n, n, cost, tc);
}
