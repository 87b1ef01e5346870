/* Apple IIe + Uthernet II (W5100) virtual machine with an event log.
 * Independent of the repository; runs the real assembled player binary.
 * NMOS 6502, cycle counts and the bus accesses that matter included. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

enum { EV_TICK = 1, EV_STORE, EV_SS, EV_WREG_W, EV_WREG_R, EV_RX, EV_PC,
       EV_COUT, EV_MLI, EV_HGR0, EV_KEY, EV_ANOM, EV_CMD, EV_KBDREAD, EV_DELIVER };
enum { AN_RX_NOTRECEIVED = 1, AN_RX_ORDER, AN_ACK_UNREAD, AN_ACK_BEYOND,
       AN_ILLEGAL, AN_BUFREAD_MODE, AN_TXREAD, AN_NOTESTABLISHED };
enum { H_RUN = 0, H_BRK, H_MLI, H_ILLEGAL, H_MAXCYC, H_LOGFULL, H_STOP };

typedef struct { uint64_t cyc; uint32_t pos; uint16_t addr; uint8_t kind, val; } Ev;

typedef struct {
    uint8_t mem[65536], aux[65536];
    uint16_t pc; uint8_t a, x, y, s, p;
    uint64_t cyc;
    int32_t halted;
    /* switches */
    int32_t store80, page2, hires, text, mixed, col80, dhires;
    uint8_t kbd;
    /* w5100 */
    uint8_t w[32768]; uint8_t wmode; uint16_t wptr;
    uint8_t status; int32_t attempt; uint64_t connect_at; int32_t connect_to;
    uint16_t rx_wr, rx_rd;
    int64_t slotpos[8192]; int64_t next_read; int64_t acked; int64_t delivered;
    const uint8_t *stream; int64_t stream_len;
    const uint64_t *sched_t; const int64_t *sched_n; int64_t nsched, isched; int64_t pending;
    int64_t arrived; int32_t fin_closes;
    const int32_t *att_result; const uint64_t *att_delay; int32_t natt;
    const int32_t *open_result;
    const uint64_t *key_t; const uint8_t *key_v; int32_t nkey, ikey;
    /* log */
    Ev *log; int64_t nlog, caplog; uint32_t mask;
    uint8_t watch[65536]; uint8_t stop[65536];
    uint64_t rng;
    int64_t instrs, ticks, rxreads, stores, anomalies;
    int64_t maxrx;
} VM;

static void ev(VM *v, int kind, uint16_t addr, uint8_t val, uint32_t pos)
{
    if (!(v->mask & (1u << kind))) return;
    if (v->nlog >= v->caplog) { v->halted = H_LOGFULL; return; }
    Ev *e = &v->log[v->nlog++];
    e->cyc = v->cyc; e->kind = kind; e->addr = addr; e->val = val; e->pos = pos;
}

static void anom(VM *v, uint8_t code, uint16_t addr, uint32_t pos)
{
    v->anomalies++;
    ev(v, EV_ANOM, addr, code, pos);
}

static uint32_t rnd(VM *v)
{
    v->rng = v->rng * 6364136223846793005ull + 1442695040888963407ull;
    return v->rng >> 33;
}

/* ---- network ---- */
static void net_poll(VM *v)
{
    if (v->connect_to >= 0 && v->cyc >= v->connect_at) {
        v->status = v->connect_to; v->connect_to = -1;
    }
    if (v->status != 0x17) return;
    while (v->isched < v->nsched && v->cyc >= v->sched_t[v->isched])
        v->pending += v->sched_n[v->isched++];
    if (v->pending > 0) {
        int64_t before = v->delivered;
        while (v->pending > 0 && v->delivered < v->stream_len &&
               (uint16_t)(v->rx_wr - v->rx_rd) < 8192) {
            int slot = v->rx_wr & 0x1fff;
            /* a byte freed by RECV but never read is lost to the player */
            if (v->slotpos[slot] >= 0 && v->slotpos[slot] >= v->next_read)
                anom(v, AN_ACK_UNREAD, 0x6000 + slot, (uint32_t)v->slotpos[slot]);
            v->w[0x6000 + slot] = v->stream[v->delivered];
            v->slotpos[slot] = v->delivered;
            v->delivered++; v->rx_wr++; v->pending--;
        }
        if (v->delivered >= v->stream_len) v->pending = 0;
        uint16_t sz = v->rx_wr - v->rx_rd;
        if (sz > v->maxrx) v->maxrx = sz;
        if (v->delivered != before)
            ev(v, EV_DELIVER, sz, 0, (uint32_t)v->delivered);
    }
}

static void w_reset(VM *v)
{
    memset(v->w, 0, 0x4000);
    v->w[0x1a] = v->w[0x1b] = 0x55;
    v->wmode = 0; v->wptr = 0; v->status = 0; v->connect_to = -1;
    v->rx_wr = v->rx_rd = 0;
    for (int i = 0; i < 8192; i++) v->slotpos[i] = -1;
}

static void w_inc(VM *v)
{
    if (!(v->wmode & 2)) return;
    if (v->wptr == 0x5fff) v->wptr = 0x4000;
    else if (v->wptr == 0x7fff) v->wptr = 0x6000;
    else v->wptr = (v->wptr + 1) & 0x7fff;
}

static uint8_t w_read(VM *v)
{
    uint16_t a = v->wptr & 0x7fff;
    uint8_t r;
    net_poll(v);
    if (!(v->wmode & 1)) { anom(v, AN_BUFREAD_MODE, a, 0); return 0xff; }
    if (a >= 0x6000) {
        int64_t pos = v->slotpos[a & 0x1fff];
        r = v->w[a];
        v->rxreads++;
        if (pos < 0 || pos < v->next_read) anom(v, AN_RX_NOTRECEIVED, a, (uint32_t)v->next_read);
        else if (pos != v->next_read) anom(v, AN_RX_ORDER, a, (uint32_t)v->next_read);
        ev(v, EV_RX, a, r, (uint32_t)(pos < 0 ? 0xffffffffu : pos));
        v->next_read++;
    } else {
        uint16_t sz = v->rx_wr - v->rx_rd;
        switch (a) {
        case 0x403: r = v->status; break;
        case 0x426: r = sz >> 8; break;
        case 0x427: r = sz & 0xff; break;
        default: r = v->w[a];
        }
        ev(v, EV_WREG_R, a, r, (uint32_t)v->next_read);
    }
    w_inc(v);
    return r;
}

static void w_cmd(VM *v, uint8_t c)
{
    ev(v, EV_CMD, 0x401, c, (uint32_t)v->next_read);
    if (c == 1) {
        int ok = !v->open_result || v->open_result[v->attempt < v->natt ? v->attempt : v->natt - 1];
        v->status = ok && (v->w[0x400] & 0x0f) == 1 ? 0x13 : 0;
        v->rx_wr = v->rx_rd = 0;
        v->w[0x428] = v->w[0x429] = 0;
    } else if (c == 4) {
        if (v->status != 0x13) return;
        int i = v->attempt < v->natt ? v->attempt : v->natt - 1;
        v->attempt++;
        v->status = 0x15;
        v->connect_at = v->cyc + v->att_delay[i];
        v->connect_to = v->att_result[i] ? 0x17 : 0;
    } else if (c == 0x40) {
        uint16_t nrd = v->w[0x428] << 8 | v->w[0x429];
        uint16_t adv = nrd - v->rx_rd, sz = v->rx_wr - v->rx_rd;
        net_poll(v);
        sz = v->rx_wr - v->rx_rd;
        if (adv > sz) anom(v, AN_ACK_BEYOND, nrd, (uint32_t)v->next_read);
        if (v->acked + adv > v->next_read) anom(v, AN_ACK_UNREAD, nrd, (uint32_t)v->next_read);
        v->acked += adv;
        v->rx_rd = nrd;
        net_poll(v);
    } else if (c == 8 || c == 0x10) v->status = 0;
}

static void w_write(VM *v, uint8_t val)
{
    uint16_t a = v->wptr & 0x7fff;
    net_poll(v);
    if (!(v->wmode & 1)) { anom(v, AN_BUFREAD_MODE, a, 0); return; }
    ev(v, EV_WREG_W, a, val, (uint32_t)v->next_read);
    w_inc(v);
    if (a == 0x401) { w_cmd(v, val); return; }
    if (a == 0x403 || a == 0x426 || a == 0x427) return;
    v->w[a] = val;
}

/* ---- bus ---- */
static uint8_t *bank(VM *v, uint16_t a)
{
    if (v->store80 && v->page2 &&
        ((a >= 0x400 && a < 0x800) || (v->hires && a >= 0x2000 && a < 0x4000)))
        return v->aux;
    return v->mem;
}

static void io(VM *v, uint16_t a, int wr, uint8_t val)
{
    switch (a) {
    case 0xc001: if (wr) v->store80 = 1; break;
    case 0xc000: if (wr) v->store80 = 0; break;
    case 0xc00c: if (wr) v->col80 = 0; break;
    case 0xc00d: if (wr) v->col80 = 1; break;
    case 0xc010: v->kbd &= 0x7f; break;
    case 0xc050: v->text = 0; break;
    case 0xc051: v->text = 1; break;
    case 0xc052: v->mixed = 0; break;
    case 0xc053: v->mixed = 1; break;
    case 0xc054: v->page2 = 0; break;
    case 0xc055: v->page2 = 1; break;
    case 0xc056: v->hires = 0; break;
    case 0xc057: v->hires = 1; break;
    case 0xc05e: v->dhires = 1; break;
    case 0xc05f: v->dhires = 0; break;
    }
    if (a == 0xc030) { v->ticks++; ev(v, EV_TICK, a, wr, (uint32_t)v->next_read); }
    else if (wr || a >= 0xc050 || a == 0xc010) ev(v, EV_SS, a, val, (uint32_t)v->next_read);
}

static void keys(VM *v)
{
    while (v->ikey < v->nkey && v->cyc >= v->key_t[v->ikey]) {
        v->kbd = v->key_v[v->ikey++] | 0x80;
        ev(v, EV_KEY, 0xc000, v->kbd, (uint32_t)v->next_read);
    }
}

static uint8_t rd(VM *v, uint16_t a)
{
    if ((a & 0xff00) == 0xc000) {
        if (a == 0xc000) {
            keys(v);
            ev(v, EV_KBDREAD, a, v->kbd, (uint32_t)v->next_read);
            return v->kbd;
        }
        if (a == 0xc094) return v->wmode;
        if (a == 0xc095) return v->wptr >> 8;
        if (a == 0xc096) return v->wptr & 0xff;
        if (a == 0xc097) return w_read(v);
        io(v, a, 0, 0);
        return rnd(v);          /* floating bus */
    }
    return bank(v, a)[a];
}

static void wr(VM *v, uint16_t a, uint8_t val)
{
    if ((a & 0xff00) == 0xc000) {
        if (a == 0xc094) {
            ev(v, EV_SS, a, val, (uint32_t)v->next_read);
            if (val & 0x80) w_reset(v);
            else v->wmode = val;
            return;
        }
        if (a == 0xc095) { v->wptr = (v->wptr & 0xff) | val << 8; return; }
        if (a == 0xc096) { v->wptr = (v->wptr & 0xff00) | val; return; }
        if (a == 0xc097) { w_write(v, val); return; }
        io(v, a, 1, val);
        return;
    }
    v->stores++;
    if (a >= 0xc000) { ev(v, EV_STORE, a, val, 2); return; }
    uint8_t *b = bank(v, a);
    ev(v, EV_STORE, a, val, b == v->aux);
    b[a] = val;
}

/* ---- cpu ---- */
#define FC 1
#define FZ 2
#define FI 4
#define FD 8
#define FV 64
#define FN 128
#define NZ(r) (v->p = (v->p & ~(FN | FZ)) | ((r) & 0x80) | ((r) ? 0 : FZ))

static uint8_t fetch(VM *v) { return rd(v, v->pc++); }
static void push(VM *v, uint8_t b) { v->mem[0x100 | v->s--] = b; }
static uint8_t pop(VM *v) { return v->mem[0x100 | ++v->s]; }

enum { IMP, ACC, IMM, ZP, ZPX, ZPY, ABS, ABX, ABY, IND, IZX, IZY, REL };

/* base cycles come from the addressing mode and kind of access */
static void adc(VM *v, uint8_t m)
{
    int c = v->p & FC;
    int r = v->a + m + c;
    v->p &= ~(FC | FV);
    if (r > 255) v->p |= FC;
    if (~(v->a ^ m) & (v->a ^ r) & 0x80) v->p |= FV;
    v->a = r;
    NZ(v->a);
}

static void cmp(VM *v, uint8_t r, uint8_t m)
{
    int d = r - m;
    v->p = (v->p & ~FC) | (r >= m ? FC : 0);
    NZ((uint8_t)d);
}

/* effective address; *cross set when an indexed access carries */
static uint16_t ea(VM *v, int mode, int *cross)
{
    uint16_t lo, hi, a, b;
    *cross = 0;
    switch (mode) {
    case ZP: return fetch(v);
    case ZPX: return (uint8_t)(fetch(v) + v->x);
    case ZPY: return (uint8_t)(fetch(v) + v->y);
    case ABS: lo = fetch(v); hi = fetch(v); return lo | hi << 8;
    case ABX: case ABY:
        lo = fetch(v); hi = fetch(v); b = lo | hi << 8;
        a = b + (mode == ABX ? v->x : v->y);
        *cross = (a & 0xff00) != (b & 0xff00);
        return a;
    case IZX: b = (uint8_t)(fetch(v) + v->x);
        return v->mem[b] | v->mem[(uint8_t)(b + 1)] << 8;
    case IZY: b = fetch(v);
        b = v->mem[b] | v->mem[(uint8_t)(b + 1)] << 8;
        a = b + v->y;
        *cross = (a & 0xff00) != (b & 0xff00);
        return a;
    }
    return 0;
}

static const int rdcyc[] = {2, 2, 2, 3, 4, 4, 4, 4, 4, 0, 6, 5, 0};
static const int stcyc[] = {0, 0, 0, 3, 4, 4, 4, 5, 5, 0, 6, 6, 0};
static const int rmcyc[] = {0, 2, 0, 5, 6, 0, 6, 7, 0, 0, 0, 0, 0};

static uint8_t ld(VM *v, int mode)
{
    if (mode == IMM) { v->cyc += 2; return fetch(v); }
    int cr;
    uint16_t a = ea(v, mode, &cr);
    v->cyc += rdcyc[mode] + cr;         /* access happens in the last cycle */
    return rd(v, a);
}

static void st(VM *v, int mode, uint8_t val)
{
    int cr;
    uint16_t a = ea(v, mode, &cr);
    v->cyc += stcyc[mode];
    if (mode == ABX || mode == ABY) {
        uint16_t base = a - (mode == ABX ? v->x : v->y);
        v->cyc--;
        rd(v, (base & 0xff00) | (a & 0xff));    /* dummy read */
        v->cyc++;
    }
    wr(v, a, val);
}

static void branch(VM *v, int take)
{
    int8_t d = fetch(v);
    v->cyc += 2;
    if (take) {
        uint16_t n = v->pc + d;
        v->cyc += 1 + ((n & 0xff00) != (v->pc & 0xff00));
        v->pc = n;
    }
}

static void rmw(VM *v, int mode, int op)
{
    uint8_t m; uint16_t a = 0; int cr, c = v->p & FC;
    if (mode == ACC) { m = v->a; v->cyc += 2; }
    else { a = ea(v, mode, &cr); v->cyc += rmcyc[mode]; m = rd(v, a); wr(v, a, m); }
    switch (op) {
    case 0: v->p = (v->p & ~FC) | (m >> 7); m <<= 1; break;
    case 1: v->p = (v->p & ~FC) | (m >> 7); m = m << 1 | c; break;
    case 2: v->p = (v->p & ~FC) | (m & 1); m >>= 1; break;
    case 3: v->p = (v->p & ~FC) | (m & 1); m = m >> 1 | c << 7; break;
    case 6: m--; break;
    case 7: m++; break;
    }
    NZ(m);
    if (mode == ACC) v->a = m; else wr(v, a, m);
}

static void rts(VM *v)
{
    uint16_t lo = pop(v), hi = pop(v);
    v->pc = (lo | hi << 8) + 1;
}

static void trap_hgr0(VM *v)
{
    int page = v->mem[0xe6];
    ev(v, EV_HGR0, page, 0, bank(v, page << 8) == v->aux);
    v->cyc += 130000;
    for (int a = page << 8; a < (page << 8) + 0x2000 && a < 0xc000; a++) bank(v, a)[a] = 0;
    v->a = rnd(v); v->x = rnd(v); v->y = rnd(v);
    v->p = (v->p & ~(FC | FZ | FN | FV)) | (rnd(v) & (FC | FZ | FN | FV));
    rts(v);
}

static void step(VM *v, int resume)
{
    uint16_t pc = v->pc;
    if (v->watch[pc]) ev(v, EV_PC, pc, v->x, (uint32_t)v->next_read);
    if (v->stop[pc] && !resume) { v->halted = H_STOP; return; }
    if (pc == 0xf3f2) { trap_hgr0(v); return; }
    if (pc == 0xfded) { ev(v, EV_COUT, pc, v->a, 0); v->cyc += 40; rts(v); return; }
    if (pc == 0xbf00) {
        uint16_t r = (v->mem[0x100 | (uint8_t)(v->s + 1)] | v->mem[0x100 | (uint8_t)(v->s + 2)] << 8) + 1;
        uint16_t parm = v->mem[r + 1] | v->mem[r + 2] << 8;
        ev(v, EV_MLI, parm, v->mem[r], (uint32_t)v->next_read);
        v->halted = H_MLI;
        return;
    }
    v->instrs++;
    uint8_t op = fetch(v);
    uint8_t m;
    switch (op) {
    /* loads */
    case 0xa9: v->a = ld(v, IMM); NZ(v->a); break;
    case 0xa5: v->a = ld(v, ZP); NZ(v->a); break;
    case 0xb5: v->a = ld(v, ZPX); NZ(v->a); break;
    case 0xad: v->a = ld(v, ABS); NZ(v->a); break;
    case 0xbd: v->a = ld(v, ABX); NZ(v->a); break;
    case 0xb9: v->a = ld(v, ABY); NZ(v->a); break;
    case 0xa1: v->a = ld(v, IZX); NZ(v->a); break;
    case 0xb1: v->a = ld(v, IZY); NZ(v->a); break;
    case 0xa2: v->x = ld(v, IMM); NZ(v->x); break;
    case 0xa6: v->x = ld(v, ZP); NZ(v->x); break;
    case 0xb6: v->x = ld(v, ZPY); NZ(v->x); break;
    case 0xae: v->x = ld(v, ABS); NZ(v->x); break;
    case 0xbe: v->x = ld(v, ABY); NZ(v->x); break;
    case 0xa0: v->y = ld(v, IMM); NZ(v->y); break;
    case 0xa4: v->y = ld(v, ZP); NZ(v->y); break;
    case 0xb4: v->y = ld(v, ZPX); NZ(v->y); break;
    case 0xac: v->y = ld(v, ABS); NZ(v->y); break;
    case 0xbc: v->y = ld(v, ABX); NZ(v->y); break;
    /* stores */
    case 0x85: st(v, ZP, v->a); break;
    case 0x95: st(v, ZPX, v->a); break;
    case 0x8d: st(v, ABS, v->a); break;
    case 0x9d: st(v, ABX, v->a); break;
    case 0x99: st(v, ABY, v->a); break;
    case 0x81: st(v, IZX, v->a); break;
    case 0x91: st(v, IZY, v->a); break;
    case 0x86: st(v, ZP, v->x); break;
    case 0x96: st(v, ZPY, v->x); break;
    case 0x8e: st(v, ABS, v->x); break;
    case 0x84: st(v, ZP, v->y); break;
    case 0x94: st(v, ZPX, v->y); break;
    case 0x8c: st(v, ABS, v->y); break;
    /* transfers */
    case 0xaa: v->x = v->a; NZ(v->x); v->cyc += 2; break;
    case 0x8a: v->a = v->x; NZ(v->a); v->cyc += 2; break;
    case 0xa8: v->y = v->a; NZ(v->y); v->cyc += 2; break;
    case 0x98: v->a = v->y; NZ(v->a); v->cyc += 2; break;
    case 0xba: v->x = v->s; NZ(v->x); v->cyc += 2; break;
    case 0x9a: v->s = v->x; v->cyc += 2; break;
    case 0x48: push(v, v->a); v->cyc += 3; break;
    case 0x68: v->a = pop(v); NZ(v->a); v->cyc += 4; break;
    case 0x08: push(v, v->p | 0x30); v->cyc += 3; break;
    case 0x28: v->p = pop(v); v->cyc += 4; break;
    case 0xe8: v->x++; NZ(v->x); v->cyc += 2; break;
    case 0xc8: v->y++; NZ(v->y); v->cyc += 2; break;
    case 0xca: v->x--; NZ(v->x); v->cyc += 2; break;
    case 0x88: v->y--; NZ(v->y); v->cyc += 2; break;
    case 0xea: v->cyc += 2; break;
    case 0x18: v->p &= ~FC; v->cyc += 2; break;
    case 0x38: v->p |= FC; v->cyc += 2; break;
    case 0x58: v->p &= ~FI; v->cyc += 2; break;
    case 0x78: v->p |= FI; v->cyc += 2; break;
    case 0xb8: v->p &= ~FV; v->cyc += 2; break;
    case 0xd8: v->p &= ~FD; v->cyc += 2; break;
    case 0xf8: v->p |= FD; v->cyc += 2; break;
    /* logic */
#define GRP(base, STMT) \
    case base + 0x09: m = ld(v, IMM); STMT; break; \
    case base + 0x05: m = ld(v, ZP); STMT; break; \
    case base + 0x15: m = ld(v, ZPX); STMT; break; \
    case base + 0x0d: m = ld(v, ABS); STMT; break; \
    case base + 0x1d: m = ld(v, ABX); STMT; break; \
    case base + 0x19: m = ld(v, ABY); STMT; break; \
    case base + 0x01: m = ld(v, IZX); STMT; break; \
    case base + 0x11: m = ld(v, IZY); STMT; break;
    GRP(0x00, (v->a |= m, NZ(v->a)))
    GRP(0x20, (v->a &= m, NZ(v->a)))
    GRP(0x40, (v->a ^= m, NZ(v->a)))
    GRP(0x60, adc(v, m))
    GRP(0xc0, cmp(v, v->a, m))
    GRP(0xe0, adc(v, m ^ 0xff))
    case 0xe0: cmp(v, v->x, ld(v, IMM)); break;
    case 0xe4: cmp(v, v->x, ld(v, ZP)); break;
    case 0xec: cmp(v, v->x, ld(v, ABS)); break;
    case 0xc0: cmp(v, v->y, ld(v, IMM)); break;
    case 0xc4: cmp(v, v->y, ld(v, ZP)); break;
    case 0xcc: cmp(v, v->y, ld(v, ABS)); break;
    case 0x24: case 0x2c:
        m = ld(v, op == 0x24 ? ZP : ABS);
        v->p = (v->p & ~(FN | FV | FZ)) | (m & 0xc0) | ((m & v->a) ? 0 : FZ);
        break;
    /* rmw */
    case 0x0a: rmw(v, ACC, 0); break; case 0x06: rmw(v, ZP, 0); break;
    case 0x16: rmw(v, ZPX, 0); break; case 0x0e: rmw(v, ABS, 0); break;
    case 0x1e: rmw(v, ABX, 0); break;
    case 0x2a: rmw(v, ACC, 1); break; case 0x26: rmw(v, ZP, 1); break;
    case 0x36: rmw(v, ZPX, 1); break; case 0x2e: rmw(v, ABS, 1); break;
    case 0x3e: rmw(v, ABX, 1); break;
    case 0x4a: rmw(v, ACC, 2); break; case 0x46: rmw(v, ZP, 2); break;
    case 0x56: rmw(v, ZPX, 2); break; case 0x4e: rmw(v, ABS, 2); break;
    case 0x5e: rmw(v, ABX, 2); break;
    case 0x6a: rmw(v, ACC, 3); break; case 0x66: rmw(v, ZP, 3); break;
    case 0x76: rmw(v, ZPX, 3); break; case 0x6e: rmw(v, ABS, 3); break;
    case 0x7e: rmw(v, ABX, 3); break;
    case 0xc6: rmw(v, ZP, 6); break; case 0xd6: rmw(v, ZPX, 6); break;
    case 0xce: rmw(v, ABS, 6); break; case 0xde: rmw(v, ABX, 6); break;
    case 0xe6: rmw(v, ZP, 7); break; case 0xf6: rmw(v, ZPX, 7); break;
    case 0xee: rmw(v, ABS, 7); break; case 0xfe: rmw(v, ABX, 7); break;
    /* flow */
    case 0x10: branch(v, !(v->p & FN)); break;
    case 0x30: branch(v, v->p & FN); break;
    case 0x50: branch(v, !(v->p & FV)); break;
    case 0x70: branch(v, v->p & FV); break;
    case 0x90: branch(v, !(v->p & FC)); break;
    case 0xb0: branch(v, v->p & FC); break;
    case 0xd0: branch(v, !(v->p & FZ)); break;
    case 0xf0: branch(v, v->p & FZ); break;
    case 0x4c: { uint16_t lo = fetch(v), hi = fetch(v); v->pc = lo | hi << 8; v->cyc += 3; break; }
    case 0x6c: { uint16_t lo = fetch(v), hi = fetch(v); uint16_t p = lo | hi << 8;
        v->pc = rd(v, p) | rd(v, (p & 0xff00) | ((p + 1) & 0xff)) << 8; v->cyc += 5; break; }
    case 0x20: { uint16_t lo = fetch(v), hi = fetch(v); uint16_t r = v->pc - 1;
        push(v, r >> 8); push(v, r); v->pc = lo | hi << 8; v->cyc += 6; break; }
    case 0x60: rts(v); v->cyc += 6; break;
    case 0x40: v->p = pop(v); { uint16_t lo = pop(v), hi = pop(v); v->pc = lo | hi << 8; } v->cyc += 6; break;
    case 0x00: v->pc = pc; v->halted = H_BRK; break;
    default: anom(v, AN_ILLEGAL, pc, op); v->pc = pc; v->halted = H_ILLEGAL;
    }
}

VM *vm_new(int64_t caplog, uint64_t seed)
{
    VM *v = calloc(1, sizeof(VM));
    v->caplog = caplog; v->log = malloc(caplog * sizeof(Ev));
    v->rng = seed * 2654435761u + 12345; v->s = 0xff; v->p = 0x30;
    v->mask = 0xffffffffu; v->text = 1;
    w_reset(v);
    for (int i = 0; i < 65536; i++) { v->mem[i] = rnd(v); v->aux[i] = rnd(v); }
    v->a = rnd(v); v->x = rnd(v); v->y = rnd(v);
    static const int32_t one = 1; static const uint64_t zero = 0;
    v->att_result = &one; v->att_delay = &zero; v->natt = 1;
    return v;
}

void vm_free(VM *v) { free(v->log); free(v); }
void vm_load(VM *v, uint16_t addr, const uint8_t *d, int64_t n) { memcpy(v->mem + addr, d, n); }
void vm_reset(VM *v) { v->pc = v->mem[0x3f2] | v->mem[0x3f3] << 8; v->s -= 3; }
void vm_latch(VM *v, uint8_t k) { v->kbd = k | 0x80; }
void vm_setpc(VM *v, uint16_t pc) { v->pc = pc; }
void vm_mask(VM *v, uint32_t m) { v->mask = m; }
void vm_watch(VM *v, uint16_t a, int on) { v->watch[a] = on; }
void vm_stop(VM *v, uint16_t a, int on) { v->stop[a] = on; }
void vm_net(VM *v, const uint8_t *s, int64_t n, const uint64_t *t, const int64_t *k, int64_t ns)
{ v->stream = s; v->stream_len = n; v->sched_t = t; v->sched_n = k; v->nsched = ns; v->isched = 0; }
void vm_att(VM *v, const int32_t *r, const uint64_t *d, int32_t n, const int32_t *open)
{ v->att_result = r; v->att_delay = d; v->natt = n; v->open_result = open; }
void vm_keys(VM *v, const uint64_t *t, const uint8_t *k, int32_t n)
{ v->key_t = t; v->key_v = k; v->nkey = n; v->ikey = 0; }

int vm_run(VM *v, uint64_t maxcyc)
{
    v->halted = H_RUN;
    int resume = 1;             /* a stop at the current pc was already reported */
    while (!v->halted) {
        step(v, resume);
        resume = 0;
        if (!v->halted && v->cyc >= maxcyc) v->halted = H_MAXCYC;
    }
    return v->halted;
}
int64_t vm_nlog(VM *v) { return v->nlog; }
Ev *vm_log(VM *v) { return v->log; }
void vm_clearlog(VM *v) { v->nlog = 0; }
uint8_t *vm_mem(VM *v) { return v->mem; }
uint8_t *vm_aux(VM *v) { return v->aux; }
uint8_t *vm_w(VM *v) { return v->w; }
uint64_t vm_get(VM *v, int what)
{
    switch (what) {
    case 0: return v->cyc; case 1: return v->pc; case 2: return v->instrs;
    case 3: return v->ticks; case 4: return v->rxreads; case 5: return v->anomalies;
    case 6: return v->next_read; case 7: return v->acked; case 8: return v->delivered;
    case 9: return v->page2; case 10: return v->store80; case 11: return v->hires;
    case 12: return v->text; case 13: return v->mixed; case 14: return v->col80;
    case 15: return v->dhires; case 16: return v->attempt; case 17: return v->maxrx;
    case 18: return v->x; case 19: return v->status; case 20: return v->wmode;
    case 21: return v->kbd; case 22: return v->ikey; case 23: return v->halted;
    case 24: return v->s; case 25: return v->stores; case 26: return v->rx_rd;
    }
    return 0;
}
