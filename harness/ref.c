#include <pthread.h>
/* Independent reference implementations: sums, signature and delta formats, matcher. */
#include "h.h"

const u32 MAGICS[4] = { 0x72730136, 0x72730137, 0x72730146, 0x72730147 };
int magic_is_rk(u32 m) { return (m & 0xf0) == 0x40; }
int magic_is_blake(u32 m) { return (m & 0xf) == 7; }
u32 magic_max(u32 m) { return magic_is_blake(m) ? 32 : 16; }

/* ---- MD4, RFC 1320 ---- */
static u32 rol(u32 x, int s) { return (x << s) | (x >> (32 - s)); }
static void md4_block(u32 st[4], const u8 *p)
{
    u32 X[16], a = st[0], b = st[1], c = st[2], d = st[3];
    for (int i = 0; i < 16; i++)
        X[i] = (u32)p[4 * i] | (u32)p[4 * i + 1] << 8 | (u32)p[4 * i + 2] << 16 | (u32)p[4 * i + 3] << 24;
    static const int s1[4] = { 3, 7, 11, 19 }, s2[4] = { 3, 5, 9, 13 }, s3[4] = { 3, 9, 11, 15 };
    static const int k3[16] = { 0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15 };
    for (int i = 0; i < 48; i++) {
        u32 f, k; int s;
        if (i < 16) { f = (b & c) | (~b & d); k = X[i]; s = s1[i & 3]; }
        else if (i < 32) { f = ((b & c) | (b & d) | (c & d)) + 0x5a827999; k = X[((i & 3) << 2) | ((i - 16) >> 2)]; s = s2[i & 3]; }
        else { f = (b ^ c ^ d) + 0x6ed9eba1; k = X[k3[i - 32]]; s = s3[i & 3]; }
        u32 t = rol(a + f + k, s);
        a = d; d = c; c = b; b = t;
    }
    st[0] += a; st[1] += b; st[2] += c; st[3] += d;
}
void ref_md4(u8 out[16], const u8 *p, size_t n)
{
    u32 st[4] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476 };
    size_t i;
    for (i = 0; i + 64 <= n; i += 64) md4_block(st, p + i);
    u8 t[128] = { 0 };
    size_t r = n - i, tl = r < 56 ? 64 : 128;
    if (r) memcpy(t, p + i, r);
    t[r] = 0x80;
    u64 bits = (u64)n * 8;
    for (int k = 0; k < 8; k++) t[tl - 8 + k] = (u8)(bits >> (8 * k));
    md4_block(st, t);
    if (tl == 128) md4_block(st, t + 64);
    for (int k = 0; k < 16; k++) out[k] = (u8)(st[k / 4] >> (8 * (k % 4)));
}

/* ---- BLAKE2b, RFC 7693 ---- */
static const u64 biv[8] = {
    0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull,
    0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull };
static const u8 bsig[12][16] = {
    {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}, {14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},
    {11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4}, {7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
    {9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13}, {2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
    {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11}, {13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
    {6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5}, {10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0},
    {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}, {14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3} };
static u64 ror64(u64 x, int s) { return (x >> s) | (x << (64 - s)); }
static void b2_compress(u64 h[8], const u8 *p, u64 t, int last)
{
    u64 v[16], m[16];
    for (int i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = biv[i]; }
    v[12] ^= t;
    if (last) v[14] = ~v[14];
    for (int i = 0; i < 16; i++) { m[i] = 0; for (int k = 7; k >= 0; k--) m[i] = m[i] << 8 | p[8 * i + k]; }
    static const u8 ix[8][4] = { {0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14} };
    for (int r = 0; r < 12; r++)
        for (int g = 0; g < 8; g++) {
            u64 *a = v + ix[g][0], *b = v + ix[g][1], *c = v + ix[g][2], *d = v + ix[g][3];
            *a += *b + m[bsig[r][2 * g]]; *d = ror64(*d ^ *a, 32); *c += *d; *b = ror64(*b ^ *c, 24);
            *a += *b + m[bsig[r][2 * g + 1]]; *d = ror64(*d ^ *a, 16); *c += *d; *b = ror64(*b ^ *c, 63);
        }
    for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
}
void ref_blake2b_n(u8 *out, size_t outlen, const u8 *p, size_t n)
{
    u64 h[8];
    memcpy(h, biv, sizeof h);
    h[0] ^= 0x01010000 ^ outlen;
    size_t i = 0;
    while (n - i > 128) { b2_compress(h, p + i, i + 128, 0); i += 128; }
    u8 last[128] = { 0 };
    if (n - i) memcpy(last, p + i, n - i);
    b2_compress(h, last, n, 1);
    for (size_t k = 0; k < outlen; k++) out[k] = (u8)(h[k / 8] >> (8 * (k % 8)));
}
void ref_blake2b256(u8 out[32], const u8 *p, size_t n) { ref_blake2b_n(out, 32, p, n); }

/* ---- rolling sums ---- */
u32 ref_rollsum(const u8 *p, size_t n)
{
    u32 s1 = 0, s2 = 0;
    for (size_t i = 0; i < n; i++) { s1 += p[i] + 31u; s2 += s1; }
    return (s2 & 0xffff) << 16 | (s1 & 0xffff);
}
#define RKM 0x08104225u
u32 ref_rk(const u8 *p, size_t n)
{
    u32 h = 1;
    for (size_t i = 0; i < n; i++) h = h * RKM + p[i];
    return h;
}
u32 ref_weak(u32 magic, const u8 *p, size_t n) { return magic_is_rk(magic) ? ref_rk(p, n) : ref_rollsum(p, n); }
void ref_strong(u32 magic, u8 *out, const u8 *p, size_t n)
{
    if (magic_is_blake(magic)) ref_blake2b256(out, p, n);
    else ref_md4(out, p, n);
}
u32 ref_mix32(u32 h) { h ^= h >> 16; h *= 0x85ebca6b; h ^= h >> 13; h *= 0xc2b2ae35; h ^= h >> 16; return h; }
static u32 inv32(u32 a) { u32 x = a; for (int i = 0; i < 5; i++) x *= 2 - a * x; return x; }
u32 ref_unmix32(u32 h)
{
    h ^= h >> 16; h *= inv32(0xc2b2ae35); h ^= h >> 13 ^ h >> 26; h *= inv32(0x85ebca6b); h ^= h >> 16; return h;
}
u32 sig_hash(u32 magic, u32 weak)
{
    u32 h = magic_is_rk(magic) ? weak : ref_mix32(weak);
    return h ? h : 0xffffffffu;
}

/* ---- signatures ---- */
buf ref_signature(u32 magic, u32 bl, u32 sl, const u8 *p, size_t n)
{
    buf b = { 0 };
    bput_be(&b, magic, 4); bput_be(&b, bl, 4); bput_be(&b, sl, 4);
    for (size_t i = 0; i < n; i += bl) {
        size_t l = n - i < bl ? n - i : bl;
        u8 s[32];
        bput_be(&b, ref_weak(magic, p + i, l), 4);
        ref_strong(magic, s, p + i, l);
        bput(&b, s, sl);
    }
    return b;
}
static u32 be32(const u8 *p) { return (u32)p[0] << 24 | (u32)p[1] << 16 | (u32)p[2] << 8 | p[3]; }
int ref_parse_sig(refsig *s, const u8 *p, size_t n)
{
    memset(s, 0, sizeof *s);
    if (n < 12) return -1;
    s->magic = be32(p); s->bl = be32(p + 4); s->sl = be32(p + 8);
    if (s->sl > 1 << 20) return -1;
    size_t e = 4 + (size_t)s->sl;
    s->count = (u32)((n - 12) / e);
    s->weak = xm(4 * (size_t)s->count + 1);
    s->strong = xm((size_t)s->count * s->sl + 1);
    for (u32 i = 0; i < s->count; i++) {
        s->weak[i] = be32(p + 12 + i * e);
        memcpy(s->strong + (size_t)i * s->sl, p + 12 + i * e + 4, s->sl);
    }
    return (n - 12) % e ? -1 : 0;
}

/* ---- deltas ---- */
int minimal_width(u64 v) { return v < 256 ? 1 : v < 65536 ? 2 : v < 0x100000000ull ? 4 : 8; }
static int wcode(int w) { return w == 1 ? 0 : w == 2 ? 1 : w == 4 ? 2 : 3; }
void enc_magic(buf *b) { bput_be(b, 0x72730236, 4); }
void enc_lit(buf *b, const u8 *data, u64 len, int width)
{
    if (width == 0) {
        if (len <= 64 && len > 0) width = -1;
        else width = minimal_width(len);
    }
    if (width < 0) bputc(b, (int)len);
    else { bputc(b, 0x41 + wcode(width)); bput_be(b, len, width); }
    if (data) bput(b, data, len);
}
void enc_copy(buf *b, u64 pos, u64 len, int wp, int wl)
{
    if (!wp) wp = minimal_width(pos);
    if (!wl) wl = minimal_width(len);
    bputc(b, 0x45 + 4 * wcode(wp) + wcode(wl));
    bput_be(b, pos, wp);
    bput_be(b, len, wl);
}
static u64 getbe(const u8 *p, int n) { u64 v = 0; while (n--) v = v << 8 | *p++; return v; }
void ref_parse_delta(delta *d, const u8 *p, size_t n)
{
    memset(d, 0, sizeof *d);
    size_t cap = 0, i = 4;
    cmd *cs = NULL;
    if (n < 4) { d->err = RS_INPUT_ENDED; return; }
    if (be32(p) != 0x72730236) { d->err = RS_BAD_MAGIC; return; }
    static const int W[4] = { 1, 2, 4, 8 };
    for (;;) {
        d->cmds_off = i;
        if (i >= n) { d->err = RS_INPUT_ENDED; break; }
        u8 op = p[i];
        cmd c = { 0 };
        c.op = op;
        if (op == 0) { d->used = i + 1; break; }
        if (op >= 0x55) { d->err = RS_CORRUPT; break; }
        if (d->n == cap) {
            size_t nc = cap ? cap * 2 : 64;
            cmd *m = xm(nc * sizeof *m);
            if (cs) memcpy(m, cs, cap * sizeof *m);
            cs = m; cap = nc;
        }
        if (op <= 0x44) {
            int w = op <= 0x40 ? 0 : W[op - 0x41];
            if (n - i < (size_t)1 + w) { d->err = RS_INPUT_ENDED; break; }
            c.kind = C_LIT; c.hdr = 1 + w;
            c.len = w ? getbe(p + i + 1, w) : op;
            if (c.len == 0 || (i64)c.len < 0 || d->lit_bytes + c.len > (u64)INT64_MAX) { d->err = RS_CORRUPT; break; }
            c.off = i + 1 + w;
            d->lit_cmds++; d->lit_bytes += c.len; d->lit_cmdbytes += c.hdr;
            cs[d->n++] = c;
            if (n - c.off < c.len) { d->err = RS_INPUT_ENDED; d->cmds_off = n; break; }
            i = c.off + c.len;
        } else {
            int wp = W[(op - 0x45) / 4], wl = W[(op - 0x45) % 4];
            if (n - i < (size_t)1 + wp + wl) { d->err = RS_INPUT_ENDED; break; }
            c.kind = C_COPY; c.hdr = 1 + wp + wl;
            c.pos = getbe(p + i + 1, wp); c.len = getbe(p + i + 1 + wp, wl);
            if (c.len == 0 || (i64)c.len < 0 || (i64)c.pos < 0 || d->copy_bytes + c.len > (u64)INT64_MAX
                || c.pos + c.len > (u64)INT64_MAX) { d->err = RS_CORRUPT; break; }
            d->copy_cmds++; d->copy_bytes += c.len; d->copy_cmdbytes += c.hdr;
            cs[d->n++] = c;
            i += c.hdr;
        }
    }
    d->c = cs;
}
/* Interprets; a copy that runs past the basis delivers what exists, then INPUT_ENDED. */
int ref_apply(const u8 *dp, size_t dn, const u8 *basis, size_t bn, buf *out, size_t *used)
{
    delta d;
    ref_parse_delta(&d, dp, dn);
    if (used) *used = d.used;
    for (size_t k = 0; k < d.n; k++) {
        cmd *c = &d.c[k];
        if (c->kind == C_LIT) {
            u64 l = c->len;
            if (l > dn - c->off) { bput(out, dp + c->off, dn - c->off); return RS_INPUT_ENDED; }
            bput(out, dp + c->off, l);
        } else {
            u64 p = c->pos - vbase;
            u64 av = c->pos >= vbase && p < bn ? bn - p : 0;
            u64 l = c->len < av ? c->len : av;
            if (l) bput(out, basis + p, l);
            if (l < c->len) return RS_INPUT_ENDED;
        }
    }
    return d.err;
}

/* ---- greedy matcher ---- */
void ref_greedy(const refsig *s, const u8 *p, size_t n, seglist *out)
{
    memset(out, 0, sizeof *out);
    size_t cap = 64;
    out->s = xm(cap * sizeof(seg));
    /* index */
    u32 tb = 1;
    while (tb < 2 * s->count + 2) tb *= 2;
    i64 *head = xm(tb * sizeof(i64));
    i64 *next = xm((size_t)(s->count + 1) * sizeof(i64));
    for (u32 i = 0; i < tb; i++) head[i] = -1;
    for (i64 i = (i64)s->count - 1; i >= 0; i--) {     /* chains in increasing index order */
        u32 k = (ref_mix32(sig_hash(s->magic, s->weak[i]) ^ 0x5bd1e995)) & (tb - 1);
        next[i] = head[k]; head[k] = i;
    }
    int rk = magic_is_rk(s->magic);
    u32 *A = xm((n + 1) * 4), *B = xm((n + 1) * 4), *pw = NULL;
    A[0] = B[0] = 0;
    size_t bl = s->bl, maxl = bl < n ? bl : n;
    if (rk) {
        pw = xm((maxl + 1) * 4);
        pw[0] = 1;
        for (size_t i = 0; i < maxl; i++) pw[i + 1] = pw[i] * RKM;
        for (size_t i = 0; i < n; i++) A[i + 1] = A[i] * RKM + p[i];
    } else
        for (size_t i = 0; i < n; i++) { A[i + 1] = A[i] + p[i]; B[i + 1] = B[i] + (u32)i * p[i]; }
    size_t i = 0;
    while (i < n) {
        size_t L = n - i < bl ? n - i : bl;
        u32 w;
        if (rk) w = A[i + L] - A[i] * pw[L] + pw[L];
        else {
            u32 dA = A[i + L] - A[i], dB = B[i + L] - B[i], l = (u32)L;
            u32 s1 = dA + 31 * l, s2 = (l + (u32)i) * dA - dB + 31 * (u32)(((u64)L * (L + 1)) / 2);
            w = (s2 & 0xffff) << 16 | (s1 & 0xffff);
        }
        u32 hc = sig_hash(s->magic, w);
        u32 k = ref_mix32(hc ^ 0x5bd1e995) & (tb - 1);
        i64 m = -1;
        u8 st[32]; int have = 0, any = 0;
        for (i64 e = head[k]; e >= 0; e = next[e]) {
            if (sig_hash(s->magic, s->weak[e]) != hc) continue;
            any = 1;
            if (!have) { ref_strong(s->magic, st, p + i, L); have = 1; }
            if (!memcmp(st, s->strong + (size_t)e * s->sl, s->sl)) { m = e; break; }
        }
        if (any) { out->weak_hits++; if (m < 0) out->false_weak++; }
        if (out->n + 1 >= cap) {
            seg *ns = xm(cap * 2 * sizeof(seg));
            memcpy(ns, out->s, out->n * sizeof(seg));
            out->s = ns; cap *= 2;
        }
        seg *last = out->n ? &out->s[out->n - 1] : NULL;
        if (m >= 0) {
            u64 pos = (u64)m * bl;
            if (last && last->copy && last->pos + last->len == pos) last->len += L;
            else { out->s[out->n++] = (seg){ 1, pos, L }; }
            i += L;
        } else {
            if (last && !last->copy) last->len++;
            else { out->s[out->n++] = (seg){ 0, i, 1 }; }
            i++;
        }
    }
}

/* ---- crafted blocks ---- */
static int craft_roll(u8 *b, size_t n, u32 target)
{
    if (n < 600) return 0;
    u32 cur = ref_rollsum(b, n);
    u32 d1 = ((target & 0xffff) - (cur & 0xffff)) & 0xffff;
    if (d1 < 32768) {
        for (size_t k = 0, i = (size_t)rn(n); k < n && d1; k++, i = (i + 1) % n) {
            u32 room = 255u - b[i], t = room < d1 ? room : d1; b[i] = (u8)(b[i] + t); d1 -= t;
        }
    } else {
        d1 = 65536 - d1;
        for (size_t k = 0, i = (size_t)rn(n); k < n && d1; k++, i = (i + 1) % n) {
            u32 room = b[i], t = room < d1 ? room : d1; b[i] = (u8)(b[i] - t); d1 -= t;
        }
    }
    if (d1) return 0;
    for (int it = 0; it < 200000; it++) {
        cur = ref_rollsum(b, n);
        u32 d2 = ((target >> 16) - (cur >> 16)) & 0xffff;
        if (!d2) return cur == target;
        /* b[i]++, b[j]-- raises s2 by j-i; several units at once */
        int up = d2 <= 32768;
        u32 need = up ? d2 : 65536 - d2;
        u32 span = need < n - 1 ? need : (u32)(n - 1);
        if (span > n / 2 && span < need) span = (u32)(n / 2);
        if (span > n - 1) span = (u32)n - 1;
        size_t i = (size_t)rn(n - span), j = i + span;
        if (!up) { size_t t = i; i = j; j = t; }
        u32 mx = need / span;
        u32 r = 255u - b[i]; if (b[j] < r) r = b[j];
        if (mx < r) r = mx;
        b[i] = (u8)(b[i] + r); b[j] = (u8)(b[j] - r);
    }
    return 0;
}
static int craft_rk(u8 *b, size_t n, u32 target)
{
    if (n < 6) return 0;
    static __thread u32 *keys; static __thread int32_t *hd, *nx;
    if (!keys) { keys = real_malloc(65536 * 4); hd = real_malloc(65536 * 4); nx = real_malloc(65536 * 4); }
    for (int tries = 0; tries < 40; tries++) {
        size_t q[4];
        q[0] = (size_t)rn(n);
        for (int k = 1; k < 4; k++) { again: q[k] = (size_t)rn(n); for (int z = 0; z < k; z++) if (q[z] == q[k]) goto again; }
        u32 c[4];
        for (int k = 0; k < 4; k++) { u32 m = 1; for (size_t z = q[k]; z + 1 < n; z++) m *= RKM; c[k] = m; b[q[k]] = 0; }
        u32 base = ref_rk(b, n);
        for (u32 i = 0; i < 65536; i++) hd[i] = -1;
        for (u32 i = 0; i < 65536; i++) {
            keys[i] = (i & 255) * c[0] + (i >> 8) * c[1];
            u32 h = (keys[i] * 0x9e3779b1u) >> 16; nx[i] = hd[h]; hd[h] = (int32_t)i;
        }
        for (u32 i = 0; i < 65536; i++) {
            u32 need = target - base - ((i & 255) * c[2] + (i >> 8) * c[3]);
            for (int32_t e = hd[(need * 0x9e3779b1u) >> 16]; e >= 0; e = nx[e])
                if (keys[e] == need) {
                    b[q[0]] = (u8)e; b[q[1]] = (u8)(e >> 8); b[q[2]] = (u8)i; b[q[3]] = (u8)(i >> 8);
                    return ref_rk(b, n) == target;
                }
        }
        b[rn(n)] ^= (u8)rr(1, 255);
    }
    return 0;
}
int craft_weak(u32 magic, u8 *b, size_t n, u32 target)
{
    return magic_is_rk(magic) ? craft_rk(b, n, target) : craft_roll(b, n, target);
}
#define ND 64
static signed char rkd[ND][8]; static int nrkd;
static void init_rkd(void)
{
    enum { T = 1 << 17, HB = 1 << 18 };
    u32 *key = real_malloc(T * 4); int32_t *hd = real_malloc(HB * 4), *nx = real_malloc(T * 4);
    signed char (*da)[4] = real_malloc(T * 4);
    u64 x = 88172645463325252ull;
    u32 pw[8]; pw[7] = 1; for (int i = 6; i >= 0; i--) pw[i] = pw[i + 1] * RKM;
    for (int i = 0; i < HB; i++) hd[i] = -1;
    for (int i = 0; i < T; i++) {
        u32 k = 0;
        for (int j = 0; j < 4; j++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; da[i][j] = (signed char)((int)(x % 61) - 30); k += (u32)(int)da[i][j] * pw[j]; }
        key[i] = k; u32 h = (k * 0x9e3779b1u) >> 14; nx[i] = hd[h]; hd[h] = i;
    }
    while (nrkd < ND) {
        signed char d[4]; u32 k = 0;
        for (int j = 0; j < 4; j++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; d[j] = (signed char)((int)(x % 61) - 30); k += (u32)(int)d[j] * pw[4 + j]; }
        u32 need = 0u - k;
        for (int e = hd[(need * 0x9e3779b1u) >> 14]; e >= 0 && nrkd < ND; e = nx[e])
            if (key[e] == need) { memcpy(rkd[nrkd], da[e], 4); memcpy(rkd[nrkd] + 4, d, 4); nrkd++; }
    }
    real_free(key); real_free(hd); real_free(nx); real_free(da);
}
int craft_collision(u32 magic, u8 *b, size_t n)
{
    u8 sv[8];
    if (magic_is_rk(magic)) {
        if (n < 8) return 0;
        static pthread_once_t once = PTHREAD_ONCE_INIT; pthread_once(&once, init_rkd);
        for (int t = 0; t < 400; t++) {
            int k = (int)rn(ND), sg = chance(1, 2) ? 1 : -1, ok = 1; size_t i = (size_t)rn(n - 7);
            int all0 = 1;
            for (int j = 0; j < 8; j++) { int v = b[i + j] + sg * rkd[k][j]; if (v < 0 || v > 255) ok = 0; if (rkd[k][j]) all0 = 0; }
            if (!ok || all0) continue;
            u32 w = ref_rk(b, n);
            memcpy(sv, b + i, 8);
            for (int j = 0; j < 8; j++) b[i + j] = (u8)(b[i + j] + sg * rkd[k][j]);
            if (ref_rk(b, n) == w) return 1;
            memcpy(b + i, sv, 8);
        }
        return 0;
    }
    if (n < 3) return 0;
    for (int t = 0; t < 200; t++) {
        size_t i = (size_t)rn(n - 2); int sg = chance(1, 2) ? 1 : -1;
        int a = b[i] + sg, c = b[i + 1] - 2 * sg, e = b[i + 2] + sg;
        if (a < 0 || a > 255 || c < 0 || c > 255 || e < 0 || e > 255) continue;
        b[i] = (u8)a; b[i + 1] = (u8)c; b[i + 2] = (u8)e;
        return 1;
    }
    return 0;
}

/* How much of p[0..n) a greedy search can go through with at most budget bytes of strong sums wasted on false weak matches. */
size_t ref_affordable(u32 magic, size_t bl, const u8 *o, size_t on, const u8 *p, size_t n, u64 budget)
{
    if ((u64)bl * n <= budget || !on || !bl) return n;
    size_t cnt = (on + bl - 1) / bl;
    u32 tb = 1, *weak = xm(cnt * 4);
    while (tb < 2 * cnt + 2) tb *= 2;
    i64 *head = xm(tb * sizeof(i64)), *next = xm(cnt * sizeof(i64));
    for (u32 i = 0; i < tb; i++) head[i] = -1;
    for (i64 i = (i64)cnt - 1; i >= 0; i--) {
        size_t a = (size_t)i * bl, l = on - a < bl ? on - a : bl;
        weak[i] = sig_hash(magic, ref_weak(magic, o + a, l));
        u32 k = ref_mix32(weak[i] ^ 0x5bd1e995) & (tb - 1);
        next[i] = head[k]; head[k] = i;
    }
    int rk = magic_is_rk(magic);
    u32 top = 1;                /* multiplier of the oldest byte */
    size_t L = bl < n ? bl : n;
    for (size_t i = 0; i < L; i++) top *= RKM;
    u64 cost = 0;
    size_t i = 0;
    int have = 0;
    u32 s1 = 0, s2 = 0, h = 0;
    while (i < n) {
        if (n - i < bl) break;  /* the tail shrinks: costs at most one window's square */
        if (!have) { s1 = s2 = 0; h = 1; for (size_t j = 0; j < bl; j++) { s1 += p[i + j] + 31u; s2 += s1; h = h * RKM + p[i + j]; } have = 1; }
        u32 hc = sig_hash(magic, rk ? h : (s2 & 0xffff) << 16 | (s1 & 0xffff));
        int any = 0, hit = 0;
        for (i64 e = head[ref_mix32(hc ^ 0x5bd1e995) & (tb - 1)]; e >= 0; e = next[e])
            if (weak[e] == hc) {
                size_t a = (size_t)e * bl;
                any = 1;
                if (on - a >= bl && !memcmp(o + a, p + i, bl)) { hit = 1; break; }
            }
        if (hit) { i += bl; have = 0; continue; }
        if (any && (cost += bl) > budget) { size_t m = i + bl < n ? i + bl : n; return m; }
        if (i + bl < n) {
            u8 x = p[i], y = p[i + bl];
            s1 += (u32)y - x; s2 += s1 - (u32)bl * (x + 31u);
            h = h * RKM + y - top * x - top * (RKM - 1);
        }
        i++;
    }
    return n;
}
