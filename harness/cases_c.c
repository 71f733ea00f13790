/* C20, C22..C26. */
#include "h.h"
#include <ctype.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

/* ---------- C20 ---------- */
/* Cheap position-dependent contents. */
static u8 vbyte(u64 pos) { u64 x = (pos >> 3) * 0x9e3779b97f4a7c15ull; x ^= x >> 29; return (u8)(x >> (8 * (pos & 7))); }
static void vdata(u8 *b, u64 pos, size_t n)
{
    size_t i = 0;
    for (; i < n && ((pos + i) & 7); i++) b[i] = vbyte(pos + i);
    for (; i + 8 <= n; i += 8) { u64 x = ((pos + i) >> 3) * 0x9e3779b97f4a7c15ull; x ^= x >> 29; memcpy(b + i, &x, 8); }
    for (; i < n; i++) b[i] = vbyte(pos + i);
}
static int vsame(const u8 *b, u64 pos, size_t n)
{
    u8 t[8192];
    while (n) { size_t k = n < sizeof t ? n : sizeof t; vdata(t, pos, k); if (memcmp(t, b, k)) return 0; b += k; pos += k; n -= k; }
    return 1;
}
typedef struct { u64 n; u64 insert_at; size_t ninsert; u64 period; } vsrc;  /* virtual input: identity, with some inserted bytes */
static void src_read(const vsrc *s, u64 pos, u8 *b, size_t n)
{
    if (s->period) { while (n) { u64 o = pos % s->period; size_t k = s->period - o < n ? (size_t)(s->period - o) : n; vdata(b, o, k); b += k; pos += k; n -= k; } return; }
    for (size_t i = 0; i < n;) {
        u64 q = pos + i;
        if (!s->ninsert || q < s->insert_at) { size_t k = n - i; if (s->ninsert && s->insert_at - q < k) k = (size_t)(s->insert_at - q); vdata(b + i, q, k); i += k; }
        else if (q < s->insert_at + s->ninsert) { b[i] = (u8)(q * 37 + 5); i++; }
        else { vdata(b + i, q - s->ninsert, n - i); i = n; }
    }
}
typedef struct { u64 got; void *ctx; void (*put)(void *ctx, const u8 *p, size_t n, u64 at); } vsink;
static rs_result vrun(rs_job_t *j, const vsrc *s, size_t chunk, vsink *o, u64 *calls)
{
    u8 *ib = real_malloc(chunk), *ob = real_malloc(1 << 18);
    u64 pos = 0; size_t have = 0; rs_result r;
    *calls = 0;
    do {
        size_t add = chunk - have;
        if (add > s->n - pos) add = (size_t)(s->n - pos);
        src_read(s, pos, ib + have, add); pos += add;
        rs_buffers_t b = { (char *)ib, have + add, pos == s->n, (char *)ob, 1 << 18 };
        size_t k = have + add;
        r = rs_job_iter(j, &b);
        ++*calls;
        size_t made = (size_t)((u8 *)b.next_out - ob);
        if (made) o->put(o->ctx, ob, made, o->got);
        o->got += made;
        if (r == RS_BLOCKED && !made && b.avail_in == k && (pos == s->n || b.avail_in == chunk)) viol("stalled", "no progress at input offset %llu", (unsigned long long)pos);
        memmove(ib, b.next_in, b.avail_in); have = b.avail_in;
    } while (r == RS_BLOCKED);
    real_free(ib); real_free(ob);
    return r;
}
static void put_buf(void *c, const u8 *p, size_t n, u64 at) { (void)at; bput(c, p, n); }

typedef struct { const seg *s; size_t n, k; u64 off; } segck;   /* expected output segments: basis ranges */
static void put_segs(void *c, const u8 *p, size_t n, u64 at)
{
    segck *k = c;
    while (n) {
        if (k->k >= k->n) viol("too-much-output", "output beyond what the delta describes at %llu", (unsigned long long)at);
        u64 left = k->s[k->k].len - k->off; size_t m = left < n ? (size_t)left : n;
        if (!vsame(p, k->s[k->k].pos + k->off, m)) viol("wrong-data", "output at %llu is not basis data at %llu", (unsigned long long)at, (unsigned long long)(k->s[k->k].pos + k->off));
        p += m; n -= m; at += m; k->off += m;
        if (k->off == k->s[k->k].len) { k->k++; k->off = 0; }
    }
}
static rs_result vbasis_cb(void *op, rs_long_t pos, size_t *len, void **b)
{
    u64 *maxpos = op;
    if (pos < 0) viol("negative-position", "basis asked at %jd", (intmax_t)pos);
    if ((u64)pos + *len > *maxpos) *maxpos = (u64)pos + *len;
    if (chance(1, 50)) *len = 1 + (size_t)rn(*len);
    vdata(*b, (u64)pos, *len);
    return RS_DONE;
}
static void c20_patch(const seg *s, size_t n, u64 total)
{
    buf d = { 0 };
    enc_magic(&d);
    for (size_t i = 0; i < n; i++) {
        static const int W[] = { 1, 2, 4, 8 };
        int wp = minimal_width(s[i].pos), wl = minimal_width(s[i].len);
        if (chance(1, 3)) while (wp < 8 && chance(1, 2)) wp *= 2;
        if (chance(1, 3)) while (wl < 8 && chance(1, 2)) wl *= 2;
        (void)W;
        enc_copy(&d, s[i].pos, s[i].len, wp, wl);
    }
    bputc(&d, 0);
    u64 mp = 0;
    rs_job_t *j = rs_patch_begin(vbasis_cb, &mp);
    segck ck = { .s = s, .n = n }; vsink o = { .ctx = &ck, .put = put_segs };
    /* feed d through a plain loop */
    size_t ip = 0; rs_result r; u8 *ob = real_malloc(1 << 20); u64 got = 0;
    do {
        size_t k = d.n - ip; if (chance(1, 2)) k = 1 + (size_t)rn(k ? k : 1); if (k > d.n - ip) k = d.n - ip;
        rs_buffers_t b = { (char *)d.p + ip, k, ip + k == d.n, (char *)ob, 1 << 20 };
        r = rs_job_iter(j, &b);
        size_t made = (size_t)((u8 *)b.next_out - ob);
        if (made) put_segs(&ck, ob, made, got);
        got += made; ip += k - b.avail_in;
    } while (r == RS_BLOCKED);
    (void)o;
    real_free(ob);
    if (r != RS_DONE) viol("valid-delta-rejected", "patch returned %d (first copy %llu+%llu)", r, (unsigned long long)s[0].pos, (unsigned long long)s[0].len);
    if (got != total) viol("output-length", "patch wrote %llu bytes, delta describes %llu", (unsigned long long)got, (unsigned long long)total);
    const rs_stats_t *st = rs_job_statistics(j);
    if ((u64)st->copy_bytes != total || (u64)st->copy_cmds != n) viol("statistics", "copy_bytes %jd of %llu, copy_cmds %jd of %zu", (intmax_t)st->copy_bytes, (unsigned long long)total, (intmax_t)st->copy_cmds, n);
    rs_job_free(j);
    ev("large_copies_executed", n); evmax("largest_basis_position", mp); evmax("largest_output", got);
}
/* Jobs that are given (or give) gigabytes in one call. */
typedef struct { u64 want; u64 pos, calls; int code; } onecb;
static rs_result one_cb(void *op, rs_long_t pos, size_t *len, void **b)
{
    onecb *o = op; (void)b;
    if (++o->calls == 1 ? *len != o->want || (u64)pos != o->pos : (u64)pos != o->pos + 7) viol("basis-request", "basis asked for %zu at %jd, expected %llu at %llu", *len, (intmax_t)pos, (unsigned long long)o->want, (unsigned long long)o->pos);
    if (o->calls == 1) { *len = 7; return RS_DONE; }
    if (*len != o->want - 7) viol("basis-request", "basis asked for %zu after a short read, expected %llu", *len, (unsigned long long)o->want - 7);
    return RS_IO_ERROR;
}
static int allzero(const u8 *p, size_t n) { return !n || (!p[0] && !memcmp(p, p + 1, n - 1)); }
/* a few bytes, and then more than 4 GB at once: z has room for them and is all zeros */
static void c20_second_call(u8 *z, u64 n)
{
    char o[200]; rs_result r; sched big = sched_big();
    /* patch: the magic in two pieces */
    buf d = { 0 }; enc_magic(&d); bputc(&d, 3); bput(&d, "abc", 3); bputc(&d, 0);
    size_t k = (size_t)rr(1, d.n - 1);
    u64 pos = 0; rs_job_t *j = rs_patch_begin(vbasis_cb, &pos);
    rs_buffers_t b = { (char *)d.p, k, 0, o, sizeof o };
    r = rs_job_iter(j, &b);
    if (r != RS_BLOCKED || b.avail_in) viol("stalled", "patch returned %d after %zu bytes", r, k);
    memcpy(z, d.p + k, d.n - k); b.next_in = (char *)z; b.avail_in = n;
    r = rs_job_iter(j, &b);
    if (r != RS_DONE || b.avail_in != n - (d.n - k) || b.avail_out != sizeof o - 3 || memcmp(o, "abc", 3)) viol("huge-second-call", "patch given %zu bytes and then %llu returned %d with %zu bytes of output", k, (unsigned long long)n, r, sizeof o - b.avail_out);
    rs_job_free(j); memset(z, 0, d.n);
    /* loading a signature: the header in two pieces, the block length is wrong */
    buf h = { 0 }; bput_be(&h, MAGICS[rn(4)], 4); bput_be(&h, 0, 4); bput_be(&h, 8, 4);
    k = (size_t)rr(1, 7);
    rs_signature_t *ls = NULL; j = rs_loadsig_begin(&ls);
    rs_buffers_t b1 = { (char *)h.p, k, 0, NULL, 0 };
    r = rs_job_iter(j, &b1);
    if (r != RS_BLOCKED || b1.avail_in) viol("stalled", "loadsig returned %d after %zu bytes", r, k);
    memcpy(z, h.p + k, h.n - k); b1.next_in = (char *)z; b1.avail_in = n;
    r = rs_job_iter(j, &b1);
    if (r != RS_CORRUPT) viol("huge-second-call", "loadsig given %zu bytes and then %llu returned %d", k, (unsigned long long)n, r);
    rs_job_free(j); if (ls) rs_free_sumset(ls);
    memset(z, 0, h.n);
    /* a signature, while there is room for the first blocks only */
    u32 m = MAGICS[rn(4)], bl = (u32)rr(20, 3000), sl = (u32)rr(4, magic_max(m)); size_t room = 12 + 2 * (4 + sl) + (size_t)rn(4);
    u8 *zz = xm(2 * (size_t)bl); memset(zz, 0, 2 * (size_t)bl);
    buf want = ref_signature(m, bl, sl, zz, 2 * (size_t)bl);
    k = (size_t)rr(1, bl - 1);
    j = rs_sig_begin(bl, sl, (rs_magic_number)m);
    rs_buffers_t b2 = { (char *)z, k, 0, o, room };
    r = rs_job_iter(j, &b2);
    if (r != RS_BLOCKED || b2.avail_in) viol("stalled", "signature returned %d after %zu bytes", r, k);
    b2.next_in = (char *)z + k; b2.avail_in = n;
    r = rs_job_iter(j, &b2);
    if (r != RS_BLOCKED || b2.avail_out || memcmp(o, want.p, want.n)) viol("huge-second-call", "signature given %zu bytes and then %llu returned %d with %zu bytes left of %zu", k, (unsigned long long)n, r, b2.avail_out, room);
    rs_job_free(j);
    /* a delta that finds nothing, likewise */
    memset(zz, 'x', bl);
    buf sb = ref_signature(m, bl, sl, zz, bl);
    rs_signature_t *sig = do_load(sb.p, sb.n, &big, NULL, 1);
    j = rs_delta_begin(sig);
    rs_buffers_t b3 = { (char *)z, k, 0, o, 150 };
    r = rs_job_iter(j, &b3);
    if (r != RS_BLOCKED) viol("stalled", "delta returned %d after %zu bytes", r, k);
    if (b3.avail_in) viol("stalled", "delta left %zu bytes", b3.avail_in);
    b3.next_in = (char *)z + k; b3.avail_in = n;
    r = rs_job_iter(j, &b3);
    if (r != RS_BLOCKED || b3.avail_out || !allzero((u8 *)o + 7, 140) || memcmp(o, "rs\0026", 4) || (o[4] != 0x41 && o[4] != 0x42 && o[4] != 0x43)) viol("huge-second-call", "delta given %zu bytes and then %llu returned %d with %zu bytes of output", k, (unsigned long long)n, r, 150 - b3.avail_out);
    rs_job_free(j); rs_free_sumset(sig);
    /* a delta that finds everything, all of it given at once */
    memset(zz, 0, bl);
    buf sb2 = ref_signature(m, bl, sl, zz, bl), w2 = { 0 };
    sig = do_load(sb2.p, sb2.n, &big, NULL, 1);
    enc_magic(&w2);
    while (w2.n < 150) enc_copy(&w2, 0, bl, 1, bl < 256 ? 1 : 2);
    j = rs_delta_begin(sig);
    rs_buffers_t b4 = { (char *)z, n, 0, o, 150 };
    r = rs_job_iter(j, &b4);
    if (r != RS_BLOCKED || b4.avail_out || memcmp(o, w2.p, 150)) viol("huge-first-call", "delta given %llu matching bytes returned %d with %zu bytes of output, not the copies expected", (unsigned long long)n, r, 150 - b4.avail_out);
    rs_job_free(j); rs_free_sumset(sig);
    ev("huge_second_calls", 4);
}
static void c20_onecall(int deep)
{
    static const u64 N[] = { 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull };
    size_t map = 0x108000000ull, cap = 1 << 20;
    u8 *z = mmap(NULL, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (z == MAP_FAILED) harness_error("mmap");
    u8 *ob = real_malloc(cap);
    for (int k = 0; k < 4; k++) {
        u64 n = N[k] + rn(k & 1 ? 5 : 2) + (chance(1, 2) ? rn(1000000) : 0);
        if (!deep) {
            c20_second_call(z, N[k] + rn(12));
            /* a delta without a signature: literals only, zeros only */
            rs_job_t *j = rs_delta_begin(NULL);
            rs_buffers_t b = { (char *)z, n, 1, NULL, 0 };
            u64 lit = 0, left = 0, out = 0; int need = 4, ended = 0; u8 cmd = 0; u64 v = 0; rs_result r; int st = 0;    /* st 0 magic 1 command 2 length */
            do {
                b.next_out = (char *)ob; b.avail_out = cap;
                r = rs_job_iter(j, &b);
                size_t made = (size_t)((u8 *)b.next_out - ob), i = 0;
                if (r == RS_BLOCKED && !made) viol("stalled", "delta makes no progress after %llu bytes", (unsigned long long)out);
                out += made;
                while (i < made) {
                    if (left) { size_t m = made - i < left ? made - i : (size_t)left; if (!allzero(ob + i, m)) viol("wrong-data", "literal data differs near %llu", (unsigned long long)lit); i += m; left -= m; continue; }
                    if (ended) viol("malformed-delta", "data after the end command");
                    u8 x = ob[i++];
                    if (st == 0) { v = v << 8 | x; if (!--need) { if (v != 0x72730236) viol("malformed-delta", "delta magic %llx", (unsigned long long)v); st = 1; } }
                    else if (st == 1) {
                        cmd = x; v = 0;
                        if (!cmd) ended = 1;
                        else if (cmd <= 64) { left = cmd; lit += left; }
                        else if (cmd <= 0x44) { need = 1 << (cmd - 0x41); st = 2; }
                        else viol("malformed-delta", "command %#x in a delta without a signature", cmd);
                    } else { v = v << 8 | x; if (!--need) { left = v; lit += v; st = 1; } }
                }
            } while (r == RS_BLOCKED);
            if (r != RS_DONE || !ended || left || lit != n || b.avail_in) viol("large-literal", "delta of %llu bytes given in one call returned %d with literals of %llu bytes in all", (unsigned long long)n, r, (unsigned long long)lit);
            if ((u64)rs_job_statistics(j)->lit_bytes != n) viol("statistics", "lit_bytes %jd of %llu", (intmax_t)rs_job_statistics(j)->lit_bytes, (unsigned long long)n);
            rs_job_free(j);
            /* a copy into that much space: what is asked of the basis */
            onecb oc = { .want = n, .pos = rn(1ull << 40) };
            buf d = { 0 }; enc_magic(&d); enc_copy(&d, oc.pos, n, 8, 8); bputc(&d, 0);
            j = rs_patch_begin(one_cb, &oc);
            rs_buffers_t b2 = { (char *)d.p, d.n, 1, (char *)z, map - 4096 };
            r = rs_job_iter(j, &b2);
            if (r != RS_IO_ERROR || oc.calls != 2) viol("basis-request", "patch returned %d after %llu requests", r, (unsigned long long)oc.calls);
            rs_job_free(j);
            /* a literal of that length, there in full */
            buf h = { 0 }; enc_magic(&h); bputc(&h, n >> 32 ? 0x44 : 0x43); bput_be(&h, n, n >> 32 ? 8 : 4);
            memcpy(z, h.p, h.n);
            u64 mp = 0, got = 0;
            j = rs_patch_begin(vbasis_cb, &mp);
            rs_buffers_t b3 = { (char *)z, h.n + n + 1 + 99, 1, NULL, 0 };
            do {
                b3.next_out = (char *)ob; b3.avail_out = cap;
                r = rs_job_iter(j, &b3);
                size_t made = (size_t)((u8 *)b3.next_out - ob);
                if (!allzero(ob, made)) viol("wrong-data", "literal output differs near %llu", (unsigned long long)got);
                if (r == RS_BLOCKED && !made) viol("stalled", "patch makes no progress after %llu bytes", (unsigned long long)got);
                got += made;
            } while (r == RS_BLOCKED);
            if (r != RS_DONE || got != n || b3.avail_in != 99) viol("large-literal", "patch returned %d after %llu of %llu literal bytes with %zu bytes left", r, (unsigned long long)got, (unsigned long long)n, b3.avail_in);
            rs_job_free(j);
            memset(z, 0, h.n);
        } else {
            /* signature and delta of one buffer */
            u32 m = MAGICS[rn(4)], bl = (u32)rr(30, 64) << 20, sl = 16; rs_result r;
            rs_job_t *j = rs_sig_begin(bl, sl, (rs_magic_number)m);
            rs_buffers_t b = { (char *)z, n, 1, (char *)ob, cap };
            r = rs_job_iter(j, &b);
            if (r != RS_DONE) viol("signature-failed", "signature of %llu bytes in one call returned %d", (unsigned long long)n, r);
            rs_job_free(j);
            buf g = bdup(ob, cap - b.avail_out);
            u64 cnt = (n + bl - 1) / bl;
            if (g.n != 12 + cnt * (4 + sl)) viol("signature-length", "signature of %llu bytes has %zu bytes", (unsigned long long)n, g.n);
            buf one = ref_signature(m, bl, sl, z, bl), last = ref_signature(m, bl, sl, z, (size_t)(n % bl));
            for (u64 i = 0; i < cnt; i++) { const buf *e = i == cnt - 1 && n % bl ? &last : &one; if (memcmp(g.p + 12 + i * (4 + sl), e->p + 12, 4 + sl)) viol("signature-bytes", "block %llu of %llu differs", (unsigned long long)i, (unsigned long long)cnt); }
            sched big = sched_big();
            rs_signature_t *sig = do_load(g.p, g.n, &big, NULL, 1);
            j = rs_delta_begin(sig);
            rs_buffers_t b4 = { (char *)z, n, 1, (char *)ob, cap };
            r = rs_job_iter(j, &b4);
            delta dd; u8 *cp = bdup(ob, cap - b4.avail_out).p; ref_parse_delta(&dd, cp, cap - b4.avail_out);
            u64 lit = 0, c = 0; for (size_t i = 0; !dd.err && i < dd.n; i++) { if (dd.c[i].kind == C_LIT) lit += dd.c[i].len; else c += dd.c[i].len; }
            if (r != RS_DONE || dd.err || lit || c != n) viol("large-copy", "delta of %llu bytes in one call returned %d with %llu literal and %llu copied bytes", (unsigned long long)n, r, (unsigned long long)lit, (unsigned long long)c);
            rs_job_free(j); rs_free_sumset(sig);
        }
        ev("one_call_gigabytes", n >> 30); feat(n);
    }
    munmap(z, map); real_free(ob);
    sample("jobs given 2 to 4 GB in a single call: all of it accounted for");
}
static u64 bigpos(void)
{
    static const u64 B[] = { 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x1ffffffffull, 0x200000000ull, 0x7fffffffffull, 0x10000000000ull, 0x4000000000000000ull, 0xffff0000ull, 0x80000001ull };
    u64 v = B[rn(11)];
    v += rn(7); v -= 3;
    if (chance(1, 4)) v = rr(0x70000000ull, 0x300000000ull);
    if (chance(1, 8)) v = rnd() >> rr(2, 30);
    return v & 0x4fffffffffffffffull;
}
static u64 file_at(FILE *f) { return (u64)ftello(f); }
void case_C20(u64 c)
{
    logmon lm; memset(&lm, 0, sizeof lm); cur_log = &lm;
    u64 heavy = c < 15 ? c : 100;
    if (!tier && (heavy == 4 || heavy == 5 || heavy == 10 || heavy == 13)) heavy = 100;        /* thorough only */
    u64 calls;
    if (heavy == 0 || heavy == 4) {             /* signature of more than 4 GB */
        u32 m = heavy == 0 ? MAGICS[rn(2)] : MAGICS[2 + rn(2)], bl = (u32)(heavy == 0 ? rr(20, 60) << 20 : rr(1000, 3000) << 10) + 8 * (u32)rn(5), sl = (u32)rr(8, 16);
        u64 n = (1ull << 32) + rr(1, 300000000);
        vsrc s = { .n = n, .period = bl };
        rs_job_t *j = rs_sig_begin(bl, sl, (rs_magic_number)m);
        buf g = { 0 }; vsink o = { .ctx = &g, .put = put_buf };
        rs_result r = vrun(j, &s, 1 << 20, &o, &calls);
        const rs_stats_t *st = rs_job_statistics(j);
        u64 cnt = (n + bl - 1) / bl;
        if (r != RS_DONE) viol("signature-failed", "signature of %llu bytes returned %d", (unsigned long long)n, r);
        if ((u64)st->sig_blocks != cnt) viol("statistics", "sig_blocks %jd of %llu", (intmax_t)st->sig_blocks, (unsigned long long)cnt);
        u8 *blk = xm(bl); vdata(blk, 0, bl);
        buf one = ref_signature(m, bl, sl, blk, bl), last = ref_signature(m, bl, sl, blk, (size_t)(n % bl));
        if (g.n != 12 + cnt * (4 + sl)) viol("signature-length", "signature of %llu bytes has %zu bytes, expected %llu", (unsigned long long)n, g.n, (unsigned long long)(12 + cnt * (4 + sl)));
        for (u64 i = 0; i < cnt; i++) {
            const buf *e = i == cnt - 1 && n % bl ? &last : &one;
            if (memcmp(g.p + 12 + i * (4 + sl), e->p + 12, 4 + sl)) viol("signature-bytes", "block %llu of %llu differs", (unsigned long long)i, (unsigned long long)cnt);
        }
        rs_job_free(j);
        ev("bytes_streamed", n); evmax("largest_input", n);
        sample("signature of %llu bytes with %u byte blocks: all %llu block sums right", (unsigned long long)n, bl, (unsigned long long)cnt);
    } else if (heavy == 1 || heavy == 5) {      /* delta whose copy is longer than 4 GB */
        u32 m = MAGICS[heavy == 1 ? 3 : rn(4)], bl = (u32)rr(30, 64) << 20, sl = 16;
        u64 cnt = (0x100000000ull + rr(1, 200000000)) / bl + 1, n = cnt * bl;
        vsrc s = { .n = n };
        buf g = { 0 }; vsink o = { .ctx = &g, .put = put_buf };
        rs_job_t *j = rs_sig_begin(bl, sl, (rs_magic_number)m);
        rs_result r = vrun(j, &s, 1 << 20, &o, &calls);
        rs_job_free(j);
        if (r != RS_DONE) viol("signature-failed", "signature returned %d", r);
        sched big = sched_big();
        rs_signature_t *sig = do_load(g.p, g.n, &big, NULL, 1);
        /* the whole file, with a few bytes in front so that the second run of copies starts elsewhere */
        vsrc ns = { .n = n + 1000, .insert_at = bl, .ninsert = 1000 };
        buf d = { 0 }; vsink od = { .ctx = &d, .put = put_buf };
        j = rs_delta_begin(sig);
        r = vrun(j, &ns, 4 << 20, &od, &calls);
        rs_stats_t st = *rs_job_statistics(j);
        rs_job_free(j);
        rs_free_sumset(sig);
        if (r != RS_DONE) viol("delta-failed", "delta of %llu bytes returned %d", (unsigned long long)ns.n, r);
        delta dd; ref_parse_delta(&dd, d.p, d.n);
        if (dd.err) viol("malformed-delta", "delta does not parse");
        u64 lit = 0; for (size_t i = 0; i < dd.n; i++) if (dd.c[i].kind == C_LIT) lit += dd.c[i].len;
        if (dd.copy_cmds != 2 || dd.c[0].kind != C_COPY || dd.c[0].pos != 0 || dd.c[0].len != bl || dd.c[dd.n - 1].kind != C_COPY || dd.c[dd.n - 1].pos != bl || dd.c[dd.n - 1].len != n - bl || lit != 1000)
            viol("large-copy", "expected copy 0+%u, 1000 literal bytes, copy %u+%llu; got %zu commands, last %llu+%llu, %llu literal bytes", bl, bl, (unsigned long long)(n - bl), dd.n, (unsigned long long)dd.c[dd.n - 1].pos, (unsigned long long)dd.c[dd.n - 1].len, (unsigned long long)lit);
        if ((u64)st.copy_bytes != n || (u64)st.lit_bytes != 1000) viol("statistics", "copy_bytes %jd lit_bytes %jd", (intmax_t)st.copy_bytes, (intmax_t)st.lit_bytes);
        ev("bytes_streamed", n * 2); evmax("largest_copy_emitted", n - bl);
        sample("delta of %llu bytes: one copy of %llu bytes emitted", (unsigned long long)ns.n, (unsigned long long)(n - bl));
    } else if (heavy == 2 || heavy == 6) {      /* patch with a copy of more than 4 GB */
        seg s[3] = { { 1, bigpos() >> 8, 100 }, { 1, heavy == 2 ? 5 : bigpos(), 0x100000000ull + rr(1, 1000000) }, { 1, bigpos(), rr(1, 1000) } };
        c20_patch(s, 3, s[0].len + s[1].len + s[2].len);
        sample("patch copied %llu bytes from %llu", (unsigned long long)s[1].len, (unsigned long long)s[1].pos);
    } else if (heavy == 3 || heavy == 7) {      /* a literal of more than 4 GB */
        u64 n = 0x100000000ull + rr(1, 1000000), mp = 0;
        u8 hdr[13] = { 0x72, 0x73, 0x02, 0x36, 0x44 };
        for (int i = 0; i < 8; i++) hdr[5 + i] = (u8)(n >> (56 - 8 * i));
        rs_job_t *j = rs_patch_begin(vbasis_cb, &mp);
        size_t cap = 1 << 20; u8 *ib = real_malloc(cap), *ob = real_malloc(cap); u64 pos = 0, got = 0, tot = 13 + n + 1; size_t have = 0; rs_result r;
        do {
            size_t add = cap - have; if (add > tot - pos) add = (size_t)(tot - pos);
            for (size_t i = 0; i < add;) {
                u64 q = pos + i;
                if (q < 13) ib[have + i++] = hdr[q];
                else if (q == 13 + n) ib[have + i++] = 0;
                else { size_t k = add - i; if (k > 13 + n - q) k = (size_t)(13 + n - q); vdata(ib + have + i, q - 13, k); i += k; }
            }
            pos += add;
            rs_buffers_t b = { (char *)ib, have + add, pos == tot, (char *)ob, cap };
            r = rs_job_iter(j, &b);
            size_t made = (size_t)((u8 *)b.next_out - ob);
            if (!vsame(ob, got, made)) viol("wrong-data", "literal output differs near %llu", (unsigned long long)got);
            got += made; memmove(ib, b.next_in, b.avail_in); have = b.avail_in;
        } while (r == RS_BLOCKED);
        if (r != RS_DONE || got != n) viol("large-literal", "patch returned %d after %llu of %llu literal bytes", r, (unsigned long long)got, (unsigned long long)n);
        if ((u64)rs_job_statistics(j)->lit_bytes != n) viol("statistics", "lit_bytes %jd", (intmax_t)rs_job_statistics(j)->lit_bytes);
        rs_job_free(j); real_free(ib); real_free(ob);
        ev("bytes_streamed", n); evmax("largest_literal_executed", n);
        sample("patch executed one literal of %llu bytes", (unsigned long long)n);
    } else if (heavy == 8 || heavy == 12 || heavy == 13 || heavy == 14) {    /* signatures of very many blocks, of more than 4 GB, of more than 2^30 blocks */
        u32 m = MAGICS[rn(4)], bl = (u32)rr(8, 3000), sl = (u32)rr(1, 4);
        u64 cnt = (tier ? 269000000 : 215000000) + rn(1000000);
        u64 ix[4] = { 0, 107374183 + rn(5), 214748365 + rn(100), cnt - 1 };
        if (heavy == 12 || heavy == 14) {
            m = MAGICS[0]; while (magic_max(m) < 32) m = MAGICS[rn(4)];
            sl = 32 - (u32)rn(4);
            cnt = (1ull << 32) / 36 + rr(1000, 100000);
            ix[1] = (1ull << 31) / 36 + 1 + rn(100); ix[2] = (1ull << 32) / 36 + 1 + rn(100); ix[3] = cnt - 1;
        }
        if (heavy == 13) { sl = 1; cnt = (1ull << 30) + rr(1, 1000); ix[3] = cnt - 1; }
        size_t es = 4 + sl;
        u8 *blk = xm(5 * (size_t)bl); rbytes(blk, 5 * (size_t)bl);
        u8 ent[5][36];
        for (int i = 0; i < 5; i++) { u32 wk = ref_weak(m, blk + i * (size_t)bl, bl); u8 st[32]; ref_strong(m, st, blk + i * (size_t)bl, bl); for (int k = 0; k < 4; k++) ent[i][k] = (u8)(wk >> (24 - 8 * k)); memcpy(ent[i] + 4, st, sl); }
        rs_signature_t *sig = NULL;
        if (heavy == 14) {      /* from a regular file, mostly holes, so that the number of blocks is known beforehand */
            int fd = memfd_create("sig", 0);
            FILE *f = fdopen(fd, "rb+");
            if (!f) harness_error("memfd_create");
            buf fh = { 0 }; bput_be(&fh, m, 4); bput_be(&fh, bl, 4); bput_be(&fh, sl, 4);
            int bad = pwrite(fileno(f), fh.p, 12, 0) != 12;
            for (int q = 0; q < 4; q++) bad |= pwrite(fileno(f), ent[q], es, (off_t)(12 + ix[q] * es)) != (ssize_t)es;
            if (bad) harness_error("pwrite");
            rs_stats_t st; rs_inbuflen = 1 << 20;
            rs_result fr = rs_loadsig_file(f, &sig, &st);
            rs_inbuflen = 0;
            if (fr != RS_DONE || (u64)st.sig_blocks != cnt) viol("large-signature", "loading a file of %llu block sums returned %d with %jd blocks counted", (unsigned long long)cnt, fr, (intmax_t)st.sig_blocks);
            fclose(f);
            ev("signature_files_beyond_4GB", 1);
        }
        rs_job_t *j = heavy == 14 ? NULL : rs_loadsig_begin(&sig);
        size_t per = 100000; u8 *ib = real_malloc(12 + per * es); rs_result r = RS_BLOCKED; u64 at = 0; size_t have = 0;
        buf h = { 0 }; bput_be(&h, m, 4); bput_be(&h, bl, 4); bput_be(&h, sl, 4);
        memcpy(ib, h.p, 12); have = 12;
        if (!j) r = RS_DONE;
        while (r == RS_BLOCKED) {
            size_t k = (size_t)(cnt - at < per ? cnt - at : per);
            for (size_t i = 0; i < k; i++) memcpy(ib + have + i * es, ent[4], es);
            for (int q = 0; q < 4; q++) if (ix[q] >= at && ix[q] < at + k) memcpy(ib + have + (size_t)(ix[q] - at) * es, ent[q], es);
            at += k; have += k * es;
            rs_buffers_t b = { (char *)ib, have, at == cnt, NULL, 0 };
            r = rs_job_iter(j, &b);
            if (b.avail_in) viol("stalled", "loading left %zu bytes of input, result %d", b.avail_in, r);
            have = 0;
            if (at == cnt && r == RS_BLOCKED) break;
        }
        real_free(ib);
        if (r != RS_DONE) viol("large-signature", "loading a signature of %llu blocks returned %d", (unsigned long long)cnt, r);
        if (j && (u64)rs_job_statistics(j)->sig_blocks != cnt) viol("statistics", "sig_blocks %jd of %llu", (intmax_t)rs_job_statistics(j)->sig_blocks, (unsigned long long)cnt);
        if (j) rs_job_free(j);
        if (heavy == 13) {      /* can be loaded, but the index has no room for so many */
            r = rs_build_hash_table(sig);
            if (r != RS_MEM_ERROR && r != RS_DONE) viol("large-signature", "indexing a signature of %llu blocks returned %d", (unsigned long long)cnt, r);
            if (r == RS_MEM_ERROR) {
                rs_free_sumset(sig);
                ev("signatures_beyond_2e30_blocks", 1); evmax("most_blocks_in_a_signature", cnt); nontrivial();
                sample("signature of %llu blocks loaded; too many for an index, which was reported", (unsigned long long)cnt);
                return;
            }
        } else
            r = rs_build_hash_table(sig);
        if (r != RS_DONE) viol("large-signature", "indexing a signature of %llu blocks returned %d", (unsigned long long)cnt, r);
        buf w = { 0 }; int ord[4] = { 3, 0, 2, 1 };
        for (int i = 0; i < 4; i++) bput(&w, blk + ord[i] * (size_t)bl, bl);
        sched big = sched_big(); runres rr_;
        buf d = do_delta(sig, w.p, w.n, &big, &rr_);
        expect_done("delta", &rr_);
        rs_free_sumset(sig);
        delta dd; ref_parse_delta(&dd, d.p, d.n);
        if (dd.err) viol("malformed-delta", "delta does not parse");
        for (int i = 0; i < 4; i++) if (dd.n != 4 || dd.c[i].kind != C_COPY || dd.c[i].pos != ix[ord[i]] * bl || dd.c[i].len != bl)
            viol("match-missed", "block %llu of %llu was not found (%zu commands, %llu literal bytes)", (unsigned long long)ix[ord[i]], (unsigned long long)cnt, dd.n, (unsigned long long)dd.lit_bytes);
        ev("very_long_signatures_searched", 1); evmax("most_blocks_in_a_signature", cnt);
        evmax("largest_signature_loaded", cnt * es);
        sample("signature of %llu blocks and %llu bytes: blocks at its start, middle, past 32-bit limits and end all found", (unsigned long long)cnt, (unsigned long long)(cnt * es));
    } else if (heavy == 9 || heavy == 10) c20_onecall(heavy == 10);
    else if (heavy == 11) {     /* blocks of 8 MB to 1 GB and more, found after a few bytes of scanning */
        for (int q = 46; q <= (tier ? 61 : 55); q++) {
            int k = q / 2;
            u32 bl = (1u << k) + (u32)rn(1u << k), m, sl = (u32)rr(8, 16);
            do m = MAGICS[rn(4)]; while (magic_is_rk(m) != q % 2);
            size_t p0 = (size_t)rr(1, 400), p1 = (size_t)rr(0, 30), n = p0 + bl + p1 + bl;
            u8 *a = real_malloc(n), *ob = real_malloc(1 << 20);
            if (!a || !ob) harness_error("memory");
            vdata(a, rn(1ull << 40), n);
            /* basis: the block at the end, then the one in front */
            rs_job_t *j = rs_sig_begin(bl, sl, (rs_magic_number)m);
            rs_buffers_t b = { (char *)a + p0 + bl + p1, bl, 0, (char *)ob, 1 << 20 };
            rs_result r = rs_job_iter(j, &b);
            if (r == RS_BLOCKED && !b.avail_in) { b.next_in = (char *)a + p0; b.avail_in = bl; b.eof_in = 1; r = rs_job_iter(j, &b); }
            if (r != RS_DONE || b.avail_in) viol("signature-failed", "signature with blocks of %u bytes returned %d", bl, r);
            rs_job_free(j);
            sched big = sched_big();
            buf g = bdup(ob, (1 << 20) - b.avail_out);
            if (g.n != 12 + 2 * (4 + (size_t)sl)) viol("signature-length", "signature of two blocks of %u bytes has %zu bytes", bl, g.n);
            rs_signature_t *sig = do_load(g.p, g.n, &big, NULL, 1);
            j = rs_delta_begin(sig);
            rs_buffers_t b2 = { (char *)a, n, 1, (char *)ob, 1 << 20 };
            r = rs_job_iter(j, &b2);
            if (r != RS_DONE || b2.avail_in) viol("delta-failed", "delta with blocks of %u bytes returned %d", bl, r);
            rs_job_free(j); rs_free_sumset(sig);
            buf d = bdup(ob, (1 << 20) - b2.avail_out);
            real_free(a); real_free(ob);
            delta dd; ref_parse_delta(&dd, d.p, d.n);
            u64 lit = 0, at[2] = { 0, 0 }, len[2] = { 0, 0 }; size_t nc = 0;
            for (size_t i = 0; !dd.err && i < dd.n; i++) { if (dd.c[i].kind == C_LIT) lit += dd.c[i].len; else { if (nc < 2) { at[nc] = dd.c[i].pos; len[nc] = dd.c[i].len; } nc++; } }
            if (dd.err || nc != 2 || lit != p0 + p1 || at[0] != bl || at[1] != 0 || len[0] != bl || len[1] != bl)
                viol("match-missed", "format %08x, blocks of %u bytes after %zu and %zu other bytes: %zu copies, %llu literal bytes", m, bl, p0, p1, nc, (unsigned long long)lit);
            ev("huge_blocks_found", 2); evmax("largest_block_found", bl); feat(bl);
        }
        sample("blocks of 8 MB and more found at odd positions");
    }
    else if (c % 4 == 0) {    /* copies at large positions, any width */
        size_t n = (size_t)rr(1, 12); seg *s = xm(n * sizeof *s); u64 t = 0;
        for (size_t i = 0; i < n; i++) { s[i] = (seg){ 1, chance(1, 6) ? rn(1000) : bigpos(), 1 + rsize(70000) }; t += s[i].len; feat(s[i].pos); }
        c20_patch(s, n, t);
        sample("%zu copies from positions such as %llu", n, (unsigned long long)s[0].pos);
    } else if (c % 4 == 1) {    /* delta with matches at large positions */
        static const u32 BL[] = { 65536, 1 << 20, 300000, 4096 * 5, 1 << 18 };
        u32 bl = BL[rn(5)], m = MAGICS[rn(4)], sl = (u32)rr(8, 16);
        int wrap = chance(1, 3);    /* a block exactly 4 GB beyond (or before) where the previous copy ended */
        if (wrap && 0x100000000ull % bl) bl = chance(1, 2) ? 65536 : 1 << (16 + rn(6));
        u64 cnt = 0x100000000ull / bl + rr(3, 200);
        buf sb = { 0 }; bput_be(&sb, m, 4); bput_be(&sb, bl, 4); bput_be(&sb, sl, 4);
        size_t body = cnt * (4 + sl); u8 *t = xm(body); rbytes(t, body);
        /* plant real blocks around the boundaries */
        u64 ix[6]; int ni = (int)rr(2, 5);
        for (int i = 0; i < ni; i++) {
            u64 b = chance(1, 2) ? 0x100000000ull / bl : 0x80000000ull / bl;
            ix[i] = b - 2 + rn(5); if (chance(1, 4)) ix[i] = rn(cnt); if (i && chance(1, 2)) ix[i] = ix[i - 1] + 1;
            if (ix[i] >= cnt) ix[i] = cnt - 1;
            if (wrap) {
                u64 turn = 0x100000000ull / bl;
                if (!i) ix[0] = chance(2, 3) ? rn(cnt - turn - 1) : turn + rn(cnt - turn);
                else if (ix[i - 1] + 1 + turn < cnt) ix[i] = ix[i - 1] + 1 + turn;
                else if (ix[i - 1] + 1 >= turn) ix[i] = ix[i - 1] + 1 - turn;
            }
        }
        buf w = { 0 };
        u8 *blk = xm(bl);
        for (int i = 0; i < ni; i++) {
            vdata(blk, ix[i] * bl, bl);
            u32 wk = ref_weak(m, blk, bl); u8 st[32]; ref_strong(m, st, blk, bl);
            u8 *q = t + ix[i] * (4 + sl);
            q[0] = (u8)(wk >> 24); q[1] = (u8)(wk >> 16); q[2] = (u8)(wk >> 8); q[3] = (u8)wk; memcpy(q + 4, st, sl);
            bput(&w, blk, bl); if (!wrap && chance(1, 3)) bputc(&w, (int)rn(256));
            if (wrap && i) ev("blocks_4GB_from_the_expected_place", 1);
        }
        bput(&sb, t, body);
        sched big = sched_big();
        rs_signature_t *sig = do_load(sb.p, sb.n, &big, NULL, 1);
        runres r;
        buf d = do_delta(sig, w.p, w.n, &big, &r);
        expect_done("delta", &r);
        rs_free_sumset(sig);
        delta dd; ref_parse_delta(&dd, d.p, d.n);
        if (dd.err) viol("malformed-delta", "delta does not parse");
        size_t k = 0; u64 off = 0;      /* expected copies, in order, merged when contiguous */
        for (int i = 0; i < ni;) {
            u64 pos = ix[i] * bl; 
            while (k < dd.n && dd.c[k].kind == C_LIT) k++;
            if (k >= dd.n) viol("match-missed", "block %llu at position %llu was not copied", (unsigned long long)ix[i], (unsigned long long)pos);
            if (dd.c[k].pos + off != pos) viol("large-copy", "block at position %llu copied from %llu", (unsigned long long)pos, (unsigned long long)(dd.c[k].pos + off));
            off += bl; i++;
            if (off > dd.c[k].len) viol("large-copy", "copy %llu+%llu", (unsigned long long)dd.c[k].pos, (unsigned long long)dd.c[k].len);
            if (off == dd.c[k].len) { off = 0; k++; }
        }
        if ((u64)r.stats.copy_bytes != (u64)ni * bl) viol("statistics", "copy_bytes %jd", (intmax_t)r.stats.copy_bytes);
        ev("deltas_with_large_positions", 1); evmax("largest_copy_position_emitted", dd.c[dd.n - 1].pos); feat(ix[0] * bl);
        /* and patch it back */
        seg *s = xm(dd.n * sizeof *s); size_t ns = 0; u64 tt = 0;
        for (size_t i = 0; i < dd.n; i++) if (dd.c[i].kind == C_COPY) { s[ns++] = (seg){ 1, dd.c[i].pos, dd.c[i].len }; tt += dd.c[i].len; }
        c20_patch(s, ns, tt);
        sample("signature of %llu blocks of %u: %d blocks near 2/4 GB found at their positions", (unsigned long long)cnt, bl, ni);
    } else if (c % 4 == 2) {    /* short last block far away */
        static const u32 BL[] = { 1u << 30, 0x7fffffff, 0x7ffffff8, 1u << 29, 1u << 31 >> 1, 0x60000000 };
        u32 bl = BL[rn(6)], m = MAGICS[rn(4)], sl = (u32)rr(8, 16), cnt = (u32)rr(3, 12);
        size_t tl = 1 + rsize(5000); u8 *tail = xm(tl); rbytes(tail, tl);
        buf sb = { 0 }; bput_be(&sb, m, 4); bput_be(&sb, bl, 4); bput_be(&sb, sl, 4);
        u8 st[32];
        for (u32 i = 0; i + 1 < cnt; i++) { rbytes(st, 32); bput_be(&sb, rnd() & 0xffffffff, 4); bput(&sb, st, sl); }
        ref_strong(m, st, tail, tl); bput_be(&sb, ref_weak(m, tail, tl), 4); bput(&sb, st, sl);
        sched big = sched_big(), s = chance(1, 2) ? big : rsched();
        rs_signature_t *sig = do_load(sb.p, sb.n, &big, NULL, 1);
        size_t pl = rsize(3000); buf w = { 0 }; u8 *t = xm(pl + 1); rbytes(t, pl); bput(&w, t, pl); bput(&w, tail, tl);
        runres r;
        buf d = do_delta(sig, w.p, w.n, &s, &r);
        expect_done("delta", &r);
        rs_free_sumset(sig);
        delta dd; ref_parse_delta(&dd, d.p, d.n);
        if (dd.err) viol("malformed-delta", "delta does not parse");
        cmd *x = dd.n ? &dd.c[dd.n - 1] : NULL;
        if (!x || x->kind != C_COPY || x->pos != (u64)(cnt - 1) * bl || x->len != tl || dd.lit_bytes != pl)
            viol("large-copy", "short last block at %llu+%zu not copied as such (last command %s %llu+%llu)", (unsigned long long)(cnt - 1) * bl, tl, x && x->kind == C_COPY ? "copy" : "literal", x ? (unsigned long long)x->pos : 0, x ? (unsigned long long)x->len : 0);
        ev("deltas_with_large_positions", 1); evmax("largest_copy_position_emitted", x->pos); feat(x->pos);
        sample("block length %u: short last block found at %llu", bl, (unsigned long long)x->pos);
    } else if (c / 4 % 3 == 0) {    /* a signature far inside a huge file: its size says nothing */
        static const u64 N[] = { 0x80000000ull, 0x80000001ull, 0xc0000000ull, 0xffffffffull, 0x100000000ull, 0x100000003ull, 0x180000000ull };
        buf o = { 0 }; size_t ol = 1 + rsize(20000); u8 *t = xm(ol); rbytes(t, ol); bput(&o, t, ol);
        u32 m = MAGICS[rn(4)], sl = (u32)rr(8, 16), bl = (u32)rr(16, 2000);
        buf sb = ref_signature(m, bl, sl, o.p, o.n);
        u64 size = 12 + (4 + (u64)sl) * N[rn(7)] + rn(50);
        int fd = memfd_create("big", 0);
        if (fd < 0) harness_error("memfd");
        if (ftruncate(fd, (off_t)size) || pwrite(fd, sb.p, sb.n, (off_t)(size - sb.n)) != (ssize_t)sb.n) harness_error("pwrite");
        FILE *f = fdopen(fd, "r");
        if (!f || fseeko(f, (off_t)(size - sb.n), SEEK_SET)) harness_error("fseeko");
        rs_signature_t *sig = NULL; rs_stats_t st;
        rs_result r = rs_loadsig_file(f, &sig, &st);
        fclose(f);
        if (r != RS_DONE) viol("intact-signature-rejected", "a signature at %llu in a file of %llu bytes: result %d", (unsigned long long)(size - sb.n), (unsigned long long)size, r);
        if ((u64)st.sig_blocks != (o.n + bl - 1) / bl) viol("statistics", "sig_blocks %jd", (intmax_t)st.sig_blocks);
        if ((r = rs_build_hash_table(sig)) != RS_DONE) viol("large-signature", "indexing returned %d", r);
        sched big = sched_big(); runres rr_;
        buf d = do_delta(sig, o.p, o.n, &big, &rr_);
        expect_done("delta", &rr_);
        rs_free_sumset(sig);
        delta dd; ref_parse_delta(&dd, d.p, d.n);
        if (dd.err || dd.lit_bytes || dd.copy_bytes != o.n) viol("match-missed", "the delta of unchanged data has %llu literal bytes", (unsigned long long)dd.lit_bytes);
        ev("signatures_far_inside_huge_files", 1); evmax("largest_file_holding_a_signature", size); feat(size);
        sample("signature of %zu bytes at the end of a file of %llu bytes loaded from there", sb.n, (unsigned long long)size);
    } else {                    /* stdio basis */
        int fd = memfd_create("big", 0);
        if (fd < 0) harness_error("memfd");
        u64 size = 0x100000000ull + rr(1, 0x180000000ull);
        if (ftruncate(fd, (off_t)size)) harness_error("ftruncate");
        size_t n = (size_t)rr(1, 6); seg *s = xm(n * sizeof *s); buf d = { 0 }; enc_magic(&d);
        u8 *t = xm(70000); buf want = { 0 };
        for (size_t i = 0; i < n; i++) {
            u64 pos; do pos = bigpos(); while (pos + 70000 > size);
            size_t l = 1 + rsize(chance(1, 3) ? 69000 : 500);
            if (chance(1, 5)) { pos = size - l; }
            vdata(t, pos, l);
            if (pwrite(fd, t, l, (off_t)pos) != (ssize_t)l) harness_error("pwrite");
            s[i] = (seg){ 1, pos, l };
            enc_copy(&d, pos, l, minimal_width(pos), minimal_width(l));
            bput(&want, t, l);
            feat(pos);
        }
        bputc(&d, 0);
        /* ranges may overlap: re-read what is there */
        want.n = 0;
        for (size_t i = 0; i < n; i++) { if (pread(fd, t, s[i].len, (off_t)s[i].pos) != (ssize_t)s[i].len) harness_error("pread"); bput(&want, t, s[i].len); }
        FILE *bf = fdopen(fd, "r");
        if ((u64)rs_file_size(bf) != size) viol("file-size", "rs_file_size gives %jd for %llu", (intmax_t)rs_file_size(bf), (unsigned long long)size);
        char *ob = NULL; size_t on = 0;
        FILE *df = fmemopen(d.p, d.n, "r"), *of = open_memstream(&ob, &on);
        rs_stats_t st;
        rs_result r = rs_patch_file(bf, df, of, &st);
        fclose(of); fclose(df);
        (void)file_at;
        if (r != RS_DONE) viol("valid-delta-rejected", "rs_patch_file returned %d with a basis of %llu bytes", r, (unsigned long long)size);
        int bad = on != want.n || memcmp(ob, want.p, on);
        free(ob);
        if (bad) viol("wrong-data", "rs_patch_file read other data from a basis of %llu bytes (first copy %llu+%llu)", (unsigned long long)size, (unsigned long long)s[0].pos, (unsigned long long)s[0].len);
        /* one byte past the end must fail */
        buf d2 = { 0 }; enc_magic(&d2); enc_copy(&d2, size - 10, 11 + rn(50), 8, 8); bputc(&d2, 0);
        df = fmemopen(d2.p, d2.n, "r"); of = open_memstream(&ob, &on);
        r = rs_patch_file(bf, df, of, &st);
        fclose(of); fclose(df); free(ob);
        if (r == RS_DONE) viol("beyond-end-accepted", "copy beyond the end of a basis of %llu bytes succeeded", (unsigned long long)size);
        fclose(bf);
        ev("large_basis_files_read", 1); evmax("largest_basis_file", size);
        sample("basis file of %llu bytes: %zu copies read at positions such as %llu", (unsigned long long)size, n, (unsigned long long)s[0].pos);
    }
    cur_log = NULL;
    feat(c < 12 ? c : c % 4); feat(rnd());
    nontrivial();
}

/* ---------- C22 ---------- */
typedef struct { volatile u64 crit, total, errs; volatile int stage; volatile u64 live; } shared;
static shared *shm;
static void oom_log(rs_loglevel l, char const *m) { (void)m; if (l <= RS_LOG_CRIT) shm->crit++; else if (l == RS_LOG_ERR) shm->errs++; }
/* runs the pipeline; returns exit code */
static int pipeline(pair *p, const sched *s, int whole, const buf *wsig, const buf *wdelta)
{
    runres r; rs_signature_t *sig = NULL; buf out = { 0 };
    int code = 0;
#define STAGE(k, res, okcond) do { shm->stage = k; if ((res) == RS_MEM_ERROR) { code = 11; goto end; } if ((res) != RS_DONE) { code = 12; goto end; } if (!(okcond)) { code = 10; goto end; } } while (0)
    if (!whole) {
        buf sb = do_sig(p->magic, p->bl, p->sl, p->o, p->on, s, &r);
        STAGE(1, r.r, beq(&sb, wsig));
        sig = do_load(wsig->p, wsig->n, s, &r, 0);
        STAGE(2, r.r, 1);
        rs_result br = rs_build_hash_table(sig);
        STAGE(3, br, 1);
        buf d = do_delta(sig, p->w, p->wn, s, &r);
        STAGE(4, r.r, !p->on || beq(&d, wdelta));
        out = do_patch(p->o, p->on, wdelta->p, wdelta->n, s, &r);
        STAGE(5, r.r, out.n == p->wn && (!out.n || !memcmp(out.p, p->w, out.n)));
    } else {
        am_end();
        char *ob = NULL; size_t on = 0;
        FILE *fi = fmemopen(p->on ? (void *)p->o : (void *)"", p->on ? p->on : 1, "r"), *fo = open_memstream(&ob, &on);
        if (!p->on) fgetc(fi);
        FILE *fs = fmemopen(wsig->p, wsig->n, "r"), *fn = fmemopen(p->wn ? (void *)p->w : (void *)"", p->wn ? p->wn : 1, "r");
        if (!p->wn) fgetc(fn);
        char *db = NULL; size_t dn = 0; FILE *fd = open_memstream(&db, &dn);
        FILE *fdi = fmemopen(wdelta->p, wdelta->n, "r"); char *pb = NULL; size_t pn = 0; FILE *fp = open_memstream(&pb, &pn);
        FILE *fb = fmemopen(p->on ? (void *)p->o : (void *)"", p->on ? p->on : 1, "r");
        rs_stats_t st;
        am_begin();
        rs_result x = rs_sig_file(fi, fo, p->bl, p->sl, (rs_magic_number)p->magic, &st);
        am_end(); fflush(fo); am_begin();
        STAGE(1, x, on == wsig->n && !memcmp(ob, wsig->p, on));
        x = rs_loadsig_file(fs, &sig, &st);
        STAGE(2, x, (u64)st.sig_blocks == (wsig->n - 12) / (4 + p->sl));
        x = rs_build_hash_table(sig);
        STAGE(3, x, 1);
        x = rs_delta_file(sig, fn, fd, &st);
        am_end(); fflush(fd); am_begin();
        STAGE(4, x, !p->on || (dn == wdelta->n && !memcmp(db, wdelta->p, dn)));
        x = rs_patch_file(fb, fdi, fp, &st);
        am_end(); fflush(fp); am_begin();
        STAGE(5, x, pn == p->wn && (!pn || !memcmp(pb, p->w, pn)));
    }
end:
    if (sig) rs_free_sumset(sig);
    am_end();
    shm->live = am.live;
    return code;
}
void case_C22(u64 c)
{
    if (!shm) { shm = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (shm == MAP_FAILED) harness_error("mmap"); }
    pair p;
    gen_params(&p, chance(1, 4) ? 20000 : 300, 8);
    gen_pair(&p, chance(1, 3) ? 100000 : 4000);
    sched big = sched_big(), s = chance(1, 2) ? big : rsched();
    int whole = (int)(c & 1);
    buf sb = ref_signature(p.magic, p.bl, p.sl, p.o, p.on);
    am_reset();
    rs_signature_t *sig = do_load(sb.p, sb.n, &big, NULL, 1);
    buf d = do_delta(sig, p.w, p.wn, &big, NULL);
    rs_free_sumset(sig);
    rs_trace_to(oom_log);
    u64 total = 0; u64 fired = 0, aborted = 0, memerr = 0, survived = 0;
    u64 cap = tier ? 300 : 40;
    for (i64 k = -1; k < (i64)total; k++) for (int forever = 0; forever < 2; forever++) {
        if (k < 0 && forever) continue;
        if (total > cap && k > 15 && k + 5 < (i64)total && !chance((int)cap, (int)total)) continue;
        memset((void *)shm, 0, sizeof *shm);
        pid_t pid = fork();
        if (pid < 0) harness_error("fork");
        if (!pid) {
            struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
            signal(SIGABRT, SIG_DFL);
            am_reset(); am.fail_at = k; am.fail_forever = forever;
            set_in_child();
            am_begin();
            int code = pipeline(&p, &s, whole, &sb, &d);
            shm->total = am.total + am.fails;
            if (am.fails) shm->errs += 1000000;
            _exit(code);
        }
        int st;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
        if (k < 0) {
            if (!WIFEXITED(st) || WEXITSTATUS(st)) viol("fault-free-failed", "without any failed allocation the operation ends with status %x at stage %d: %s", st, shm->stage, pair_str(&p));
            total = shm->total;
            if (!total) harness_error("no allocations seen");
            evmax("allocations_in_one_pipeline", total);
            continue;
        }
        fired++;
        if (WIFSIGNALED(st)) {
            if (WTERMSIG(st) != SIGABRT || !shm->crit) viol("crash-on-failed-allocation", "allocation %lld of %llu failing%s: killed by signal %d after %llu critical messages at stage %d: %s", (long long)k, (unsigned long long)total, forever ? " (and all later)" : "", WTERMSIG(st), (unsigned long long)shm->crit, shm->stage, pair_str(&p));
            aborted++;
        } else {
            int e = WEXITSTATUS(st);
            if (e == 10) viol("wrong-output-after-failed-allocation", "allocation %lld of %llu failing%s: success with wrong output at stage %d: %s", (long long)k, (unsigned long long)total, forever ? " (and all later)" : "", shm->stage, pair_str(&p));
            if (e == 12) viol("wrong-error-after-failed-allocation", "allocation %lld of %llu failing%s: an error other than out of memory at stage %d: %s", (long long)k, (unsigned long long)total, forever ? " (and all later)" : "", shm->stage, pair_str(&p));
            if (e != 0 && e != 11) viol("crash-on-failed-allocation", "allocation %lld of %llu failing%s: exit status %d at stage %d: %s", (long long)k, (unsigned long long)total, forever ? " (and all later)" : "", e, shm->stage, pair_str(&p));
            if (shm->live) viol("leak-after-failed-allocation", "allocation %lld of %llu failing: %llu blocks not released", (long long)k, (unsigned long long)total, (unsigned long long)shm->live);
            if (e == 11) memerr++; else survived++;
        }
    }
    ev("allocation_failures_injected", fired); ev("ended_by_deliberate_abort", aborted); ev("ended_by_out_of_memory_result", memerr); ev("survived_with_correct_output", survived);
    feat(total); feat((u64)whole);
    if (fired) nontrivial();
    sample("%s %s: %llu allocations, %llu failures injected: %llu aborted with a critical message, %llu returned out of memory, %llu completed correctly", whole ? "whole-file" : "streaming", pair_str(&p), (unsigned long long)total, (unsigned long long)fired, (unsigned long long)aborted, (unsigned long long)memerr, (unsigned long long)survived);
}

/* ---------- C23 ---------- */
static int cap_fd = -1, save1, save2;
static void cap_begin(void)
{
    fflush(stdout); fflush(stderr);
    cap_fd = memfd_create("cap", 0); if (cap_fd < 0) harness_error("memfd");
    save1 = dup(1); save2 = dup(2);
    dup2(cap_fd, 1); dup2(cap_fd, 2);
}
static buf cap_end(void)
{
    buf b = { 0 };
    if (cap_fd < 0) return b;
    fflush(stdout); fflush(stderr);
    dup2(save1, 1); dup2(save2, 2); close(save1); close(save2);
    char t[4096]; ssize_t k; off_t o = 0;
    while ((k = pread(cap_fd, t, sizeof t, o)) > 0) { bput(&b, t, (size_t)k); o += k; }
    close(cap_fd); cap_fd = -1;
    return b;
}
void cap_abort(void) { if (cap_fd >= 0) cap_end(); }
static __thread u64 other_calls;
static void other_cb(rs_loglevel l, char const *m) { (void)l; (void)m; other_calls++; }
typedef struct { buf sig, delta, out, bad; int rs, rl, rd, rp, rb, rx, rf[7]; } obs;
/* Each failing operation of its own: its result, and whether an error message came with it. */
static u64 errs_now(void) { return cur_log ? cur_log->n[0] + cur_log->n[1] + cur_log->n[2] + cur_log->n[3] : 0; }
static rs_result failing_cb(void *o, rs_long_t pos, size_t *len, void **b) { (void)pos; (void)len; (void)b; return *(rs_result *)o; }
static FILE *c23_file(const u8 *p, size_t n) { int fd = memfd_create("c23", 0); if (fd < 0) harness_error("memfd"); if (n && write(fd, p, n) != (ssize_t)n) harness_error("write"); lseek(fd, 0, SEEK_SET); FILE *f = fdopen(fd, "r+"); if (!f) harness_error("fdopen"); return f; }
static void c23_failures(pair *p, const buf *sb, int level, int mode, obs *o)
{
    sched s = rsched();
    runres r;
    for (int k = 0; k < 7; k++) {
        u64 before = errs_now();
        memset(&r, 0, sizeof r);
        switch (k) {
        case 0: { buf m = bdup(sb->p, sb->n); m.p[rn(3)] ^= 0x10; rs_free_sumset(do_load(m.p, m.n, &s, &r, 0)); break; }
        case 1: { size_t n = (size_t)rn(12); rs_free_sumset(do_load(sb->p, n, &s, &r, 0)); break; }
        case 2: { size_t bl = chance(1, 2) ? p->bl : (size_t)1 << 40; do_sig(chance(1, 2) ? 0x1234 : p->magic, bl, 33, p->o, p->on, &s, &r); break; }
        case 3: {
            static const int E[] = { RS_IO_ERROR, RS_MEM_ERROR, RS_CORRUPT, RS_INPUT_ENDED, RS_PARAM_ERROR };
            rs_result e = (rs_result)E[rn(5)];
            buf d = { 0 }; enc_magic(&d); enc_copy(&d, 3, 5, 1, 1); bputc(&d, 0);
            rs_job_t *j = rs_patch_begin(failing_cb, &e);
            run_job(j, d.p, d.n, &s, &r); rs_job_free(j); break; }
        case 4: { FILE *a = c23_file(sb->p, (size_t)rn(12)); rs_signature_t *g = NULL; r.r = rs_loadsig_file(a, &g, NULL); fclose(a); rs_free_sumset(g); break; }
        case 5: { buf d = { 0 }; enc_magic(&d); enc_copy(&d, p->on, 5, 8, 1); bputc(&d, 0);
            FILE *a = c23_file(p->o, p->on), *b = c23_file(d.p, d.n), *q = c23_file(NULL, 0); r.r = rs_patch_file(a, b, q, NULL); fclose(a); fclose(b); fclose(q); break; }
        default: { FILE *a = c23_file(p->o, p->on), *q = fopen("/dev/full", "w"); if (!q) harness_error("/dev/full"); setvbuf(q, NULL, _IONBF, 0);
            r.r = rs_sig_file(a, q, p->bl, p->sl, (rs_magic_number)p->magic, NULL); fclose(a); fclose(q); }
        }
        o->rf[k] = r.r;
        if (r.r == RS_DONE) viol("failure-accepted", "failing operation %d succeeded", k);
        if (!mode && level >= RS_LOG_ERR && errs_now() == before) viol("failure-without-message", "failing operation %d returned %d without any error message at level %d", k, r.r, level);
        ev("failing_operations_with_messages", 1);
    }
}
static int lvl_now, mode_now;
static obs c23_work(pair *p, const buf *sb, const buf *dd, u64 seed, const sched *s, int extra)
{
    void seed_rng(u64);
    seed_rng(seed);             /* same choices in every run */
    obs o; memset(&o, 0, sizeof o);
    runres r; u64 e0 = errs_now();
    o.sig = do_sig(p->magic, p->bl, p->sl, p->o, p->on, s, &r); o.rs = r.r;
    rs_signature_t *sig = do_load(sb->p, sb->n, s, &r, 1); o.rl = r.r;
    o.delta = do_delta(sig, p->w, p->wn, s, &r); o.rd = r.r;
    o.out = do_patch(p->o, p->on, o.delta.p, o.delta.n, s, &r); o.rp = r.r;
    if (o.rs == RS_DONE && o.rl == RS_DONE && o.rd == RS_DONE && o.rp == RS_DONE) {
        if (errs_now() != e0) viol("error-without-failure", "jobs that all succeeded reported %llu errors: %.200s", (unsigned long long)(errs_now() - e0), cur_log->last);
        ev("successful_jobs_without_error_messages", 4);
    }
    o.bad = do_patch(p->o, p->on, dd->p, dd->n, s, &r); o.rb = r.r;
    if (extra) {
        rs_signature_log_stats(sig); rs_sumset_dump(sig); rs_log_stats(&r.stats);
        rs_stats_t st; memset(&st, 0, sizeof st);
        char *op = xm(3000); memset(op, 'x', 2999); op[2999] = 0;
        st.op = op; rs_log_stats(&st);
        st.op = "%s%n%d"; st.lit_cmds = -1; st.lit_bytes = INTMAX_MIN; st.lit_cmdbytes = INTMAX_MIN; st.copy_cmds = INTMAX_MIN; st.copy_bytes = INTMAX_MIN; st.copy_cmdbytes = INTMAX_MAX; st.sig_blocks = 3; st.sig_cmds = INTMAX_MIN; rs_log_stats(&st);
        rs_magic_number m = (rs_magic_number)p->magic; size_t bl = 100, sl = 1; o.rx = rs_sig_args(100000, &m, &bl, &sl);
        m = (rs_magic_number)77; o.rx = o.rx * 100 + rs_sig_args(1, &m, &bl, &sl);
        c23_failures(p, sb, lvl_now, mode_now, &o);
    }
    rs_free_sumset(sig);
    return o;
}
void case_C23(u64 c)
{
    pair p;
    gen_params(&p, 300, 8);
    if (!gen_longblocks(&p, 80)) gen_pair(&p, chance(1, 4) ? 30000 : 1500);
    if (p.on / p.bl > 300) p.on = (size_t)300 * p.bl;
    sched s = rsched();
    buf sb = ref_signature(p.magic, p.bl, p.sl, p.o, p.on);
    buf dd = { 0 };
    gen_valid_delta(&dd, p.on, 900, NULL);
    switch (rn(4)) { case 0: dd.n--; break; case 1: dd.p[dd.n - 1] = (u8)rr(0x55, 255); break; case 2: dd.p[rn(4)] ^= 1; break; default: dd.n = (size_t)rn(dd.n); }
    u64 seed = rnd();
    int lvl[4] = { RS_LOG_EMERG, RS_LOG_DEBUG, (int)rn(8), (int)rn(8) };
    obs base = { 0 };
    for (int i = 0; i < 5; i++) {
        logmon lm; memset(&lm, 0, sizeof lm);
        int mode = i == 4 ? 1 : 0;      /* 1: no callback at all */
        int level = i == 4 ? (int)rn(8) : lvl[i];
        rs_trace_to(other_cb); other_calls = 0;
        rs_trace_set_level((rs_loglevel)level);
        rs_trace_to(mode ? NULL : log_cb);
        cur_log = &lm;
        lvl_now = level; mode_now = mode;
        cap_begin();
        obs o = c23_work(&p, &sb, &dd, seed, &s, 1);
        buf cap = cap_end();
        cur_log = NULL;
        rs_trace_to(log_cb);
        if (cap.n) viol("output-not-through-callback", "%zu bytes written to standard output or error: %.60s", cap.n, (char *)cap.p);
        if (other_calls) viol("wrong-callback", "%llu messages went to a callback that had been replaced", (unsigned long long)other_calls);
        if (mode && lm.total) viol("wrong-callback", "messages delivered though there is no callback");
        for (int l = 0; l < 8; l++) if (l > level && lm.n[l]) viol("level-filter", "%llu messages of level %d delivered at level %d: %.200s", (unsigned long long)lm.n[l], l, level, lm.last);
        if (lm.badline) viol("message-format", "a message was not one complete line: %.200s", lm.last);
        if (!mode && level >= RS_LOG_ERR && o.rb != RS_DONE && !(lm.n[0] + lm.n[1] + lm.n[2] + lm.n[3])) viol("failure-without-message", "a failed job (%d) produced no error message at level %d", o.rb, level);
        if (o.rb == RS_DONE) viol("damaged-accepted", "damaged delta accepted");
        if (!mode && level == RS_LOG_DEBUG && flavor_trace && !lm.n[RS_LOG_DEBUG]) viol("trace-missing", "no trace message though tracing is compiled in");
        if (!mode && level >= RS_LOG_INFO && !lm.n[RS_LOG_INFO]) viol("info-missing", "statistics were not logged");
        if (!mode && level >= RS_LOG_WARNING && !lm.n[RS_LOG_WARNING]) viol("warning-missing", "no warning about a strong sum below the recommended minimum");
        if (!i) base = o;
        else {
            if (!beq(&o.sig, &base.sig) || !beq(&o.delta, &base.delta) || !beq(&o.out, &base.out) || !beq(&o.bad, &base.bad)) viol("logging-changes-output", "outputs differ between level %d and level %d", lvl[0], level);
            if (o.rs != base.rs || o.rl != base.rl || o.rd != base.rd || o.rp != base.rp || o.rb != base.rb || o.rx != base.rx || memcmp(o.rf, base.rf, sizeof o.rf)) viol("logging-changes-result", "results differ between level %d and level %d", lvl[0], level);
        }
        ev("messages_seen", lm.total); for (int l = 0; l < 8; l++) if (lm.n[l]) { char k[40]; snprintf(k, sizeof k, "messages_level_%d", l); ev(k, lm.n[l]); }
        evset("levels_set", (u64)level + (mode ? 100 : 0));
        ev("runs_compared", 1);
    }
    /* against the independent reference, so that a build with and one without tracing must agree */
    if (!beq(&base.sig, &sb)) viol("logging-changes-output", "signature differs from the reference");
    buf o2 = { 0 }; if (ref_apply(base.delta.p, base.delta.n, p.o, p.on, &o2, NULL) || o2.n != p.wn || (o2.n && memcmp(o2.p, p.w, o2.n))) viol("logging-changes-output", "delta describes other data");
    /* the default callback writes exactly the message to standard error */
    cap_begin(); rs_trace_stderr(RS_LOG_ERR, "hello %s %n\n"); buf cap = cap_end();
    if (cap.n != 12 || memcmp(cap.p, "hello %s %n\n", 12)) viol("stderr-callback", "rs_trace_stderr wrote %zu bytes", cap.n);
    feat((u64)lvl[2]); feat((u64)lvl[3]); feat(c % 5); nontrivial();
    sample("%s at levels 0, 7, %d, %d and without callback: filtered, one line each, same results", pair_str(&p), lvl[2], lvl[3]);
}

/* ---------- C24 ---------- */
void case_C24(u64 c)
{
    /* MD4 */
    {
        size_t n = rsize(chance(1, 6) ? 300000 : 700);
        u8 *d = xm(n + 1); rbytes(d, n);
        u8 want[16], got[17]; got[16] = 0x5a;
        ref_md4(want, d, n);
        size_t mis = (size_t)rn(9);      /* at any alignment */
        u8 *exact = real_malloc(n + mis); if (n) memcpy(exact + mis, d, n);
        rs_mdfour(got, exact + mis, n);
        real_free(exact);
        if (memcmp(want, got, 16) || got[16] != 0x5a) viol("md4", "rs_mdfour of %zu bytes is wrong", n);
        for (int k = 0; k < 3; k++) {
            rs_mdfour_t *md = xm(4096);
            rs_mdfour_begin(md);
            size_t o = 0; int parts = 0;
            size_t mx = k == 0 ? 3 : k == 1 ? 130 : n + 1;
            if (n / mx > 20000) mx = n / 20000 + 1;
            while (o < n || chance(1, 3)) {
                size_t l = (size_t)rn(mx + 1); if (l > n - o) l = n - o;
                size_t ms = (size_t)rn(9);
                u8 *e = real_malloc(l + ms); if (l) memcpy(e + ms, d + o, l);
                rs_mdfour_update(md, e + ms, l);
                real_free(e);
                o += l; parts++;
            }
            rs_mdfour_result(md, got);
            if (memcmp(want, got, 16)) viol("md4-incremental", "MD4 of %zu bytes in %d parts is wrong", n, parts);
            evset("md4_lengths_mod_64", n % 64);
            ev("md4_digests", 1);
        }
        feat(n);
    }
    if (c == 0 || (tier && c == 1)) {   /* bit counts beyond 32 bits */
#if !defined(__SANITIZE_ADDRESS__) && !defined(MSAN) && !defined(LIBFUZZER)
        if (!strcmp(prop_id, "C24")) {
            size_t n = (c ? ((size_t)1 << 32) + 77 : ((size_t)1 << 29) + 77);
            u8 *big = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (big == MAP_FAILED) harness_error("mmap");
            big[0] = 1; big[n - 1] = 2; big[n / 2] = 3;
            u8 want[16], got[16]; ref_md4(want, big, n); rs_mdfour(got, big, n);
            if (memcmp(want, got, 16)) viol("md4-long", "rs_mdfour of %zu bytes is wrong", n);
            rs_mdfour_t *md = xm(4096); rs_mdfour_begin(md);
            for (size_t o = 0; o < n;) { size_t l = n - o < 99999999 ? n - o : 99999999; rs_mdfour_update(md, big + o, l); o += l; }
            rs_mdfour_result(md, got);
            if (memcmp(want, got, 16)) viol("md4-long", "MD4 of %zu bytes in parts is wrong", n);
            munmap(big, n);
            ev("md4_digests_beyond_512MB", 2);
        }
        if (!strcmp(prop_id, "C24")) {      /* as long as an int allows; lengths in bits do not fit into one */
            int n = c ? 0x7ffffffe : (1 << 28) + 5;
            size_t m = ((size_t)n * 8 + 5) / 6;
            u8 *big = mmap(NULL, (size_t)n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            char *t = mmap(NULL, m + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (big == MAP_FAILED || (void *)t == MAP_FAILED) harness_error("mmap");
            for (size_t i = 0; i < (size_t)n; i += 1 + (size_t)rn(99)) big[i] = (u8)rnd();
            static const char B[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
            rs_base64(big, n, t);
            for (size_t i = 0, by = 0, ph = 0; i < m; i++) {
                u32 v = (u32)big[by] << 8 | (by + 1 < (size_t)n ? big[by + 1] : 0u);
                if (t[i] != B[v >> (10 - ph) & 63]) viol("base64-long", "encoding %d bytes: character %zu is wrong", n, i);
                ph += 6; if (ph >= 8) { ph -= 8; by++; }
            }
            if (t[m]) viol("base64-long", "encoding %d bytes: not terminated after %zu characters", n, m);
            size_t g = rs_unbase64(t);
            if (g != (size_t)n || memcmp(t, big, (size_t)n)) viol("unbase64-long", "decoding %zu characters gives %zu bytes, expected %d", m, g, n);
            munmap(t, m + 4096);
            ev("encodings_beyond_256MB", 1);
            munmap(big, (size_t)n);
        }
#endif
    }
    /* hex, base64 */
    for (int k = 0; k < 6; k++) {
        size_t n = k < 3 ? (size_t)rn(20) : rsize(k == 5 && chance(1, 8) ? 300000 : 3000);
        u8 *d = real_malloc(n); rbytes(d, n);
        if (chance(1, 5)) memset(d, chance(1, 2) ? 0xff : 0, n);
        char *h = real_malloc(2 * n + 1);
        rs_hexify(h, d, (int)n);
        static const char X[] = "0123456789abcdef";
        for (size_t i = 0; i < n; i++) if (h[2 * i] != X[d[i] >> 4] || h[2 * i + 1] != X[d[i] & 15]) viol("hexify", "byte %02x became %c%c", d[i], h[2 * i], h[2 * i + 1]);
        if (h[2 * n]) viol("hexify", "not terminated");
        real_free(h);
        static const char B[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        size_t m = (n * 8 + 5) / 6;
        char *b = real_malloc(m + 1);
        rs_base64(d, (int)n, b);
        for (size_t i = 0; i < m; i++) {
            size_t bit = i * 6, by = bit / 8; u32 v = (u32)d[by] << 8 | (by + 1 < n ? d[by + 1] : 0u);
            char e = B[v >> (10 - bit % 8) & 63];
            if (b[i] != e) viol("base64", "encoding %zu bytes: character %zu is %c, expected %c", n, i, b[i], e);
        }
        if (b[m]) viol("base64", "not terminated after %zu characters for %zu bytes", m, n);
        /* decode, with any non-alphabet terminator */
        char *q = real_malloc(m + 4); memcpy(q, b, m); memcpy(q + m, chance(1, 2) ? "==\n" : "\0\0\0", 4); if (chance(1, 4)) q[m] = (char)(chance(1, 2) ? '-' : 0x80 + rn(128));
        q[m + 3] = 0;
        size_t g = rs_unbase64(q);
        if (g != n) viol("unbase64-length", "decoding %zu characters gives %zu bytes, expected %zu", m, g, n);
        if (n && memcmp(q, d, n)) viol("unbase64", "decoding does not invert encoding of %zu bytes", n);
        size_t g2 = rs_unbase64(b);
        if (g2 != n || (n && memcmp(b, d, n))) viol("unbase64", "decoding in place does not invert encoding of %zu bytes", n);
        real_free(b); real_free(q); real_free(d);
        ev("encodings_checked", 3);
        feat(n);
    }
    /* statistics text */
    {
        rs_stats_t st; memset(&st, 0, sizeof st);
        u8 z[16]; rbytes(z, 16);
        char *op = NULL;
        if (chance(3, 4)) { size_t l = rsize(60); op = xm(l + 1); memset(op, 'o', l); op[l] = 0; }
        st.op = op;
#define RV() (chance(1, 4) ? 0 : chance(1, 4) ? INTMAX_MIN : chance(1, 4) ? INTMAX_MAX : (rs_long_t)rn(1000000))
        st.lit_cmds = (int)RV(); st.lit_bytes = RV(); st.lit_cmdbytes = RV(); st.copy_cmds = RV(); st.copy_bytes = RV(); st.copy_cmdbytes = RV(); st.sig_cmds = RV(); st.sig_bytes = RV();
        st.false_matches = (int)RV(); st.sig_blocks = RV(); st.block_len = (size_t)RV(); st.in_bytes = RV(); st.out_bytes = RV(); st.start = (time_t)rn(100); st.end = st.start + (time_t)rn(5);
        char full[2000]; memset(full, 'Z', sizeof full);
        rs_format_stats(&st, full, sizeof full);
        size_t fl = strnlen(full, sizeof full);
        if (fl >= 1999) viol("stats-text", "statistics text of %zu characters", fl);
        char e[300]; snprintf(e, sizeof e, "%s statistics: ", op ? op : "noop");
        if (strncmp(full, e, strlen(e))) viol("stats-text", "statistics text starts '%.40s'", full);
        char num[60]; snprintf(num, sizeof num, "literal[%d cmds, %jd bytes, %jd cmdbytes]", st.lit_cmds, (intmax_t)st.lit_bytes, (intmax_t)st.lit_cmdbytes);
        char cp[120]; snprintf(cp, sizeof cp, "copy[%jd cmds, %jd bytes, %jd cmdbytes", (intmax_t)st.copy_cmds, (intmax_t)st.copy_bytes, (intmax_t)st.copy_cmdbytes);
        if (st.copy_cmds && !strstr(full, cp)) viol("stats-text", "statistics text lacks '%s': %s", cp, full);
        snprintf(cp, sizeof cp, "signature[%jd blocks, %zu bytes per block", (intmax_t)st.sig_blocks, st.block_len);
        if (st.sig_blocks && !strstr(full, cp)) viol("stats-text", "statistics text lacks '%s': %s", cp, full);
        if (st.lit_cmds && strlen(num) < 59 && !strstr(full, num)) viol("stats-text", "statistics text lacks '%s': %s", num, full);
        snprintf(cp, sizeof cp, "[%jd cmds, %jd bytes]", (intmax_t)st.sig_cmds, (intmax_t)st.sig_bytes);
        if (st.sig_cmds && !strstr(full, cp)) viol("stats-text", "statistics text lacks '%s': %s", cp, full);
        snprintf(cp, sizeof cp, "%d false", st.false_matches);
        if (st.false_matches && !strstr(full, cp)) viol("stats-text", "statistics text lacks '%s': %s", cp, full);
        const char *sp = strstr(full, "speed["); double mi, ri, mo, ro; int sc, ws = (int)(st.end - st.start) ? (int)(st.end - st.start) : 1;
        if (!sp || sscanf(sp, "speed[%lf MB (%lf MB/s) in, %lf MB (%lf MB/s) out, %d sec", &mi, &ri, &mo, &ro, &sc) != 5) viol("stats-text", "statistics text without rates: %s", full);
        double wi = (double)st.in_bytes / 1e6, wo = (double)st.out_bytes / 1e6, tol = 0.06;
#define FAR(x, y) ((x) - (y) > tol + 1e-9 * ((y) < 0 ? -(y) : (y)) || (y) - (x) > tol + 1e-9 * ((y) < 0 ? -(y) : (y)))
        if (FAR(mi, wi) || FAR(mo, wo) || FAR(ri, wi / ws) || FAR(ro, wo / ws) || sc != ws) viol("stats-text", "rates of %jd bytes in, %jd out, %d seconds shown as: %s", (intmax_t)st.in_bytes, (intmax_t)st.out_bytes, (int)(st.end - st.start), sp);
        for (int k = 0; k < 12; k++) {
            size_t sz = k < 2 ? (size_t)rn(4) : (size_t)rn(fl + 3);
            char *b = real_malloc(sz + 8); memset(b, 0x77, sz + 8);
            char *ex = real_malloc(sz ? sz : 1);        /* exact, for the sanitizer */
            if (sz || chance(1, 2)) rs_format_stats(&st, sz ? ex : b, sz);
            real_free(ex);
            char *ret = rs_format_stats(&st, b, sz);
            if (ret != b) viol("stats-return", "rs_format_stats did not return its buffer");
            for (int i = 0; i < 8; i++) if (b[sz + (size_t)i] != 0x77) viol("stats-overflow", "rs_format_stats wrote past a buffer of %zu bytes", sz);
            if (sz && strnlen(b, sz) >= sz) viol("stats-termination", "text in a buffer of %zu bytes is not terminated", sz);
            if (sz && strncmp(b, full, strlen(b))) viol("stats-text", "truncated text differs");
            if (sz && strlen(b) != (fl < sz ? fl : sz - 1)) viol("stats-text", "text cut to %zu in a buffer of %zu though it has %zu characters", strlen(b), sz, fl);
            real_free(b);
            ev("stats_buffers", 1);
        }
        feat(fl);
    }
    /* results */
    static const int R[] = { RS_DONE, RS_BLOCKED, RS_RUNNING, RS_TEST_SKIPPED, RS_IO_ERROR, RS_SYNTAX_ERROR, RS_MEM_ERROR, RS_INPUT_ENDED, RS_BAD_MAGIC, RS_UNIMPLEMENTED, RS_CORRUPT, RS_INTERNAL_ERROR, RS_PARAM_ERROR };
    for (size_t i = 0; i < sizeof R / sizeof *R; i++) {
        const char *a = rs_strerror((rs_result)R[i]);
        if (!a || !*a) viol("strerror", "no description for result %d", R[i]);
        for (size_t j = 0; j < i; j++) if (R[i] != RS_TEST_SKIPPED && R[j] != RS_TEST_SKIPPED && !strcmp(a, rs_strerror((rs_result)R[j]))) viol("strerror", "results %d and %d have the same description '%s'", R[i], R[j], a);
    }
    {   /* documented values, descriptions that fit them, and constants */
        static const struct { int v, doc; const char *w1, *w2; } W[] = {
            { RS_DONE, 0, "ok", "" }, { RS_BLOCKED, 1, "block", "wait" }, { RS_RUNNING, 2, "running", "running" }, { RS_TEST_SKIPPED, 77, NULL, NULL },
            { RS_IO_ERROR, 100, "io ", "i/o" }, { RS_SYNTAX_ERROR, 101, "syntax", "command" }, { RS_MEM_ERROR, 102, "memory", "memory" },
            { RS_INPUT_ENDED, 103, "end", "trunc" }, { RS_BAD_MAGIC, 104, "magic", "magic" }, { RS_UNIMPLEMENTED, 105, "implement", "support" },
            { RS_CORRUPT, 106, "corrupt", "damage" }, { RS_INTERNAL_ERROR, 107, "internal", "bug" }, { RS_PARAM_ERROR, 108, "param", "value" } };
        for (size_t i = 0; i < sizeof W / sizeof *W; i++) {
            if (W[i].v != W[i].doc) viol("result-value", "the result documented as %d is %d", W[i].doc, W[i].v);
            char lo[300]; size_t n = 0;
            for (const char *q = rs_strerror((rs_result)W[i].doc); *q && n < sizeof lo - 1; q++) lo[n++] = (char)tolower((unsigned char)*q);
            lo[n] = 0;
            if (W[i].w1 && !strstr(lo, W[i].w1) && !strstr(lo, W[i].w2)) viol("strerror", "result %d is described as '%s'", W[i].doc, lo);
        }
        ev("descriptions_checked", sizeof W / sizeof *W);
        if (RS_MD4_SUM_LENGTH != 16 || RS_BLAKE2_SUM_LENGTH != 32) viol("constants", "strong sums are said to have %d and %d bytes", (int)RS_MD4_SUM_LENGTH, (int)RS_BLAKE2_SUM_LENGTH);
        if (RS_DELTA_MAGIC != 0x72730236 || RS_MD4_SIG_MAGIC != 0x72730136 || RS_BLAKE2_SIG_MAGIC != 0x72730137 || RS_RK_MD4_SIG_MAGIC != 0x72730146 || RS_RK_BLAKE2_SIG_MAGIC != 0x72730147)
            viol("constants", "a format's magic number has changed");
        if (strncmp(rs_librsync_version, "librsync ", 9) || !isdigit((unsigned char)rs_librsync_version[9])) viol("version", "the version is '%.60s'", rs_librsync_version);
    }
    /* what is logged is that text */
    {
        logmon lm; memset(&lm, 0, sizeof lm); cur_log = &lm;
        rs_stats_t st; memset(&st, 0, sizeof st); st.op = "op"; st.lit_cmds = (int)rn(1000); st.copy_cmds = (rs_long_t)rn(1000); st.copy_bytes = (rs_long_t)rnd() >> 1; st.end = 3;
        char longname[501];
        if (chance(1, 2)) {     /* long, but within the kilobyte that messages have */
            size_t l = (size_t)rr(1, 500); memset(longname, 'o', l); longname[l] = 0; st.op = longname;
            st.lit_cmds = 0x7fffffff; st.lit_bytes = st.lit_cmdbytes = st.copy_cmdbytes = st.copy_cmds = st.sig_blocks = (rs_long_t)rnd() >> 1;
        }
        rs_trace_set_level(RS_LOG_DEBUG);
        rs_log_stats(&st);
        rs_trace_set_level(RS_LOG_ERR);
        cur_log = NULL;
        char t[1200]; rs_format_stats(&st, t, sizeof t);
        if (lm.total != 1 || lm.n[RS_LOG_INFO] != 1 || !strstr(lm.last, t)) viol("stats-log", "rs_log_stats logged %llu messages, the last '%.200s'", (unsigned long long)lm.total, lm.last);
    }
    const char *u = rs_strerror((rs_result)(1000 + rn(100)));
    if (!u || !*u) viol("strerror", "no description for an unknown result");
    ev("helper_cases", 1);
    nontrivial();
    sample("MD4 in several splits, hex, base64 both ways, statistics text at all buffer sizes, result descriptions");
}

/* ---------- C25 ---------- */
typedef struct { const u8 *p; size_t n, pos; u8 *b; size_t cap; int eof_said; u64 calls, fail_at; int code; int failed; int eofpol, lock, refused, idle; u64 outseen; u64 *clock; u64 last; struct ocb *peer; size_t maxin; int failhow; } icb;
typedef struct ocb { buf out; u8 *b; size_t cap; int armed; u64 calls, fail_at; int code, failed; u64 *clock; u64 last; icb *peer; int lazy; size_t undrained; u64 spaces; int failhow; } ocb;
static rs_result in_cb(rs_job_t *j, rs_buffers_t *b, void *op)
{
    icb *s = op;
    (void)j;
    s->calls++; s->last = ++*s->clock;
    if (s->failed || (s->peer && s->peer->failed)) viol("callback-after-error", "input callback called after a callback failed");
    if (s->eof_said) viol("input-after-eof", "input requested after its end was announced");
    if (s->fail_at == s->calls) {       /* whatever else it sets besides */
        s->failed = 1;
        if (s->failhow & 1) b->eof_in = 1;
        if (s->failhow & 2) { size_t k = s->n - s->pos; if (k > s->cap) k = s->cap; memcpy(s->b, s->p + s->pos, k); b->next_in = (char *)s->b; b->avail_in = k; }
        return (rs_result)s->code;
    }
    size_t left = b->avail_in;
    if (left > s->cap) viol("accounting", "avail_in %zu larger than given", left);
    if (left && memcmp(b->next_in, s->p + s->pos - left, left)) viol("input-lost", "unconsumed input is not what was supplied last");
    if (left) memmove(s->b, b->next_in, left);
    size_t k = (size_t)rn(s->maxin + 1);
    if (left + k == 0) k = 1;
    if (s->lock == 1 && s->pos && s->pos < s->n && s->peer->calls < s->outseen + 2) {   /* more only when the other side was served */
        if (++s->refused > 1000) viol("one-side-starved", "input is requested again and again without a turn for the output callback");
        k = 0; ev("inputs_withheld", 1);
    } else if (s->lock == 2 && ++s->idle % 3) k = 0;                    /* nothing to offer at the moment */
    else { s->refused = 0; if (s->peer) s->outseen = s->peer->calls; }
    if (k > s->cap - left) k = s->cap - left;
    if (k > s->n - s->pos) k = s->n - s->pos;
    if (k) memcpy(s->b + left, s->p + s->pos, k);
    s->pos += k;
    b->next_in = (char *)s->b; b->avail_in = left + k;
    if (s->pos == s->n && (s->eofpol || (!k && s->lock != 2) || !(s->idle % 3))) { b->eof_in = 1; s->eof_said = 1; }
    if (!b->avail_in && !b->eof_in) ev("empty_inputs", 1);
    return RS_DONE;
}
static rs_result out_cb(rs_job_t *j, rs_buffers_t *b, void *op)
{
    ocb *s = op;
    (void)j;
    s->calls++; s->last = ++*s->clock;
    if (s->failed || (s->peer && s->peer->failed)) viol("callback-after-error", "output callback called after a callback failed");
    if (s->fail_at == s->calls) {
        s->failed = 1;
        if (s->failhow & 1) { b->next_out = (char *)s->b; b->avail_out = s->spaces; }
        if (s->failhow & 2) b->eof_in = 1;
        return (rs_result)s->code;
    }
    if (s->armed) {
        size_t made = (size_t)((u8 *)b->next_out - s->b);
        if (made > s->cap) viol("accounting", "%zu output bytes in %zu of space", made, s->cap);
        if (s->lazy && made < s->cap / 2 && chance(1, 3) && b->avail_out) { s->undrained = made; return RS_DONE; }     /* leave it for later */
        if (made) bput(&s->out, s->b, made);
    }
    s->undrained = 0;
    s->armed = 1;
    size_t sp = 1 + (size_t)rn(s->spaces);
    s->cap = sp;
    b->next_out = (char *)s->b; b->avail_out = sp;
    return RS_DONE;
}
void case_C25(u64 c)
{
    pair p;
    gen_params(&p, 300, 8);
    if (!gen_longblocks(&p, 80)) gen_pair(&p, chance(1, 4) ? 60000 : 2500);
    sched big = sched_big();
    buf sb = ref_signature(p.magic, p.bl, p.sl, p.o, p.on);
    rs_signature_t *sig = do_load(sb.p, sb.n, &big, NULL, 1), *ls = NULL;
    buf d = do_delta(sig, p.w, p.wn, &big, NULL);
    int op = (int)(c % 4);
    basis bs = { .p = p.o, .n = p.on, .mode = (int)rn(4) };
    const u8 *in; size_t n; buf want = { 0 }; rs_job_t *j; rs_result exp = RS_DONE;
    switch (op) {
    case 0: j = rs_sig_begin(p.bl, p.sl, (rs_magic_number)p.magic); in = p.o; n = p.on; want = sb; break;
    case 1: j = rs_loadsig_begin(&ls); in = sb.p; n = sb.n; break;
    case 2: j = rs_delta_begin(sig); in = p.w; n = p.wn; want = d; break;
    default: j = rs_patch_begin(basis_cb, &bs); in = d.p; n = d.n; bput(&want, p.w, p.wn); break;
    }
    int damaged = (op == 1 || op == 3) && chance(1, 5);
    if (damaged) { n = n - 1; exp = RS_INPUT_ENDED; if (op == 1 && (n < 12 || (n - 12) % (4 + p.sl) == 0)) exp = n < 12 ? RS_INPUT_ENDED : RS_DONE; }
    static const int codes[] = { RS_IO_ERROR, RS_MEM_ERROR, RS_CORRUPT, RS_PARAM_ERROR, RS_INPUT_ENDED, RS_SYNTAX_ERROR, RS_UNIMPLEMENTED, RS_BLOCKED };
    u64 clock = 0;
    size_t icap = 1 + rsize(chance(1, 3) ? 70000 : 500), ospace = 1 + rsize(chance(1, 3) ? 70000 : 500);
    if (n > 5000) { if (icap < 50) icap = 50; if (ospace < 50) ospace = 50; }
    icb ic = { .p = in, .n = n, .cap = icap, .b = real_malloc(icap), .eofpol = (int)rn(2), .clock = &clock, .maxin = icap };
    ocb oc = { .b = real_malloc(ospace), .clock = &clock, .spaces = ospace, .lazy = (int)rn(2) };
    ic.peer = &oc; oc.peer = &ic;
    ic.lock = (int)rn(4);
    if (op == 1 && ic.lock == 1) ic.lock = 2;    /* no output callback */
    int inj = (int)rn(4);
    ic.failhow = (int)rn(4); oc.failhow = (int)rn(4);
    if (inj == 1) { ic.fail_at = rr(1, 1 + rn(12)); ic.code = chance(1, 6) ? (int)rr(109, 2000) : codes[rn(8)]; }
    if (inj == 2 && op != 1) { oc.fail_at = rr(1, 1 + rn(12)); oc.code = chance(1, 6) ? (int)rr(109, 2000) : codes[rn(8)]; }
    rs_buffers_t b;
    memset(&b, 0x5a, sizeof b);         /* whatever is in there must not matter */
    logmon lm; memset(&lm, 0, sizeof lm); cur_log = &lm;
    rs_result r = rs_job_drive(j, &b, in_cb, &ic, op == 1 ? NULL : out_cb, &oc);
    cur_log = NULL;
    if (ic.failed) { if ((int)r != ic.code) viol("input-error-lost", "input callback returned %d, rs_job_drive %d", ic.code, r); ev("input_errors_propagated", 1); }
    else if (oc.failed) { if ((int)r != oc.code) viol("output-error-lost", "output callback returned %d, rs_job_drive %d", oc.code, r); ev("output_errors_propagated", 1); }
    else {
        if (r != exp) viol("result", "rs_job_drive returned %d, expected %d (op %d)", r, exp, op);
        if (r == RS_DONE) {
            if (op != 1) {
                if (oc.last != clock) viol("output-not-drained", "the last callback before success was not the output callback");
                if (oc.undrained) { bput(&oc.out, oc.b, (size_t)((u8 *)b.next_out - oc.b)); }   /* the callback itself kept it */
                if (op == 2 && !p.on) { buf x = { 0 }; if (ref_apply(oc.out.p, oc.out.n, NULL, 0, &x, NULL) || x.n != p.wn || (x.n && memcmp(x.p, p.w, x.n))) viol("output-differs", "driven delta describes other data"); }
                else if (!beq(&oc.out, &want)) viol("output-differs", "driven job handed over %zu bytes, expected %zu, first difference %zu (op %d)", oc.out.n, want.n, firstdiff(oc.out.p, oc.out.n, want.p, want.n), op);
            } else if ((u64)rs_job_statistics(j)->sig_blocks != (n - 12) / (4 + p.sl)) viol("output-differs", "driven loadsig read %jd blocks", (intmax_t)rs_job_statistics(j)->sig_blocks);
            ev("driven_to_success", 1);
        } else ev("driven_to_expected_error", 1);
    }
    if (oc.out.n > want.n || (op != 2 && oc.out.n && memcmp(oc.out.p, want.p, oc.out.n))) { if (!(op == 2 && !p.on)) viol("output-differs", "output handed over is not a prefix of the right one"); }
    rs_job_free(j);
    if (op == 1) rs_free_sumset(ls);
    rs_free_sumset(sig);
    real_free(ic.b); real_free(oc.b);
    ev("input_callbacks", ic.calls); ev("output_callbacks", oc.calls);
    feat(ic.calls); feat(oc.calls); feat((u64)op * 8 + (u64)inj);
    if (ic.calls + oc.calls > 3) nontrivial();
    sample("op %d, %s: %llu input and %llu output callbacks in order, result %d", op, pair_str(&p), (unsigned long long)ic.calls, (unsigned long long)oc.calls, r);
}

/* ---------- C26 ---------- */
/* one signature serving a very large number of small deltas, as in a server that keeps it */
static void c26_many(void)
{
    static const u64 N[] = { 300, 33000, 66000, 140000 };
    u64 n = N[rn(4)];
#ifdef EXACT_BUFS
    if (n > 3000) n = 3000;
#endif
    pair p; sched big = sched_big();
    gen_params(&p, 64, 1); gen_pair(&p, 400);
    buf sb = ref_signature(p.magic, p.bl, p.sl, p.o, p.on), first[6], got = { 0 };
    rs_signature_t *sg = do_load(sb.p, sb.n, &big, NULL, 1);
    struct { const u8 *p; size_t n; } in[6];
    for (int i = 0; i < 6; i++) { size_t a = (size_t)rn(p.wn + 1); in[i].p = p.w + a; in[i].n = p.wn - a; if (i > 3) { in[i].p = p.o; in[i].n = p.on; } first[i] = do_delta(sg, in[i].p, in[i].n, &big, NULL); }
    size_t cap = 2 * (p.wn + p.on) + 100; u8 *ob = real_malloc(cap);
    for (u64 k = 0; k < n; k++) {
        int i = (int)rn(6);
        rs_job_t *j = rs_delta_begin(sg);
        if (k % 1000 == 999) { rs_job_free(j); continue; }  /* given up at once */
        rs_buffers_t b = { (char *)in[i].p, in[i].n, 1, (char *)ob, cap };
        rs_result r = rs_job_iter(j, &b);
        if (r != RS_DONE) viol("unexpected-error", "delta %llu on the same signature returned %d", (unsigned long long)k, r);
        size_t l = cap - b.avail_out;
        if (l != first[i].n || memcmp(ob, first[i].p, l)) viol("reused-signature-differs", "delta %llu on the same signature differs from the first of its kind: %s", (unsigned long long)k, pair_str(&p));
        const rs_stats_t *st = rs_job_statistics(j);
        if (st->lit_bytes + st->copy_bytes != (rs_long_t)in[i].n) viol("reused-signature-differs", "the statistics of delta %llu cover other jobs too", (unsigned long long)k);
        rs_job_free(j);
    }
    real_free(ob); (void)got;
    rs_free_sumset(sg);
    ev("deltas_on_one_signature", n); evmax("most_deltas_on_one_signature", n);
    feat(n); feat(p.on); feat(p.wn); nontrivial();
}
void case_C26(u64 c)
{
    if (c / 8 % 100 == 7) { c26_many(); return; }
    enum { MAXJ = 10 };
    int ns = (int)rr(1, 3), nj = (int)rr(2, MAXJ);
    pair sp[3]; buf sigb[3]; rs_signature_t *sg[3];
    sched big = sched_big();
    for (int i = 0; i < ns; i++) { gen_params(&sp[i], 200, 1); gen_pair(&sp[i], chance(1, 5) ? 30000 : 2000); sigb[i] = ref_signature(sp[i].magic, sp[i].bl, sp[i].sl, sp[i].o, sp[i].on); sg[i] = do_load(sigb[i].p, sigb[i].n, &big, NULL, 1); }
    struct { int kind, s, abandon; stepper st; basis b; rs_signature_t *ls; const u8 *in; size_t n; int live; } J[MAXJ];
    u64 rounds = rr(1, 3), finished = 0, abandoned = 0;
    for (u64 rd = 0; rd < rounds; rd++) {
        int live = 0;
        for (int i = 0; i < nj; i++) {
            memset(&J[i], 0, sizeof J[i]);
            J[i].kind = chance(3, 5) ? 2 : (int)rn(4); J[i].s = (int)rn((u64)ns); J[i].abandon = chance(1, 4) ? (int)rr(1, 30) : 0;
            pair *p = &sp[J[i].s];
            rs_job_t *j;
            switch (J[i].kind) {
            case 0: j = rs_sig_begin(p->bl, p->sl, (rs_magic_number)p->magic); J[i].in = p->o; J[i].n = p->on; break;
            case 1: j = rs_loadsig_begin(&J[i].ls); J[i].in = sigb[J[i].s].p; J[i].n = sigb[J[i].s].n; break;
            case 2: { j = rs_delta_begin(sg[J[i].s]); if (chance(1, 2)) { J[i].in = p->w; J[i].n = p->wn; } else { size_t a = (size_t)rn(p->wn + 1); J[i].in = p->w + a; J[i].n = p->wn - a; } break; }
            default: { buf d = { 0 }; gen_valid_delta(&d, p->on, 2000, NULL); J[i].b.p = p->o; J[i].b.n = p->on; J[i].b.mode = (int)rn(4); j = rs_patch_begin(basis_cb, &J[i].b); J[i].in = d.p; J[i].n = d.n; }
            }
            sched s = rsched();
            step_init(&J[i].st, j, J[i].in, J[i].n, &s);
            J[i].live = 1; live++;
        }
        while (live) {
            int i = (int)rn((u64)nj);
            if (!J[i].live) continue;
            contract_no_out = J[i].kind == 1;
            int fin = step(&J[i].st);
            contract_no_out = 0;
            ev("interleaved_calls", 1);
            if (fin || (J[i].abandon && --J[i].abandon == 0)) {
                J[i].live = 0; live--;
                if (fin) {
                    if (J[i].st.res.r != RS_DONE) viol("unexpected-error", "interleaved job of kind %d returned %d", J[i].kind, J[i].st.res.r);
                    pair *p = &sp[J[i].s];
                    buf want = { 0 };
                    runres r;
                    switch (J[i].kind) {
                    case 0: want = sigb[J[i].s]; break;
                    case 1: {
                        if (rs_build_hash_table(J[i].ls)) viol("index-failed", "rs_build_hash_table failed");
                        buf a = do_delta(J[i].ls, p->w, p->wn, &big, NULL), b = do_delta(sg[J[i].s], p->w, p->wn, &big, NULL);
                        if (!beq(&a, &b)) viol("reused-signature-differs", "a used signature gives another delta than one just loaded: %s", pair_str(p));
                        break; }
                    case 2: { rs_signature_t *f = do_load(sigb[J[i].s].p, sigb[J[i].s].n, &big, NULL, 1); want = do_delta(f, J[i].in, J[i].n, &big, &r); expect_done("delta", &r); rs_free_sumset(f); break; }
                    default: if (ref_apply(J[i].in, J[i].n, p->o, p->on, &want, NULL)) harness_error("bad delta");
                    }
                    buf *g = &J[i].st.res.out;
                    if (J[i].kind == 2 && !p->on) { buf x = { 0 }; if (ref_apply(g->p, g->n, NULL, 0, &x, NULL) || x.n != J[i].n || (x.n && memcmp(x.p, J[i].in, x.n))) viol("interleaved-job-differs", "interleaved delta without blocks describes other data"); }
                    else if (J[i].kind != 1 && !beq(g, &want)) viol("interleaved-job-differs", "interleaved job of kind %d gave %zu bytes, alone %zu, first difference %zu: %s", J[i].kind, g->n, want.n, firstdiff(g->p, g->n, want.p, want.n), pair_str(p));
                    finished++;
                } else abandoned++;
                rs_job_free(J[i].st.job);
                if (J[i].kind == 1 && J[i].ls) rs_free_sumset(J[i].ls);
            }
        }
    }
    for (int i = 0; i < ns; i++) rs_free_sumset(sg[i]);
    ev("jobs_completed_interleaved", finished); ev("jobs_abandoned", abandoned);
    feat(finished); feat(abandoned); feat(c % 11);
    if (finished > 1) nontrivial();
    sample("%d jobs at a time over %d shared signatures, %llu rounds: %llu completed as alone, %llu abandoned", nj, ns, (unsigned long long)rounds, (unsigned long long)finished, (unsigned long long)abandoned);
}
