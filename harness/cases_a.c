/* C01..C12: streaming properties. */
#include "h.h"

static size_t big_or_small(void)
{
    if (tier) return chance(1, 12) ? 3000000 : chance(1, 4) ? 500000 : 40000;
    return chance(1, 40) ? 1200000 : chance(1, 8) ? 300000 : 20000;
}
static sched maybe_sched(void) { return chance(1, 2) ? sched_big() : rsched(); }

/* ---------- C01 ---------- */
void case_C01(u64 c)
{
    pair p;
    gen_params(&p, chance(1, 6) ? 140000 : 5000, 8);
    if (c % 16 == 3) p.bl = (u32)rr(1, 4);
    if (c / 8 % 8 == 5) {           /* a long stream arriving in bursts */
        gen_pair(&p, 0);
        size_t n = (size_t)rr(100000, tier ? 2000000 : 700000);
        if (p.bl < n / 20000) p.bl = (u32)(n / 20000 + rn(2000));
        p.on = (size_t)rn(n); p.o = xm(p.on + 1); rbytes(p.o, p.on);
        p.wn = n; p.w = xm(n);
        int some = (int)rn(5);
        for (size_t i = 0; i < n;) {
            size_t k = 1 + rsize(chance(1, 4) ? 150000 : 9000); if (k > n - i) k = n - i;
            if (p.on && rn(5) >= (u64)some) { size_t q = (size_t)rn(p.on); if (k > p.on - q) k = p.on - q; memcpy(p.w + i, p.o + q, k); }
            else rbytes(p.w + i, k);
            i += k;
        }
        ev("long_streams", 1);
    } else if (!gen_manyblocks(&p, 200)) gen_pair(&p, big_or_small());
    sched s = maybe_sched();
    int nosig = c % 23 == 7;
    buf sigb = do_sig(p.magic, p.bl, p.sl, p.o, p.on, &s, NULL);
    s = maybe_sched();
    rs_signature_t *sig = nosig ? NULL : do_load(sigb.p, sigb.n, &s, NULL, 1);
    s = maybe_sched();
    if (c / 8 % 8 == 5) { s = rsched(); s.inpol = 6; if (chance(2, 3)) s.outpol = 6; }
    runres dr, pr;
    buf d = do_delta(sig, p.w, p.wn, &s, &dr);
    if (dr.r != RS_DONE) viol("delta-failed", "delta returned %d: %s; %s", dr.r, pair_str(&p), sched_str(&s));
    s = maybe_sched();
    buf o = do_patch(p.o, p.on, d.p, d.n, &s, &pr);
    if (sig) rs_free_sumset(sig);
    if (pr.r != RS_DONE) viol("patch-failed", "patch returned %d: %s; %s", pr.r, pair_str(&p), sched_str(&s));
    if (o.n != p.wn || (o.n && memcmp(o.p, p.w, o.n)))
        viol("round-trip-differs", "patched %zu bytes, first difference at %zu: %s", o.n, firstdiff(o.p, o.n, p.w, p.wn), pair_str(&p));
    ev("round_trips", 1); ev("bytes_round_tripped", p.wn); ev("copy_cmds_executed", (u64)pr.stats.copy_cmds); ev("literal_cmds_executed", (u64)pr.stats.lit_cmds);
    if (pr.stats.copy_cmds && pr.stats.lit_cmds) ev("round_trips_mixing_copy_and_literal", 1);
    evset("block_lengths", p.bl);
    if (p.wn) nontrivial();
    sample("%s -> delta %zuB, %d literal and %jd copy commands, exact", pair_str(&p), d.n, pr.stats.lit_cmds, (intmax_t)pr.stats.copy_cmds);
}

/* ---------- C02 ---------- */
void case_C02(u64 c)
{
    pair p;
    int small = c % 2;
    gen_params(&p, small ? 40 : 3000, 1);
    if (small && chance(1, 2)) p.bl = (u32)rr(1, 12);
    if (small || !gen_longblocks(&p, 50)) gen_pair(&p, small ? 120 : chance(1, 10) ? 300000 : 20000);
    sched big = sched_big();
    buf sig0 = do_sig(p.magic, p.bl, p.sl, p.o, p.on, &big, NULL);
    rs_signature_t *sg = do_load(sig0.p, sig0.n, &big, NULL, 1);
    buf d0 = do_delta(sg, p.w, p.wn, &big, NULL);
    int slack = p.on == 0;
    buf vd = { 0 };
    gen_valid_delta(&vd, p.on, small ? 300 : 60000, NULL);
    buf o0 = do_patch(p.o, p.on, vd.p, vd.n, &big, NULL);
    /* the same inputs cut off or damaged: same result, same output up to the error */
    buf cd = bdup(vd.p, vd.n), cs = bdup(sig0.p, sig0.n);
    if (chance(2, 3)) cd.n = (size_t)rn(cd.n); else cd.p[rn(cd.n)] ^= (u8)(1u << rn(8));
    if (chance(1, 2) || cs.n <= 12) cs.n = (size_t)rn(cs.n); else cs.p[4 * rn(2) + 3] ^= (u8)(1u << rn(8));
    runres rcd, rcs;
    buf oc0 = do_patch(p.o, p.on, cd.p, cd.n, &big, &rcd);
    rs_free_sumset(do_load(cs.p, cs.n, &big, &rcs, 0));
    int reps = small ? 24 : 5;
    for (int k = 0; k < reps; k++) {
        sched s = rsched();
        if (small) {            /* systematic small chunk sizes */
            s.inpol = (int)rn(3); s.inp = (size_t)rr(1, 9); s.outpol = (int)rr(1, 2); s.outp = (size_t)rr(1, 9);
        }
        buf sb = do_sig(p.magic, p.bl, p.sl, p.o, p.on, &s, NULL);
        if (!beq(&sb, &sig0)) viol("signature-differs", "signature depends on chunking: %zu vs %zu bytes, first difference %zu: %s; %s", sb.n, sig0.n, firstdiff(sb.p, sb.n, sig0.p, sig0.n), pair_str(&p), sched_str(&s));
        rs_signature_t *s2 = do_load(sig0.p, sig0.n, &s, NULL, 1);
        buf dl = do_delta(s2, p.w, p.wn, &big, NULL);
        if (!beq(&dl, &d0)) viol("loaded-signature-differs", "a signature loaded in chunks gives another delta: %s; %s", pair_str(&p), sched_str(&s));
        rs_free_sumset(s2);
        buf d = do_delta(sg, p.w, p.wn, &s, NULL);
        if (slack) {
            buf o = { 0 };
            int r = ref_apply(d.p, d.n, p.o, p.on, &o, NULL);
            if (r || o.n != p.wn || (o.n && memcmp(o.p, p.w, o.n))) viol("slack-delta-differs", "delta without blocks carries other contents (%d): %s; %s", r, pair_str(&p), sched_str(&s));
        } else if (!beq(&d, &d0))
            viol("delta-differs", "delta depends on chunking: %zu vs %zu bytes, first difference %zu: %s; %s", d.n, d0.n, firstdiff(d.p, d.n, d0.p, d0.n), pair_str(&p), sched_str(&s));
        buf o = do_patch(p.o, p.on, vd.p, vd.n, &s, NULL);
        runres r1;
        buf oc = do_patch(p.o, p.on, cd.p, cd.n, &s, &r1);
        if (r1.r != rcd.r) viol("patch-result-differs", "a damaged delta gives result %d or %d depending on chunking; delta %zuB; %s", r1.r, rcd.r, cd.n, sched_str(&s));
        if (!beq(&oc, &oc0)) viol("patch-differs", "output before the error depends on chunking: %zu vs %zu bytes, first difference %zu; delta %zuB of %zuB, basis %zuB, result %d; %s", oc.n, oc0.n, firstdiff(oc.p, oc.n, oc0.p, oc0.n), cd.n, vd.n, p.on, r1.r, sched_str(&s));
        rs_free_sumset(do_load(cs.p, cs.n, &s, &r1, 0));
        if (r1.r != rcs.r) viol("load-result-differs", "a damaged signature gives result %d or %d depending on chunking; %zuB of %zuB; %s", r1.r, rcs.r, cs.n, sig0.n, sched_str(&s));
        if (!beq(&o, &o0)) viol("patch-differs", "patch output depends on chunking: %zu vs %zu bytes, first difference %zu; delta %zuB basis %zuB; %s", o.n, o0.n, firstdiff(o.p, o.n, o0.p, o0.n), vd.n, p.on, sched_str(&s));
        feat(s.inp * 1000003 + s.outp * 7 + (u64)s.inpol + 10 * (u64)s.outpol + 100 * (u64)s.eofpol);
        ev("schedules_compared", 1);
    }
    rs_free_sumset(sg);
    ev("outputs_compared", (u64)reps * 5); ev("failing_results_compared", (u64)reps * ((rcd.r != RS_DONE) + (rcs.r != RS_DONE)));
    if (p.on + p.wn) nontrivial();
    sample("%s: %d schedules, signature %zuB, delta %zuB and patch %zuB identical", pair_str(&p), reps, sig0.n, d0.n, o0.n);
}

/* ---------- C03 ---------- */
void case_C03(u64 c)
{
    pair p;
    gen_params(&p, chance(1, 10) ? 300000 : 5000, 1);
    u32 abl = p.bl, asl = p.sl, am_ = p.magic;
    size_t n;
    switch (c % 6) {
    case 0: n = (size_t)rn(400); p.bl = abl = (u32)rr(1, 300); break;
    case 1: p.bl = abl = 1 + (u32)rsize(700); n = abl * (size_t)rr(1, 4) + (size_t)rn(3) - (chance(1, 2) ? 1 : 0); break;
    case 2: n = rsize(big_or_small()); break;
    case 3: {                   /* defaults */
        if (chance(1, 2)) { p.bl = 0; abl = 2048; }
        if (chance(1, 2)) { p.sl = 0; asl = magic_max(p.magic); }
        else if (chance(1, 2)) { p.sl = (u32)-1; asl = 12; }
        if (chance(1, 3)) { am_ = 0x72730147; p.magic = 0; if (p.sl == 0) asl = 32; }
        n = rsize(20000); break; }
    case 4: p.bl = abl = 1 + (u32)rsize(300000); n = abl + rsize(abl); break;      /* large single blocks */
    default: n = rsize(60000);
    }
    if (n / abl > 30000) n = (size_t)abl * 30000;
    u8 *d = xm(n + 1);
    switch (rn(5)) {
    case 0: memset(d, 0xff, n); break;
    case 1: memset(d, 0, n); break;
    default: gen_content(d, n, (int)rn(8), abl);
    }
    if (magic_is_rk(am_) == 0 && abl >= 600 && n >= abl && chance(1, 4)) craft_weak(am_, d, abl, chance(1, 2) ? 0 : (u32)rnd());
    sched s = maybe_sched();
    buf got = do_sig(p.magic, p.bl, p.sl == (u32)-1 ? (size_t)-1 : p.sl, d, n, &s, NULL);
    buf want = ref_signature(am_, abl, asl, d, n);
    if (!beq(&got, &want)) {
        size_t at = firstdiff(got.p, got.n, want.p, want.n);
        viol("signature-bytes", "%zu bytes, expected %zu, first difference at offset %zu (%s): magic=%x block_len=%u strong_len=%u input=%zuB; %s", got.n, want.n, at,
             at < 12 ? "header" : (at - 12) % (4 + asl) < 4 ? "rolling sum" : "strong sum", am_, abl, asl, n, sched_str(&s));
    }
    feat(am_); feat(abl); feat(asl); feat(n);
    ev("signatures_compared", 1); ev("block_sums_compared", (got.n - 12) / (4 + asl));
    if (n % abl) ev("short_last_blocks", 1);
    evset("block_lengths", abl); evset("input_lengths", n); evset("formats_and_lengths", (u64)am_ << 8 | asl);
    if (n) nontrivial();
    sample("magic=%x block_len=%u strong_len=%u input=%zuB: %zu signature bytes equal the reference", am_, abl, asl, n, got.n);
}

/* ---------- C04 ---------- */
static void check_wellformed(const buf *d, const u8 *o, size_t on, const u8 *w, size_t wn, int bounded, const char *ctx)
{
    delta dd;
    ref_parse_delta(&dd, d->p, d->n);
    if (dd.err) viol("malformed-delta", "delta does not parse (%d at offset %zu of %zu): %s", dd.err, dd.cmds_off, d->n, ctx);
    if (dd.used != d->n) viol("bytes-after-end", "%zu bytes follow the end command: %s", d->n - dd.used, ctx);
    for (size_t i = 0; i < dd.n; i++) {
        cmd *q = &dd.c[i];
        if (i && q->kind == C_COPY && q[-1].kind == C_COPY) {
            if (q[-1].pos + q[-1].len == q->pos) viol("copies-not-joined", "copy %llu+%llu follows copy %llu+%llu: %s", (unsigned long long)q->pos, (unsigned long long)q->len, (unsigned long long)q[-1].pos, (unsigned long long)q[-1].len, ctx);
            ev("neighbouring_copies_checked", 1);
        }
        if (q->kind == C_COPY) evmax("longest_copy_emitted", q->len);
        if (q->kind == C_LIT) {
            int best = q->len <= 64 ? 1 : 1 + minimal_width(q->len);
            if (q->hdr != best) viol("literal-not-minimal", "literal of %llu encoded as op %#x: %s", (unsigned long long)q->len, q->op, ctx);
            evset("opcodes_seen", q->op);
        } else {
            if (q->hdr != 1 + minimal_width(q->pos) + minimal_width(q->len)) viol("copy-not-minimal", "copy %llu+%llu encoded as op %#x: %s", (unsigned long long)q->pos, (unsigned long long)q->len, q->op, ctx);
            if (bounded && (q->pos + q->len > on)) viol("copy-beyond-basis", "copy %llu+%llu of a basis of %zu: %s", (unsigned long long)q->pos, (unsigned long long)q->len, on, ctx);
            evset("opcodes_seen", q->op);
        }
    }
    buf out = { 0 };
    int r = ref_apply(d->p, d->n, o, on, &out, NULL);
    if (bounded && (r || out.n != wn || (wn && memcmp(out.p, w, wn))))
        viol("delta-describes-other-data", "interpreting the delta gives %zu bytes (%d), first difference at %zu of %zu: %s", out.n, r, firstdiff(out.p, out.n, w, wn), wn, ctx);
    ev("deltas_parsed", 1); ev("commands_checked", dd.n);
    if (dd.copy_cmds) ev("deltas_with_copies", 1);
    feat(dd.n); feat(dd.lit_cmds); feat(dd.copy_cmds);
    if (dd.n) nontrivial();
}
void case_C04(u64 c)
{
    pair p;
    gen_params(&p, chance(1, 6) ? 100000 : 3000, 8);
    switch (c % 5) {
    case 0: p.bl = (u32)rr(1, 70); break;
    case 1: p.bl = (u32)(chance(1, 2) ? rr(250, 260) : rr(60, 70)); break;
    case 2: if (chance(1, 3)) p.bl = (u32)rr(65530, 65540); break;
    default: break;
    }
    gen_pair(&p, c % 9 == 2 ? 900000 : big_or_small());
    if (c % 7 == 1) {           /* literal run of an exact boundary length between copies */
        static const u32 L[] = { 1, 63, 64, 65, 66, 254, 255, 256, 257, 65532, 65533, 65534, 65535, 65536, 65537, 131066, 131067 };
        size_t l = L[rn(sizeof L / sizeof *L)];
        buf w = { 0 };
        if (p.on) bput(&w, p.o, (p.on / p.bl) * p.bl);
        u8 *t = xm(l); rbytes(t, l); bput(&w, t, l);
        if (p.on) bput(&w, p.o, p.on);
        p.w = w.p; p.wn = w.n;
    }
    if (c % 7 == 2 && p.on >= p.bl) {   /* a copy of an exact length at a given block */
        size_t nb = p.on / p.bl, a = (size_t)rn(nb), k = (size_t)rr(1, nb - a);
        buf w = { 0 };
        if (chance(1, 2)) bputc(&w, 7);
        bput(&w, p.o + a * p.bl, k * p.bl);
        if (chance(1, 2)) bputc(&w, 9);
        p.w = w.p; p.wn = w.n;
    }
    if (c / 8 % 250 == 11) {    /* copies of many megabytes */
        size_t n = (size_t)rr(5, 40) << 20; u8 *t = xm(n + 5);
        p.bl = (u32)rr(4096, 200000); rbytes(t, n);
        p.o = t; p.on = n; p.w = t + (chance(1, 2) ? p.bl : 0); p.wn = n - (size_t)(p.w - t);
    }
    sched s = p.wn > 4000000 ? sched_big() : maybe_sched();
    buf sb = ref_signature(p.magic, p.bl, p.sl, p.o, p.on);
    sched big = sched_big();
    rs_signature_t *sig = c % 17 == 5 ? NULL : do_load(sb.p, sb.n, &big, NULL, 1);
    if (!sig && chance(1, 2)) { s = sched_big(); }
    buf d = do_delta(sig, p.w, p.wn, &s, NULL);
    if (sig) rs_free_sumset(sig);
    check_wellformed(&d, p.o, p.on, p.w, p.wn, 1, pair_str(&p));
    sample("%s: delta of %zuB parses, minimal encodings, describes the new file", pair_str(&p), d.n);
}

/* ---------- C05 ---------- */
static void check_sound(const refsig *s, const buf *d, const u8 *w, size_t wn, const char *ctx)
{
    delta dd;
    ref_parse_delta(&dd, d->p, d->n);
    if (dd.err) viol("malformed-delta", "delta does not parse (%d): %s", dd.err, ctx);
    u64 q = 0;
    for (size_t i = 0; i < dd.n; i++) {
        cmd *k = &dd.c[i];
        if (k->len > wn - q) viol("delta-too-long", "commands describe more than the new file: %s", ctx);
        if (k->kind == C_LIT) {
            if (memcmp(d->p + k->off, w + q, k->len)) viol("literal-differs", "literal data at new offset %llu is not the new file's: %s", (unsigned long long)q, ctx);
        } else {
            if (k->pos % s->bl) viol("copy-not-block-aligned", "copy from %llu with block length %u: %s", (unsigned long long)k->pos, s->bl, ctx);
            for (u64 t = 0; t < k->len; t += s->bl) {
                u64 l = k->len - t < s->bl ? k->len - t : s->bl, b = (k->pos + t) / s->bl;
                u8 st[32];
                if (b >= s->count) viol("copy-of-no-block", "copy of block %llu of %u: %s", (unsigned long long)b, s->count, ctx);
                if (l < s->bl && q + t + l != wn) viol("short-copy-inside", "copy of part of a block not at the end of the new file: %s", ctx);
                u32 wk = ref_weak(s->magic, w + q + t, l);
                if (sig_hash(s->magic, wk) != sig_hash(s->magic, s->weak[b]))
                    viol("copy-rolling-sum-differs", "new offset %llu has rolling sum %08x, copied block %llu has %08x: %s", (unsigned long long)(q + t), wk, (unsigned long long)b, s->weak[b], ctx);
                ref_strong(s->magic, st, w + q + t, l);
                if (memcmp(st, s->strong + (size_t)b * s->sl, s->sl))
                    viol("copy-strong-sum-differs", "new offset %llu copied from block %llu whose strong sum differs at byte %zu of %u: %s", (unsigned long long)(q + t), (unsigned long long)b,
                         firstdiff(st, s->sl, s->strong + (size_t)b * s->sl, s->sl), s->sl, ctx);
                ev("copied_blocks_verified", 1);
            }
        }
        q += k->len;
    }
    if (q != wn) viol("delta-too-short", "commands describe %llu of %zu bytes: %s", (unsigned long long)q, wn, ctx);
}
/* A signature whose entries are near misses of windows of the new file. */
static buf hostile_sig(pair *p, const u8 *w, size_t wn)
{
    buf b = { 0 };
    u32 bl = p->bl, sl = p->sl, m = p->magic;
    bput_be(&b, m, 4); bput_be(&b, bl, 4); bput_be(&b, sl, 4);
    int ne = (int)rr(1, 60);
    for (int i = 0; i < ne; i++) {
        size_t a = wn ? (size_t)rn(wn) : 0, l = wn - a < bl ? wn - a : bl;
        if (chance(1, 2) && wn >= bl) { a = (size_t)rn(wn / bl) * bl; l = bl; }
        u32 wk = ref_weak(m, w + a, l);
        u8 st[32]; ref_strong(m, st, w + a, l);
        switch (rn(9)) {
        case 0: break;                                   /* honest entry */
        case 1: case 2: case 3: st[rn(sl)] ^= (u8)(1u << rn(8)); break;  /* one bit of the strong sum */
        case 4: st[sl - 1] ^= (u8)(1u << rn(8)); break;
        case 5: st[0] ^= (u8)(1u << rn(8)); break;
        case 6: wk ^= 1u << rn(32); break;               /* right strong sum, wrong rolling sum */
        case 7: rbytes(st, 32); break;                   /* pure rolling-sum collision */
        default: if (a + 1 < wn) { size_t l2 = l > 1 ? l - 1 : l; ref_strong(m, st, w + a, l2); } break;        /* strong sum of another length */
        }
        bput_be(&b, wk, 4); bput(&b, st, sl);
    }
    return b;
}
void case_C05(u64 c)
{
    pair p;
    gen_params(&p, 3000, 1);
    gen_pair(&p, chance(1, 8) ? 200000 : 12000);
    buf sb;
    sched big = sched_big(), s = maybe_sched();
    if (c % 3 == 0) {
        if (p.sl < 8 && chance(1, 2)) p.sl = 8;
        sb = hostile_sig(&p, p.w, p.wn);
    } else if (c % 3 == 1) {    /* honest signature, new file full of collisions */
        sb = ref_signature(p.magic, p.bl, p.sl, p.o, p.on);
        if (p.on >= p.bl && p.bl >= 3) {
            buf w = { 0 };
            int k = (int)rr(1, 20);
            u8 *t = xm(p.bl);
            for (int i = 0; i < k; i++) {
                memcpy(t, p.o + (size_t)rn(p.on / p.bl) * p.bl, p.bl);
                int how = (int)rn(4);
                if (how && craft_collision(p.magic, t, p.bl)) ev("rolling_sum_collisions_planted", 1);
                bput(&w, t, p.bl);
                if (how == 2) bputc(&w, (int)rn(256));
            }
            p.w = w.p; p.wn = w.n;
        }
    } else sb = ref_signature(p.magic, p.bl, p.sl, p.o, p.on);
    if (c % 3 == 0 && chance(1, 3) && p.bl >= 6 && p.wn >= p.bl) {      /* extreme rolling sums */
        u32 t[] = { 0, 0xffffffffu, 1, 0x80000000u };
        u32 tg = magic_is_rk(p.magic) ? t[rn(4)] : ref_unmix32(t[rn(4)]);
        u8 *w2 = xm(p.wn); memcpy(w2, p.w, p.wn); p.w = w2;
        if (craft_weak(p.magic, p.w, p.bl, tg)) { sb = hostile_sig(&p, p.w, p.wn); ev("extreme_rolling_sums", 1); }
    }
    refsig rs;
    ref_parse_sig(&rs, sb.p, sb.n);
    rs_signature_t *sig = do_load(sb.p, sb.n, &big, NULL, 1);
    if (rs.count == 0) { rs_free_sumset(sig); return; }
    buf d = do_delta(sig, p.w, p.wn, &s, NULL);
    rs_free_sumset(sig);
    check_sound(&rs, &d, p.w, p.wn, pair_str(&p));
    seglist g;
    if (p.wn <= 60000) { ref_greedy(&rs, p.w, p.wn, &g); ev("windows_with_rolling_sum_hit", g.weak_hits); ev("windows_rejected_by_strong_sum", g.false_weak); feat(g.false_weak); if (g.weak_hits) nontrivial(); }
    ev("deltas_checked", 1);
    sample("%s: every copy justified by both sums (%u signature blocks)", pair_str(&p), rs.count);
}

/* ---------- C06 ---------- */
static void check_complete(const refsig *s, const buf *d, const u8 *w, size_t wn, const char *ctx)
{
    seglist g;
    ref_greedy(s, w, wn, &g);
    delta dd;
    ref_parse_delta(&dd, d->p, d->n);
    if (dd.err) viol("malformed-delta", "delta does not parse (%d): %s", dd.err, ctx);
    size_t k = 0; u64 q = 0;
    for (size_t i = 0; i < dd.n;) {
        seg a;
        cmd *x = &dd.c[i];
        if (x->kind == C_COPY) { a = (seg){ 1, x->pos, x->len }; i++; }
        else { a = (seg){ 0, q, 0 }; while (i < dd.n && dd.c[i].kind == C_LIT) a.len += dd.c[i++].len; }
        if (k >= g.n) viol("extra-commands", "more commands than the reference scan: %s", ctx);
        seg e = g.s[k++];
        if (a.copy != e.copy || a.len != e.len || (a.copy && a.pos != e.pos))
            viol(e.copy && !a.copy ? "match-missed" : a.copy && !e.copy ? "unexpected-copy" : a.copy ? "copy-differs" : "literal-run-differs",
                 "at new offset %llu: expected %s %llu+%llu, delta has %s %llu+%llu: %s", (unsigned long long)q,
                 e.copy ? "copy" : "literal", (unsigned long long)e.pos, (unsigned long long)e.len, a.copy ? "copy" : "literal", (unsigned long long)a.pos, (unsigned long long)a.len, ctx);
        q += a.len;
    }
    if (k != g.n) viol("missing-commands", "fewer commands than the reference scan: %s", ctx);
    ev("deltas_compared_with_reference_scan", 1); ev("windows_scanned", wn); ev("matches_expected", g.weak_hits - g.false_weak); ev("rolling_sum_collisions", g.false_weak);
    for (size_t i = 0; i < g.n; i++) if (g.s[i].copy && g.s[i].len > s->bl) { ev("merged_copies", 1); break; }
    feat(g.n); feat(g.weak_hits);
    if (g.weak_hits) nontrivial();
}
void case_C06(u64 c)
{
    pair p;
    gen_params(&p, chance(1, 8) ? 80000 : 3000, 8);
    const char *kind = "pairs";
    buf sb;
    switch (c % 8) {
    case 0: {                   /* large tables: every block must be found */
        u32 k = (u32)rr(1, tier ? 16 : 14), cnt = 1u << k;
        switch (rn(5)) { case 0: cnt = cnt * 7 / 10; break; case 1: cnt = cnt * 7 / 10 + 1; break; case 2: cnt -= 1; break; case 3: cnt += (u32)rn(3); break; default: cnt = (u32)rr(1, cnt); }
        if (!cnt) cnt = 1;
        p.bl = (u32)rr(4, 12);
        p.on = (size_t)cnt * p.bl; p.o = xm(p.on); rbytes(p.o, p.on);
        /* new: all blocks in shuffled order, with occasional separators */
        u32 *ix = xm(4 * (size_t)cnt);
        for (u32 i = 0; i < cnt; i++) ix[i] = i;
        for (u32 i = cnt; i > 1; i--) { u32 j = (u32)rn(i), t = ix[j]; ix[j] = ix[i - 1]; ix[i - 1] = t; }
        buf w = { 0 };
        int sep = (int)rn(3);
        for (u32 i = 0; i < cnt; i++) { bput(&w, p.o + (size_t)ix[i] * p.bl, p.bl); if (sep && chance(1, 4)) bputc(&w, (int)rn(256)); }
        p.w = w.p; p.wn = w.n; kind = "large table"; p.kind = 100; feat(cnt);
        break; }
    case 1: {                   /* blocks with chosen rolling sums */
        p.bl = magic_is_rk(p.magic) ? (u32)rr(6, 40) : (u32)rr(600, 900);
        int nb = (int)rr(2, 24);
        p.on = (size_t)nb * p.bl; p.o = xm(p.on); rbytes(p.o, p.on);
        u32 base = (u32)rnd();
        int mode = (int)rn(5), ok = 0;
        for (int i = 0; i < nb; i++) {
            static const u32 E[] = { 0, 1, 0xffffffffu, 0xfffffffeu, 0x80000000u, 0x7fffffffu, 0xffff0000u, 0x0000ffffu, 0x00010000u };
            u32 t;
            switch (mode) {
            case 0: t = E[rn(9)]; break;
            case 1: t = base + ((u32)rn(8) << 20); break;        /* same low bits: same first probe */
            case 2: t = base + (u32)rn(4); break;        /* same high bits: same filter bit */
            case 3: t = base; break;     /* all equal */
            default: t = chance(1, 2) ? E[rn(9)] : (u32)rnd();
            }
            u32 tg = magic_is_rk(p.magic) ? t : ref_unmix32(t);
            if (!magic_is_rk(p.magic) && chance(1, 3)) tg = t;
            ok += craft_weak(p.magic, p.o + (size_t)i * p.bl, p.bl, tg);
        }
        ev("blocks_with_crafted_rolling_sum", (u64)ok);
        buf w = { 0 };
        for (int i = 0; i < 2 * nb; i++) { bput(&w, p.o + (size_t)rn((u64)nb) * p.bl, p.bl); if (chance(1, 4)) { u8 t[3]; rbytes(t, 3); bput(&w, t, (size_t)rr(1, 3)); } }
        p.w = w.p; p.wn = w.n; kind = "crafted sums"; p.kind = 101; feat(base); feat((u64)mode);
        break; }
    case 2: {                   /* identical */
        gen_pair(&p, big_or_small());
        p.w = p.o; p.wn = p.on; kind = "identical"; break; }
    case 3: {                   /* long literal prefix so that matches fall at every position relative to literal flushes */
        gen_pair(&p, 8000);
        size_t l = (chance(1, 2) ? 65533 : 131066) - (size_t)rn(40) + (size_t)rn(40);
        buf w = { 0 }; u8 *t = xm(l); rbytes(t, l); bput(&w, t, l);
        if (p.on) bput(&w, p.o, p.on);
        if (chance(1, 2)) bput(&w, t, 100);
        p.w = w.p; p.wn = w.n; kind = "after long literal"; p.kind = 102; break; }
    case 4:
        if (c / 8 % 40 == 7) {  /* large blocks, found after a few bytes of scanning */
            int k = (int)rr(13, tier ? 24 : 21);
            p.bl = (u32)((1u << k) + rn(1u << k));
            size_t nb = (size_t)rr(1, 3), tl = chance(1, 2) ? rsize(p.bl < 3000 ? p.bl : 3000) : 0;
            p.on = nb * p.bl + tl; p.o = xm(p.on + 1); rbytes(p.o, p.on);
            buf w = { 0 };
            for (size_t i = 0; i < nb; i++) {
                u8 t[300]; size_t l = chance(1, 6) ? 0 : (size_t)rr(1, 300);
                rbytes(t, l); bput(&w, t, l);
                bput(&w, p.o + (size_t)rn(nb) * p.bl, p.bl);
            }
            if (tl) bput(&w, p.o + nb * p.bl, tl);
            p.w = w.p; p.wn = w.n; kind = "large blocks"; p.kind = 103; feat(p.bl);
            ev("large_block_cases", 1); evmax("largest_block", p.bl);
            break;
        }
        /* fall through */
    default:
        if (!gen_manyblocks(&p, 100)) gen_pair(&p, big_or_small());
    }
    if (p.on == 0) { p.on = 1; p.o = xm(1); p.o[0] = (u8)rn(256); }
    sb = ref_signature(p.magic, p.bl, p.sl, p.o, p.on);
    refsig rs;
    ref_parse_sig(&rs, sb.p, sb.n);
    sched big = sched_big(), s = chance(2, 3) ? sched_big() : rsched();
    rs_signature_t *sig = do_load(sb.p, sb.n, &big, NULL, 1);
    buf d = do_delta(sig, p.w, p.wn, &s, NULL);
    rs_free_sumset(sig);
    if (c % 8 == 2 && p.wn) {
        delta dd; ref_parse_delta(&dd, d.p, d.n);
        /* duplicates inside the file may legitimately split it; a file without duplicate blocks is one copy */
        int dup = 0;
        for (u32 i = 0; !dup && i < rs.count && rs.count < 2000; i++) for (u32 j = 0; j < i; j++) if (rs.weak[i] == rs.weak[j]) { dup = 1; break; }
        if (!dup && rs.count < 2000 && dd.n != 1) viol("identical-not-one-copy", "unchanged file gives %zu commands: %s", dd.n, pair_str(&p));
    }
    check_complete(&rs, &d, p.w, p.wn, pair_str(&p));
    evmax("largest_signature_blocks", rs.count);
    sample("%s, %s: %u signature blocks, delta %zuB equals the reference scan", kind, pair_str(&p), rs.count, d.n);
}

/* ---------- C07 ---------- */
void case_C07(u64 c)
{
    size_t bn = rsize(chance(1, 6) ? 200000 : 3000);
    u8 *b = xm(bn + 1);
    rbytes(b, bn);
    buf d = { 0 };
    gen_vbase(bn, 1, 3);
    if (c % 5 == 0) {           /* one command of each interesting kind, systematically */
        static const int W[4] = { 1, 2, 4, 8 };
        enc_magic(&d);
        int op = (int)((c / 5) % 0x55);
        u8 *t = xm(70000); rbytes(t, 70000);
        int before = (int)rn(3);
        for (int i = 0; i < before; i++) enc_lit(&d, t, rr(1, 64), 0);
        if (op == 0) ;
        else if (op <= 0x40) enc_lit(&d, t, (u64)op, -1);
        else if (op <= 0x44) { int w = W[op - 0x41]; u64 l = w == 1 ? rr(1, 255) : w == 2 ? rr(1, 65535) : rr(1, 70000); if (chance(1, 3)) l = rr(1, 70); enc_lit(&d, t, l, w); }
        else {
            int wp = W[(op - 0x45) / 4], wl = W[(op - 0x45) % 4];
            if (bn < 2) { bn = 400; b = xm(bn); rbytes(b, bn); if (vbase > (u64)INT64_MAX - bn) vbase = (u64)INT64_MAX - bn; }
            u64 pos = wp == 1 ? rn(bn < 256 ? bn : 256) : wp == 2 ? rn(bn < 65536 ? bn : 65536) : rn(bn);
            if (minimal_width(pos + vbase) > wp) { vbase = 0; if (wp == 4 && chance(1, 2)) vbase = rn((1ull << 32) - bn); }
            u64 mx = bn - pos; if (wl == 1 && mx > 255) mx = 255; if (wl == 2 && mx > 65535) mx = 65535;
            enc_copy(&d, pos + vbase, rr(1, mx), wp, wl);
        }
        for (int i = (int)rn(2); i > 0; i--) enc_lit(&d, t, rr(1, 64), 0);
        bputc(&d, 0);
        evset("opcodes_enumerated", (u64)op);
    } else gen_valid_delta(&d, bn, chance(1, 6) ? 500000 : 20000, NULL);
    size_t end = d.n;
    if (chance(1, 3)) { u8 t[40]; rbytes(t, 40); bput(&d, t, (size_t)rr(1, 40)); ev("deltas_with_trailing_data", 1); }
    buf want = { 0 };
    size_t used;
    int r = ref_apply(d.p, d.n, b, bn, &want, &used);
    if (r || used != end) harness_error("generated an invalid delta (%d)", r);
    runres rr_;
    sched s = rsched();
    buf got = do_patch(b, bn, d.p, d.n, &s, &rr_);
    if (rr_.r != RS_DONE) viol("valid-delta-rejected", "patch returned %d on a valid delta of %zuB (basis %zuB); %s", rr_.r, end, bn, sched_str(&s));
    if (!beq(&got, &want)) viol("patch-output", "patch output %zuB, expected %zuB, first difference at %zu; %s", got.n, want.n, firstdiff(got.p, got.n, want.p, want.n), sched_str(&s));
    if (rr_.in_used != end) viol("read-past-end", "patch consumed %llu bytes of a delta of %zu; %s", (unsigned long long)rr_.in_used, end, sched_str(&s));
    delta dd; ref_parse_delta(&dd, d.p, d.n);
    for (size_t i = 0; i < dd.n; i++) evset("opcodes_seen", dd.c[i].op);
    ev("deltas_applied", 1); ev("commands_executed", dd.n);
    feat(d.n); feat(bn); feat(dd.n); feat(want.n);
    if (dd.n) nontrivial();
    sample("basis %zuB, delta %zuB with %zu commands -> %zuB as interpreted independently; %s", bn, end, dd.n, want.n, sched_str(&s));
}

/* ---------- C08 ---------- */
static const u64 HUGE_[] = { 0, 0xffffffffffffffffull, 0x8000000000000000ull, 0x7fffffffffffffffull, 0x7ffffffffffffffeull, 0x100000000ull, 0xffffffffull, 0x80000000ull, 0x7fffffffull, 1 };
void case_C08(u64 c)
{
    size_t bn = rsize(chance(1, 8) ? 100000 : 600);
    u8 *b = xm(bn + 1);
    rbytes(b, bn);
    buf d = { 0 };
    gen_vbase(bn, 1, 5);
    gen_valid_delta(&d, bn, chance(1, 8) ? 200000 : 1500, NULL);
    const char *what = "?";
    switch (c % 8) {
    case 0: case 1: d.n = c % 16 < 8 ? (size_t)rn(d.n) : d.n - 1 - (size_t)rn(d.n < 12 ? d.n : 12); what = "truncated"; break;
    case 2: { size_t at = (size_t)rn(d.n); d.p[at] ^= (u8)rr(1, 255); what = "byte changed"; break; }
    case 3: { d.p[rn(4)] ^= (u8)(1u << rn(8)); what = "magic changed"; break; }
    case 4: {                   /* reserved opcode at a command boundary */
        delta dd; ref_parse_delta(&dd, d.p, d.n);
        size_t k = (size_t)rn(dd.n + 1), at = k < dd.n ? (dd.c[k].kind == C_LIT ? dd.c[k].off - (size_t)dd.c[k].hdr : 0) : dd.used - 1;
        if (!at) at = dd.used - 1;
        d.p[at] = (u8)rr(0x55, 0xff); what = "reserved command"; break; }
    case 5: case 6: {           /* hostile parameters */
        static const int W[4] = { 1, 2, 4, 8 };
        d.n--;                  /* drop END */
        u64 v = HUGE_[rn(10)], v2 = HUGE_[rn(10)];
        if (chance(1, 3)) v2 = rn(bn + 3);
        if (chance(1, 3)) v = rn(bn + 3);
        int w = W[rn(4)], w2 = W[rn(4)];
        if (chance(1, 2)) { w = w2 = 8; }
        if (chance(1, 2)) { bputc(&d, 0x41 + (w == 1 ? 0 : w == 2 ? 1 : w == 4 ? 2 : 3)); bput_be(&d, v, w); }
        else { bputc(&d, 0x45 + 4 * (w == 1 ? 0 : w == 2 ? 1 : w == 4 ? 2 : 3) + (w2 == 1 ? 0 : w2 == 2 ? 1 : w2 == 4 ? 2 : 3)); bput_be(&d, v2, w); bput_be(&d, v, w2); }
        if (chance(1, 2)) { u8 t[20]; rbytes(t, 20); bput(&d, t, (size_t)rn(21)); }
        bputc(&d, 0);
        what = "hostile parameter"; break; }
    default: {
        if (chance(1, 2)) { d.n = 0; enc_magic(&d); }
        d.n = 4; u8 t[300]; size_t l = rsize(300); rbytes(t, 300);
        for (size_t i = 0; i < l; i++) if (chance(1, 2)) t[i] = (u8)rn(0x56);
        bput(&d, t, l); what = "random commands"; break; }
    }
    buf want = { 0 };
    int r = ref_apply(d.p, d.n, b, bn, &want, NULL);
    runres rr_;
    sched s = rsched();
    logmon lm; memset(&lm, 0, sizeof lm); cur_log = &lm;
    buf got = do_patch(b, bn, d.p, d.n, &s, &rr_);
    if (r != RS_DONE && rr_.r == RS_DONE) viol("damaged-accepted", "%s delta of %zuB reported as complete (expected error %d); %s", what, d.n, r, sched_str(&s));
    if ((int)rr_.r != r) viol("wrong-error", "%s delta of %zuB gives %d, expected %d; %s", what, d.n, rr_.r, r, sched_str(&s));
    if (got.n > want.n || (got.n && memcmp(got.p, want.p, got.n))) viol("invented-output", "%s delta: output is not what the commands describe (%zu vs %zu bytes, first difference %zu); %s", what, got.n, want.n, firstdiff(got.p, got.n, want.p, want.n), sched_str(&s));
    if (got.n != want.n) viol("lost-output", "%s delta: only %zu of %zu bytes described before the error were output; %s", what, got.n, want.n, sched_str(&s));
    if (r) { ev("damaged_deltas_rejected", 1); nontrivial(); } else ev("mutations_still_valid", 1);
    char k[40]; snprintf(k, sizeof k, "expected_result_%d", r); ev(k, 1);
    feat(mixh(d.n, (u64)r)); feat(want.n); feat(c % 8); feat(d.n ? d.p[d.n - 1] : 0);
    sample("%s delta of %zuB -> error %d after %zu correct output bytes; %s", what, d.n, rr_.r, got.n, sched_str(&s));
}

/* ---------- C09 ---------- */
void case_C09(u64 c)
{
    pair p;
    gen_params(&p, 2000, 1);
    p.on = rsize(chance(1, 8) ? 60000 : 3000);
    if (p.on / p.bl > 3000) p.on = 3000 * (size_t)p.bl;
    p.o = xm(p.on + 1); rbytes(p.o, p.on);
    buf sb = ref_signature(p.magic, p.bl, p.sl, p.o, p.on);
    const char *what = "?";
    switch (c % 8) {
    case 0: case 1: sb.n = (size_t)rn(sb.n); if (chance(1, 4)) sb.n = sb.n % 13; what = "truncated"; break;
    case 2: { static const u32 M[] = { 0, 1, 0x72730135, 0x72730138, 0x72730126, 0x72730156, 0x72730236, 0x72730144, 0x7273014f, 0x72720136, 0xf2730136, 0xffffffff, 0x36017372 };
        u32 m = chance(1, 2) ? M[rn(13)] : p.magic ^ (1u << rn(32));
        for (int i = 0; i < 4; i++) sb.p[i] = (u8)(m >> (24 - 8 * i)); what = "magic changed"; break; }
    case 3: { static const u32 B[] = { 0, 0xffffffff, 0x80000000, 0x80000001, 1, 2, 0xfffffffe };
        u32 v = B[rn(7)];
        for (int i = 0; i < 4; i++) sb.p[4 + i] = (u8)(v >> (24 - 8 * i)); what = "block length changed"; break; }
    case 4: { static const u32 S[] = { 0, 17, 32, 33, 16, 0xffffffff, 0x80000000, 0x100, 64, 31, 1 };
        u32 v = S[rn(11)];
        for (int i = 0; i < 4; i++) sb.p[8 + i] = (u8)(v >> (24 - 8 * i)); what = "strong length changed"; break; }
    case 5: what = "intact"; break;
    case 6: sb.n = 0; { size_t l = rsize(200); u8 *t = xm(l + 1); rbytes(t, l); if (chance(1, 2) && l >= 4) { t[0] = 0x72; t[1] = 0x73; t[2] = 1; t[3] = 0x36; } bput(&sb, t, l); } what = "random"; break;
    default: sb.p[rn(sb.n)] ^= (u8)rr(1, 255); what = "byte changed"; break;
    }
    /* expectation */
    int ok[3] = { -1, -1, -1 }, no = 0;
    size_t n = sb.n;
    u32 m = 0, bl = 0, sl = 0; refsig rs = { 0 };
    if (n >= 12) { ref_parse_sig(&rs, sb.p, n); m = rs.magic; bl = rs.bl; sl = rs.sl; }
    int good_magic = m == MAGICS[0] || m == MAGICS[1] || m == MAGICS[2] || m == MAGICS[3];
    if (n < 12) {
        ok[no++] = RS_INPUT_ENDED;
        if (n >= 4) { u32 mm = (u32)sb.p[0] << 24 | (u32)sb.p[1] << 16 | (u32)sb.p[2] << 8 | sb.p[3]; int g = 0; for (int i = 0; i < 4; i++) g |= mm == MAGICS[i]; if (!g) ok[no++] = RS_BAD_MAGIC; }
        if (n >= 8 && ((sb.p[4] & 0x80) || !(sb.p[4] | sb.p[5] | sb.p[6] | sb.p[7]))) ok[no++] = RS_CORRUPT;
    } else {
        if (!good_magic) ok[no++] = RS_BAD_MAGIC;
        if (bl == 0 || bl > 0x7fffffff || sl > 32 || sl == 0) ok[no++] = RS_CORRUPT;
        else if (good_magic && sl > magic_max(m)) { ok[no++] = RS_PARAM_ERROR; ok[no++] = RS_CORRUPT; }
        if (!no && (n - 12) % (4 + sl)) ok[no++] = RS_INPUT_ENDED;
        if (!no) ok[no++] = RS_DONE;
    }
    runres rr_;
    sched s = rsched();
    rs_signature_t *sig = do_load(sb.p, n, &s, &rr_, 0);
    int match = 0;
    for (int i = 0; i < no; i++) if (ok[i] == (int)rr_.r) match = 1;
    if (!match && rr_.r == RS_DONE) viol("damaged-accepted", "%s signature of %zuB loaded as valid (expected %d): magic %x block_len %u strong_len %u; %s", what, n, ok[0], m, bl, sl, sched_str(&s));
    if (!match) viol(ok[0] == RS_DONE ? "intact-rejected" : "wrong-error", "%s signature of %zuB gives %d, expected %d: magic %x block_len %u strong_len %u; %s", what, n, rr_.r, ok[0], m, bl, sl, sched_str(&s));
    if (rr_.r == RS_DONE) {
        rs_result br = rs_build_hash_table(sig);
        if (br != RS_DONE) viol("index-failed", "rs_build_hash_table returned %d", br);
        if ((u64)rr_.stats.sig_blocks != rs.count) viol("block-count", "loaded %jd blocks of %u", (intmax_t)rr_.stats.sig_blocks, rs.count);
        if (bl <= 100000) {
            /* What was loaded is what the file says: probe each block, in shuffled order. */
            buf w = { 0 };
            for (int i = 0; i < 30 && p.on; i++) { size_t a = (size_t)rn((p.on + p.bl - 1) / p.bl) * p.bl; bput(&w, p.o + a, p.on - a < p.bl ? p.on - a : p.bl); }
            u8 t[50]; rbytes(t, 50); bput(&w, t, (size_t)rn(50));
            sched big = sched_big();
            buf d = do_delta(sig, w.p, w.n, &big, NULL);
            if (rs.count) { check_complete(&rs, &d, w.p, w.n, what); check_sound(&rs, &d, w.p, w.n, what); }
        }
        ev("signatures_loaded_and_verified", 1);
    } else { ev("damaged_signatures_rejected", 1); nontrivial(); }
    rs_free_sumset(sig);
    char k[40]; snprintf(k, sizeof k, "result_%d", rr_.r); ev(k, 1);
    feat(mixh(n, rr_.r)); feat(m); feat(bl); feat(sl); feat(c % 8);
    sample("%s signature of %zuB (magic %x block_len %u strong_len %u) -> %d; %s", what, n, m, bl, sl, rr_.r, sched_str(&s));
}

/* ---------- C10: everything, under sanitizers ---------- */
void case_C10(u64 c)
{
    static const casefn f[] = { case_C01, case_C02, case_C03, case_C04, case_C05, case_C06, case_C07, case_C08, case_C09, case_C08, case_C09, case_C11, case_C12, case_C24, case_C26, case_C25, case_C13, case_C14, case_C15, case_C18, case_C19, case_C23 };
    if (flavor_trace && chance(1, 12)) { rs_trace_set_level(RS_LOG_DEBUG); ev("cases_with_debug_logging", 1); }
    else if (chance(1, 3)) rs_trace_set_level(RS_LOG_INFO);
    if (c % 5 == 4) {           /* raw garbage to every consumer */
        size_t n = rsize(700);
        u8 *g = xm(n + 1); rbytes(g, n);
        for (size_t i = 0; i < n; i++) if (chance(1, 3)) g[i] = (u8)rconst();
        if (n >= 4 && chance(4, 5)) { u32 m = chance(1, 2) ? 0x72730236 : MAGICS[rn(4)]; for (int i = 0; i < 4; i++) g[i] = (u8)(m >> (24 - 8 * i)); }
        if (n >= 12 && chance(3, 4)) { g[4] = g[5] = g[8] = g[9] = g[10] = 0; }
        sched s = rsched();
        runres r;
        do_patch(g, n, g, n, &s, &r);
        rs_signature_t *sig = do_load(g, n, &s, &r, 1);
        if (r.r == RS_DONE && n >= 12 && (g[4] | g[5]) == 0) {
            do_delta(sig, g, n, &s, &r);
            logmon lm; memset(&lm, 0, sizeof lm); cur_log = &lm; rs_trace_set_level(RS_LOG_INFO);
            rs_sumset_dump(sig); rs_signature_log_stats(sig);
            cur_log = NULL;
        }
        rs_free_sumset(sig);
        ev("garbage_inputs", 1); feat(n); feat(c); nontrivial();
        return;
    }
    if (c % 10 == 7) {          /* every diagnostic output, for every signature shape */
        pair p;
        gen_params(&p, 300, 1); gen_pair(&p, 3000);
        if (chance(1, 2)) p.sl = magic_max(p.magic);
        sched s = rsched();
        runres r;
        buf sb = do_sig(p.magic, p.bl, p.sl, p.o, p.on, &s, NULL);
        logmon lm; memset(&lm, 0, sizeof lm); cur_log = &lm;
        rs_trace_set_level(flavor_trace ? RS_LOG_DEBUG : RS_LOG_INFO);
        rs_signature_t *sig = do_load(sb.p, sb.n, &s, NULL, 1);
        rs_sumset_dump(sig); rs_signature_log_stats(sig);
        do_delta(sig, p.w, p.wn, &s, &r); expect_done("delta", &r);
        rs_log_stats(&r.stats); rs_signature_log_stats(sig); rs_sumset_dump(sig);
        cur_log = NULL; rs_trace_set_level(RS_LOG_ERR);
        rs_free_sumset(sig);
        evset("signature_shapes_dumped", p.magic * 64 + p.sl); ev("signatures_dumped", 1); ev("messages_logged", lm.total);
        feat(c); nontrivial();
        return;
    }
    f[rn(sizeof f / sizeof *f)](c);
    feat(c);
    nontrivial();
}

/* ---------- C11 ---------- */
void case_C11(u64 c)
{
    pair p;
    gen_params(&p, chance(1, 6) ? 3000 : 60, 1);
    if (!gen_longblocks(&p, 30)) gen_pair(&p, chance(1, 8) ? 200000 : 1500);
    int reps = p.on + p.wn > 10000 ? 2 : 8;
    sched big = sched_big();
    buf sb = ref_signature(p.magic, p.bl, p.sl, p.o, p.on);
    rs_signature_t *sig = do_load(sb.p, sb.n, &big, NULL, 1);
    for (int i = 0; i < reps; i++) {
        sched s = rsched();
        switch (rn(5)) {
        case 0: s.inpol = 3; s.outpol = 3; break;
        case 1: s.inpol = 3; s.outpol = 0; break;
        case 2: s.inpol = 0; s.outpol = 3; break;
        default: break;
        }
        if (c % 3 == 0) { s.zeros = (int)rr(6, 12); }
        runres r;
        buf g = do_sig(p.magic, p.bl, p.sl, p.o, p.on, &s, &r);
        if (r.r != RS_DONE) viol("job-did-not-finish", "signature ended with %d: %s; %s", r.r, pair_str(&p), sched_str(&s));
        if (g.n != sb.n) viol("job-finished-early", "signature finished after %zu of %zu bytes: %s", g.n, sb.n, pair_str(&p));
        rs_signature_t *s2 = do_load(sb.p, sb.n, &s, &r, 0);
        if (r.r != RS_DONE) viol("job-did-not-finish", "loadsig ended with %d: %s; %s", r.r, pair_str(&p), sched_str(&s));
        if (r.in_used != sb.n) viol("input-not-consumed", "loadsig finished after %llu of %zu bytes", (unsigned long long)r.in_used, sb.n);
        rs_free_sumset(s2);
        buf d = do_delta(chance(1, 12) ? NULL : sig, p.w, p.wn, &s, &r);
        if (r.r != RS_DONE) viol("job-did-not-finish", "delta ended with %d: %s; %s", r.r, pair_str(&p), sched_str(&s));
        if (r.in_used != p.wn) viol("input-not-consumed", "delta finished after %llu of %zu bytes", (unsigned long long)r.in_used, p.wn);
        buf o = do_patch(p.o, p.on, d.p, d.n, &s, &r);
        if (r.r != RS_DONE && p.sl >= 8) viol("job-did-not-finish", "patch ended with %d: %s; %s", r.r, pair_str(&p), sched_str(&s));
        (void)o;
        feat(s.inp * 31 + s.outp); feat((u64)s.inpol * 6 + (u64)s.outpol);
        ev("job_runs_to_completion", 4);
        if (r.calls) evmax("max_calls_per_byte_x100", 100 * r.calls / (d.n + o.n + 1));
    }
    rs_free_sumset(sig);
    if (p.wn) nontrivial();
    sample("%s: %d schedules, every call progressed and every job finished", pair_str(&p), reps);
}

/* ---------- C12 ---------- */
typedef struct { const u8 *p; size_t n; const delta *d; size_t k; u64 off; u64 calls, fail_at; int code; int mode; size_t maxreq; u8 *own; int blocked; int failed; u64 delivered; rs_buffers_t *bufs; u64 nshort, nown, nblk; } cbmon;
static rs_result mon_cb(void *op, rs_long_t pos, size_t *len, void **bp)
{
    cbmon *m = op;
    m->calls++;
    if (m->failed) viol("callback-after-error", "basis callback called again after it failed");
    if (*len == 0) viol("callback-zero", "basis callback asked for 0 bytes");
    /* find the current copy command */
    while (m->k < m->d->n && m->d->c[m->k].kind != C_COPY) m->k++;
    if (m->k >= m->d->n) viol("callback-outside-copy", "basis callback called with no copy command pending");
    const cmd *c = &m->d->c[m->k];
    if ((u64)pos != c->pos + m->off) viol("callback-position", "asked for position %jd, expected %llu (copy %llu+%llu, %llu done)", (intmax_t)pos, (unsigned long long)(c->pos + m->off), (unsigned long long)c->pos, (unsigned long long)c->len, (unsigned long long)m->off);
    if (*len > c->len - m->off) viol("callback-too-much", "asked for %zu bytes, %llu remain of the copy", *len, (unsigned long long)(c->len - m->off));
    if (m->bufs && *len > m->bufs->avail_out) viol("callback-beyond-output", "asked for %zu bytes with %zu output space", *len, m->bufs->avail_out);
    if (m->bufs && (char *)*bp != m->bufs->next_out) { /* allowed: any buffer of *len bytes */ }
    if (m->fail_at && m->calls == m->fail_at) {
        m->failed = 1;
        if (chance(1, 2)) { memset(*bp, 0xEE, *len); }
        if (chance(1, 2)) *len = (size_t)rn(*len + 1);
        return m->code;
    }
    if ((m->mode & 4) && chance(1, 3)) { m->nblk++; m->blocked = 1; return RS_BLOCKED; }
    size_t l = *len;
    if ((m->mode & 1) && chance(2, 3)) { l = 1 + (size_t)rn(l); }
    if (l < *len) m->nshort++;
    *len = l;
    memset(*bp, 0x99, 0);
    if ((m->mode & 2) && chance(1, 2)) {
        if (m->own) real_free(m->own);
        m->own = real_malloc(l); memcpy(m->own, m->p + (pos - (rs_long_t)vbase), l); *bp = m->own; m->nown++;
    } else memcpy(*bp, m->p + (pos - (rs_long_t)vbase), l);
    m->off += l; m->delivered += l;
    if (m->off == c->len) { m->off = 0; m->k++; }
    return RS_DONE;
}
void case_C12(u64 c)
{
    size_t bn = 1 + rsize(chance(1, 6) ? 100000 : 2000);
    u8 *b = xm(bn);
    rbytes(b, bn);
    buf d = { 0 };
    gen_vbase(bn, 1, 4);
    gen_valid_delta(&d, bn, chance(1, 6) ? 200000 : 5000, NULL);
    delta dd;
    ref_parse_delta(&dd, d.p, d.n);
    buf want = { 0 };
    ref_apply(d.p, d.n, b, bn, &want, NULL);
    cbmon m = { 0 };
    m.p = b; m.n = bn; m.d = &dd; m.mode = (int)rn(8);
    if (c % 3 == 2) {
        static const int codes[] = { RS_IO_ERROR, RS_INPUT_ENDED, RS_CORRUPT, RS_UNIMPLEMENTED, RS_MEM_ERROR, RS_PARAM_ERROR, RS_SYNTAX_ERROR, RS_BAD_MAGIC };
        m.fail_at = rr(1, 1 + rn(20)); m.code = chance(1, 6) ? (int)rr(109, 2000) : codes[rn(8)];     /* or one of the caller's own */
    }
    rs_job_t *j = rs_patch_begin(mon_cb, &m);
    buf got = { 0 };
    size_t ip = 0, have = 0; int done = 0; rs_result r = RS_BLOCKED; u64 calls = 0; int idle = 0;
    size_t inmax = 1 + rsize(3000), outmax = 1 + rsize(3000);
    while (!done) {
        size_t add = have > 4 * inmax + 100 ? 0 : (size_t)rn(inmax + 1); if (add > d.n - ip - have) add = d.n - ip - have;
        size_t k = have + add, o = (size_t)rn(outmax + 1);
        u8 *ib = real_malloc(k), *ob = real_malloc(o);
        memcpy(ib, d.p + ip, k);
        rs_buffers_t bu = { (char *)ib, k, ip + k == d.n, (char *)ob, o };
        m.bufs = &bu; m.blocked = 0;
        calls++;
        r = rs_job_iter(j, &bu);
        size_t used = (size_t)((u8 *)bu.next_in - ib), made = (size_t)((u8 *)bu.next_out - ob);
        if (used > k || made > o) viol("accounting", "consumed %zu of %zu, produced %zu of %zu", used, k, made, o);
        if (made) bput(&got, ob, made);
        real_free(ib); real_free(ob);
        ip += used; have = k - used;
        if (m.failed) {
            if ((int)r != m.code) viol("callback-error-lost", "callback failed with %d, job returned %d", m.code, r);
            done = 1;
        } else if (m.blocked && (r != RS_BLOCKED)) {
            viol("callback-blocked-lost", "callback blocked, job returned %d", r);
        } else if (r != RS_BLOCKED) done = 1;
        if (!used && !made) { if (++idle > 3000) viol("stalled", "no progress in 3000 calls"); } else idle = 0;
    }
    rs_job_free(j);
    real_free(m.own);
    if (m.failed) {
        if (got.n > want.n || (got.n && memcmp(got.p, want.p, got.n))) viol("output-after-error", "output before the failed callback differs from what was described");
        u64 q = 0; for (size_t i = 0; i < m.k && i < dd.n; i++) q += dd.c[i].len;
        q += m.off;
        if (got.n != q) viol("used-failed-data", "%zu bytes output, %llu were described and obtained before the failure", got.n, (unsigned long long)q);
        ev("callback_errors_propagated", 1);
    } else {
        if (r != RS_DONE) viol("unexpected-error", "patch returned %d", r);
        if (!beq(&got, &want)) viol("patch-output", "output differs at %zu (%zu vs %zu bytes)", firstdiff(got.p, got.n, want.p, want.n), got.n, want.n);
        while (m.k < dd.n && dd.c[m.k].kind != C_COPY) m.k++;
        if (m.k != dd.n || m.off) viol("copy-not-requested", "patch finished without requesting all copies");
        ev("patches_completed", 1);
    }
    ev("callback_calls", m.calls); ev("short_reads", m.nshort); ev("own_buffer_returns", m.nown); ev("callback_blocks", m.nblk);
    feat(dd.copy_cmds); feat(m.calls); feat(bn); feat(d.n);
    if (m.calls) nontrivial();
    sample("basis %zuB, delta with %llu copies: %llu callback calls, %llu short, %llu own buffer, %llu blocked -> %d", bn, (unsigned long long)dd.copy_cmds, (unsigned long long)m.calls, (unsigned long long)m.nshort, (unsigned long long)m.nown, (unsigned long long)m.nblk, r);
}
