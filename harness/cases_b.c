/* C13..C19: whole-file, resource, concurrency, statistics, parameters. */
#include "h.h"
#include <fcntl.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>

/* ---------- instrumented stdio streams ---------- */
typedef struct { u64 nops, at; int kind; int fired, fired_on, fired_op; int shorts; u64 limit; int err; } fplan;
typedef struct { const u8 *p; size_t n, pos; buf out; int closed_for_writing, failing, eof_after; fplan *pl; int id; u64 rbytes; } cstream;
enum { F_NONE, F_ONCE, F_FOREVER, F_THEN_EOF };
static int fault(cstream *s, int op)
{
    fplan *pl = s->pl;
    if (!pl) return 0;
    u64 k = pl->nops++;
    if (pl->nops > pl->limit) viol("endless-io", "more than %llu stream operations", (unsigned long long)pl->limit);
    if (pl->kind && k == pl->at) {
        pl->fired = 1; pl->fired_on = s->id; pl->fired_op = op;
        if (pl->kind == F_FOREVER) s->failing = 1;
        if (pl->kind == F_THEN_EOF) s->eof_after = 1;
        /* whatever reason is given for it */
        static const int errs[] = { EIO, EIO, EIO, ENOSPC, EAGAIN, EINTR, EPIPE, EDQUOT, ESPIPE, EINVAL, EOVERFLOW, EBADF, ENOENT, ENOMEM, 0 };
        pl->err = errs[rn(sizeof errs / sizeof *errs)];
        errno = pl->err;
        return 1;
    }
    if (s->failing) { errno = pl->err; return 1; }
    return 0;
}
static ssize_t cs_read(void *c, char *b, size_t n)
{
    cstream *s = c;
    if (s->eof_after) return 0;
    if (fault(s, 'r')) return -1;
    size_t k = s->n - s->pos;
    if (k > n) k = n;
    if (s->pl && s->pl->shorts && k) k = 1 + (size_t)rn(k < 300 ? k : chance(1, 2) ? 300 : k);
    if (k) memcpy(b, s->p + s->pos, k);
    s->pos += k;
    s->rbytes += k;
    return (ssize_t)k;
}
static ssize_t cs_write(void *c, const char *b, size_t n)
{
    cstream *s = c;
    from_libc(b, n);
    if (s->closed_for_writing) return (ssize_t)n;
    if (fault(s, 'w')) {
        if (s->pl->kind == F_THEN_EOF && n > 1 && s->pl->fired) {       /* disk full: part of it goes out */
            s->failing = 1;
            bput(&s->out, b, n / 2);
            return 0;
        }
        return 0;
    }
    bput(&s->out, b, n);
    return (ssize_t)n;
}
static int cs_seek(void *c, off64_t *off, int wh)
{
    cstream *s = c;
    if (fault(s, 's')) return -1;
    off64_t o = *off;
    if (wh == SEEK_CUR) o += (off64_t)s->pos; else if (wh == SEEK_END) o += (off64_t)s->n;
    if (o < 0) { errno = EINVAL; return -1; }
    s->pos = o > (off64_t)s->n ? s->n : (size_t)o;
    *off = o;
    return 0;
}
static FILE *cs_open(cstream *s, const char *mode, int vbuf)
{
    cookie_io_functions_t f = { cs_read, cs_write, cs_seek, NULL };
    FILE *fp = fopencookie(s, mode, f);
    if (!fp) harness_error("fopencookie");
    switch (vbuf) {
    case 0: break;
    case 1: setvbuf(fp, NULL, _IONBF, 0); break;
    case 2: setvbuf(fp, xm(512), _IOFBF, 1 + rn(512)); break;
    default: setvbuf(fp, xm(70000), _IOFBF, 70000); break;
    }
    return fp;
}
static void cs_close(FILE *f, cstream *s) { s->closed_for_writing = 1; if (s->pl) { s->pl = NULL; } s->failing = 0; fclose(f); }
static int rbuflen(void) { return chance(1, 3) ? 0 : chance(1, 4) ? (int)rr(1, 3) : (int)(1 + rsize(chance(1, 3) ? 200000 : 3000)); }

/* One whole-file operation over instrumented streams.
   op 0 sig, 1 load, 2 delta, 3 patch.  a: main input, b: basis for patch. */
typedef struct { int op; u32 magic; size_t bl, sl; const u8 *a; size_t an; const u8 *b; size_t bn; rs_signature_t *sig;     /* in for delta, out for load */
    rs_result r; buf out; rs_stats_t st; u64 nops; u64 inread; } wop;
static void wop_run(wop *o, fplan *pl, const int vb[3])
{
    cstream in = { .p = o->a, .n = o->an, .pl = pl, .id = 0 }, ba = { .p = o->b, .n = o->bn, .pl = pl, .id = 1 }, ou = { .pl = pl, .id = 2 };
    FILE *fi = cs_open(&in, "r", vb[0]), *fb = NULL, *fo = NULL;
    if (o->op == 3) fb = cs_open(&ba, "r", vb[1]);
    if (o->op != 1) fo = cs_open(&ou, "w", vb[2]);
    memset(&o->st, 0xEE, sizeof o->st);
    am_begin();
    switch (o->op) {
    case 0: o->r = rs_sig_file(fi, fo, o->bl, o->sl, o->magic, &o->st); break;
    case 1: o->sig = NULL; o->r = rs_loadsig_file(fi, &o->sig, &o->st); break;
    case 2: o->r = rs_delta_file(o->sig, fi, fo, &o->st); break;
    default: o->r = rs_patch_file(fb, fi, fo, &o->st); break;
    }
    am_end();
    if (o->op != 1) {
        if (o->r == RS_DONE) {
            /* what is still in the stdio buffer is the caller's to flush */
            fplan *save = ou.pl; ou.pl = NULL; int sf = ou.failing; ou.failing = 0;
            int pre = ferror(fo);
            if (sf || (save && save->fired && save->fired_on == 2)) { if (!pre) { /* error hidden inside stdio: let it show */ } }
            fflush(fo);
            ou.pl = save;
        }
        o->out = ou.out;
    }
    o->inread = in.rbytes;
    if (pl) o->nops = pl->nops;
    cs_close(fi, &in);
    if (fb) cs_close(fb, &ba);
    if (fo) cs_close(fo, &ou);
}
static const char *opname[] = { "rs_sig_file", "rs_loadsig_file", "rs_delta_file", "rs_patch_file" };

/* ---------- C13 ---------- */
static void c13_files(void);
void case_C13(u64 c)
{
    if (c % 25 == 11) { c13_files(); return; }
    pair p;
    gen_params(&p, 400, 8);
    if (!gen_longblocks(&p, 500)) gen_pair(&p, chance(1, 4) ? 60000 : 3000);
    rs_inbuflen = rbuflen(); rs_outbuflen = rbuflen();
    if (p.on + p.wn > 100000) { if (rs_inbuflen && rs_inbuflen < 256) rs_inbuflen += 256; if (rs_outbuflen && rs_outbuflen < 256) rs_outbuflen += 256; }
    int vb[3] = { (int)rn(4), (int)rn(4), (int)rn(4) };
    sched big = sched_big();
    buf sb = ref_signature(p.magic, p.bl, p.sl, p.o, p.on);
    rs_signature_t *sig = do_load(sb.p, sb.n, &big, NULL, 1);
    buf d = { 0 };
    if (chance(1, 2)) gen_valid_delta(&d, p.on, chance(1, 4) ? 60000 : 3000, NULL); else d = do_delta(sig, p.w, p.wn, &big, NULL);
    wop o = { .op = (int)(c % 4), .magic = p.magic, .bl = p.bl, .sl = p.sl };
    switch (o.op) {
    case 0: o.a = p.o; o.an = p.on; break;
    case 1: o.a = sb.p; o.an = sb.n; break;
    case 2: o.a = p.w; o.an = p.wn; o.sig = sig; break;
    default: o.a = d.p; o.an = d.n; o.b = p.o; o.bn = p.on;
    }
    buf want = { 0 };
    if (o.op == 0) want = sb;
    if (o.op == 2) want = do_delta(sig, p.w, p.wn, &big, NULL);
    if (o.op == 3 && ref_apply(d.p, d.n, p.o, p.on, &want, NULL)) harness_error("bad delta");
    int noframe = o.op == 2 && p.on == 0;
    u64 lim = 200000 + 40 * (p.on + p.wn + d.n + sb.n + want.n);
    /* fault-free reference run, with short reads */
    fplan pl = { .limit = lim, .shorts = chance(1, 2) };
    wop w = o;
    wop_run(&w, &pl, vb);
    u64 nops = pl.nops;
    if (w.r != RS_DONE) viol("fault-free-failed", "%s returned %d without any fault: %s in=%d out=%d", opname[o.op], w.r, pair_str(&p), rs_inbuflen, rs_outbuflen);
    if (noframe) { buf x = { 0 }; if (ref_apply(w.out.p, w.out.n, p.o, 0, &x, NULL) || x.n != p.wn || (x.n && memcmp(x.p, p.w, x.n))) viol("fault-free-output", "delta without blocks describes other data"); want = w.out; }
    else if (o.op != 1 && !beq(&w.out, &want)) viol("fault-free-output", "%s with short reads gives other output (%zu vs %zu bytes, first difference %zu): %s in=%d out=%d", opname[o.op], w.out.n, want.n, firstdiff(w.out.p, w.out.n, want.p, want.n), pair_str(&p), rs_inbuflen, rs_outbuflen);
    if (o.op == 1) { rs_free_sumset(w.sig); }
    ev("fault_free_runs", 1);
    int nk = 0;
    u64 cap = tier ? 240 : 48;
    for (u64 k = 0; k < nops; k++) {
        if (nops > cap && !chance((int)cap, (int)nops) && k > 6 && k + 4 < nops) continue;
        for (int kind = F_ONCE; kind <= F_THEN_EOF; kind++) {
            fplan f = { .limit = lim, .shorts = pl.shorts, .at = k, .kind = kind };
            wop x = o;
            logmon lm; memset(&lm, 0, sizeof lm); cur_log = &lm;
            wop_run(&x, &f, vb);
            cur_log = NULL;
            if (!f.fired) { ev("faults_not_reached", 1); if (x.op == 1) rs_free_sumset(x.sig); continue; }
            char nm[60]; snprintf(nm, sizeof nm, "faults_%s_%s", f.fired_op == 'r' ? (f.fired_on == 1 ? "basis_read" : "read") : f.fired_op == 'w' ? "write" : "seek", kind == F_ONCE ? "once" : kind == F_FOREVER ? "persistent" : "then_eof_or_full");
            ev(nm, 1);
            int ok = x.r == RS_DONE;
            if (ok) {
                int complete;
                if (x.op == 1) complete = (u64)x.st.sig_blocks == (sb.n - 12) / (4 + p.sl);
                else if (noframe) { buf y = { 0 }; complete = !ref_apply(x.out.p, x.out.n, p.o, 0, &y, NULL) && y.n == p.wn && (!y.n || !memcmp(y.p, p.w, y.n)); }
                else complete = beq(&x.out, &want);
                if (!complete) viol("fault-passed-for-success", "%s returned success with incomplete output (%zu of %zu bytes) after %s fault %c at operation %llu of %llu: %s in=%d out=%d vbuf=%d/%d/%d", opname[x.op], x.out.n, want.n,
                    kind == F_ONCE ? "one" : kind == F_FOREVER ? "a persistent" : "a final", f.fired_op, (unsigned long long)k, (unsigned long long)nops, pair_str(&p), rs_inbuflen, rs_outbuflen, vb[0], vb[1], vb[2]);
                if (kind == F_FOREVER || f.fired_op == 'w') viol("fault-not-reported", "%s returned success though %s failed at operation %llu: %s in=%d out=%d vbuf=%d/%d/%d", opname[x.op], f.fired_op == 'w' ? "a write" : "reads or seeks persistently", (unsigned long long)k, pair_str(&p), rs_inbuflen, rs_outbuflen, vb[0], vb[1], vb[2]);
                ev("faults_recovered_with_correct_output", 1);
            } else {
                ev("faults_reported", 1);
                if (x.r == RS_BLOCKED || x.r == RS_RUNNING || x.r == RS_INTERNAL_ERROR) viol("wrong-result", "%s returned %d after an I/O fault", opname[x.op], x.r);
                if (x.op != 1 && !noframe && (x.out.n > want.n || (x.out.n && memcmp(x.out.p, want.p, x.out.n)))) viol("garbage-written", "%s wrote something other than a prefix of its output before reporting the fault: %s", opname[x.op], pair_str(&p));
                if (!lm.n[RS_LOG_ERR] && !lm.n[RS_LOG_CRIT]) viol("fault-without-message", "%s failed with %d without any error message", opname[x.op], x.r);
            }
            if (x.op == 1) rs_free_sumset(x.sig);
            nk++;
        }
    }
    rs_free_sumset(sig);
    feat((u64)rs_inbuflen); feat((u64)rs_outbuflen); feat(c % 4); feat(nops); feat((u64)(vb[0] * 16 + vb[1] * 4 + vb[2]));
    if (nk) nontrivial();
    sample("%s: %s, buffers %d/%d: %llu stream operations, %d faults injected, all reported or harmless", opname[o.op], pair_str(&p), rs_inbuflen, rs_outbuflen, (unsigned long long)nops, nk);
}
/* Real descriptors that fail. */
static FILE *memfile(const u8 *p, size_t n)
{
    int fd = memfd_create("h", 0);
    if (fd < 0) harness_error("memfd_create");
    size_t k = 0;
    while (k < n) { ssize_t w = write(fd, p + k, n - k); if (w <= 0) harness_error("write"); k += (size_t)w; }
    lseek(fd, 0, SEEK_SET);
    FILE *f = fdopen(fd, "r+");
    if (!f) harness_error("fdopen");
    return f;
}
static void c13_files(void)
{
    pair p;
    gen_params(&p, 300, 8);
    p.on = p.wn = 0;
    gen_pair(&p, 200000);
    sched big = sched_big();
    buf sb = ref_signature(p.magic, p.bl, p.sl, p.o, p.on);
    rs_signature_t *sig = do_load(sb.p, sb.n, &big, NULL, 1);
    buf d = { 0 }; enc_magic(&d); u8 t[100]; rbytes(t, 100); enc_lit(&d, t, 100, 0); if (p.on) enc_copy(&d, 0, p.on, 0, 0); bputc(&d, 0);
    logmon lm; memset(&lm, 0, sizeof lm); cur_log = &lm;
    rs_result r; FILE *a, *o, *b; rs_signature_t *s2 = NULL;
#define MUSTFAIL(what) do { if (r == RS_DONE) viol("fault-passed-for-success", "%s succeeded", what); ev("failing_descriptors", 1); } while (0)
    /* output that cannot be written (unbuffered, so that the failure is inside the call) */
    for (int i = 0; i < 3; i++) {
        a = memfile(i == 0 ? p.o : i == 1 ? p.w : d.p, i == 0 ? p.on : i == 1 ? p.wn : d.n);
        b = memfile(p.o, p.on);
        o = fopen("/dev/full", "w"); if (!o) harness_error("/dev/full"); setvbuf(o, NULL, _IONBF, 0);
        r = i == 0 ? rs_sig_file(a, o, p.bl, p.sl, p.magic, NULL) : i == 1 ? rs_delta_file(sig, a, o, NULL) : rs_patch_file(b, a, o, NULL);
        MUSTFAIL("writing to a full device");
        fclose(o); o = fopen("/dev/null", "r"); rewind(a); rewind(b);
        r = i == 0 ? rs_sig_file(a, o, p.bl, p.sl, p.magic, NULL) : i == 1 ? rs_delta_file(sig, a, o, NULL) : rs_patch_file(b, a, o, NULL);
        MUSTFAIL("writing to a read-only stream");
        fclose(o); fclose(a); fclose(b);
    }
    /* input that cannot be read */
    for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) {
        a = k ? fopen("/", "r") : fopen("/dev/null", "w");
        if (!a) harness_error("open");
        o = memfile(NULL, 0); b = memfile(p.o, p.on);
        r = i == 0 ? rs_sig_file(a, o, p.bl, p.sl, p.magic, NULL) : i == 1 ? rs_delta_file(sig, a, o, NULL) : i == 2 ? rs_patch_file(b, a, o, NULL) : rs_loadsig_file(a, &s2, NULL);
        MUSTFAIL("reading a directory or write-only stream");
        if (i == 3) rs_free_sumset(s2);
        fclose(a); fclose(o); fclose(b);
    }
    /* basis that cannot be read or sought */
    if (p.on) for (int k = 0; k < 3; k++) {
        int pp[2];
        a = memfile(d.p, d.n); o = memfile(NULL, 0);
        if (k == 2) { if (pipe(pp)) harness_error("pipe"); if (write(pp[1], p.o, p.on < 4000 ? p.on : 4000) < 0) harness_error("write"); close(pp[1]); b = fdopen(pp[0], "r"); }
        else b = k ? fopen("/", "r") : fopen("/dev/null", "w");
        r = rs_patch_file(b, a, o, NULL);
        MUSTFAIL("a basis that cannot be read or sought");
        fclose(a); fclose(o); fclose(b);
    }
    /* a basis shorter than the delta needs */
    if (p.on) {
        a = memfile(d.p, d.n); o = memfile(NULL, 0); b = memfile(p.o, (size_t)rn(p.on));
        r = rs_patch_file(b, a, o, NULL);
        MUSTFAIL("a truncated basis");
        fclose(a); fclose(o); fclose(b);
    }
    if (!lm.n[RS_LOG_ERR]) viol("fault-without-message", "no message");
    rs_free_sumset(sig);
    feat(p.on); feat(p.wn); nontrivial();
}

/* ---------- C14 ---------- */
typedef struct { int fd; const u8 *p; size_t n; size_t step; } pw;
static void *pipe_writer(void *a)
{
    pw *w = a;
    size_t k = 0;
    while (k < w->n) { size_t m = w->n - k < w->step ? w->n - k : w->step; ssize_t x = write(w->fd, w->p + k, m); if (x <= 0) break; k += (size_t)x; }
    close(w->fd);
    return NULL;
}
typedef struct { FILE *f; int type; cstream cs; fplan pl; pw w; pthread_t th; const u8 *p; size_t n; size_t skip; } istream_;
static size_t is_prefix;
static void is_open(istream_ *s, int type, const u8 *p, size_t n)
{
    memset(s, 0, sizeof *s);
    s->type = type; s->p = p; s->n = n;
    switch (type) {
    case 0:
        if (is_prefix) {        /* the data begins further on in the file, where the stream stands */
            size_t k = is_prefix;
            u8 *t = xm(k + n);
            rbytes(t, k); if (n) memcpy(t + k, p, n);
            s->p = t; s->n = k + n; s->skip = k;
            s->f = memfile(t, k + n);
            if (chance(1, 2)) { if (fseeko(s->f, (off_t)k, SEEK_SET)) harness_error("seek"); }
            else while (k) { char z[512]; size_t m = k < sizeof z ? k : sizeof z; if (fread(z, 1, m, s->f) != m) harness_error("read"); k -= m; }
            ev("streams_already_advanced", 1);
        } else s->f = memfile(p, n);
        break;
    case 1: {
        int pp[2]; if (pipe(pp)) harness_error("pipe");
        s->w = (pw){ pp[1], p, n, 1 + rsize(70000) };
        if (n / s->w.step > 2000) s->w.step = n / 2000 + 1;
        if (pthread_create(&s->th, NULL, pipe_writer, &s->w)) harness_error("thread");
        s->f = fdopen(pp[0], "r"); break; }
    default: s->cs.p = p; s->cs.n = n; s->pl.limit = 1ull << 60; s->pl.shorts = type == 2; s->cs.pl = &s->pl; s->f = cs_open(&s->cs, "r", (int)rn(4)); break;
    }
}
static void is_close(istream_ *s, const char *what)
{
    if (s->type == 0) {
        struct stat st;
        if (fstat(fileno(s->f), &st) || (u64)st.st_size != s->n) viol("input-modified", "%s changed the size of its input file", what);
        u8 *t = real_malloc(s->n);
        ssize_t g = pread(fileno(s->f), t, s->n, 0);
        int bad = g != (ssize_t)s->n || (s->n && memcmp(t, s->p, s->n));
        real_free(t);
        if (bad) viol("input-modified", "%s changed the contents of its input file", what);
        ev("input_files_verified_unmodified", 1);
    }
    if (s->type == 1) { /* drain so that the writer ends */ char t[4096]; while (read(fileno(s->f), t, sizeof t) > 0) ; pthread_join(s->th, NULL); }
    if (s->type >= 2) s->cs.pl = NULL;
    fclose(s->f);
}
static buf slurp(FILE *f)
{
    buf b = { 0 };
    fflush(f);
    int fd = fileno(f); u8 t[65536]; off_t o = 0; ssize_t k;
    while ((k = pread(fd, t, sizeof t, o)) > 0) { bput(&b, t, (size_t)k); o += k; }
    return b;
}
static void cmp_out(const char *op, rs_result r, const buf *got, rs_result wr, const buf *want, int noframe, const pair *p, int type)
{
    if (r != wr) viol("result-differs", "%s returned %d, streaming returned %d: %s stream type %d in=%d out=%d", op, r, wr, pair_str(p), type, rs_inbuflen, rs_outbuflen);
    if (noframe) {
        buf a = { 0 }, b = { 0 };
        int x = ref_apply(got->p, got->n, NULL, 0, &a, NULL), y = ref_apply(want->p, want->n, NULL, 0, &b, NULL);
        if (x != y || !beq(&a, &b)) viol("bytes-differ", "%s without blocks describes other data than streaming: %s", op, pair_str(p));
    } else if (r == RS_DONE ? !beq(got, want) : (got->n > want->n || (got->n && memcmp(got->p, want->p, got->n))))
        viol("bytes-differ", "%s wrote %zu bytes, streaming %zu, first difference %zu: %s stream type %d in=%d out=%d", op, got->n, want->n, firstdiff(got->p, got->n, want->p, want->n), pair_str(p), type, rs_inbuflen, rs_outbuflen);
    ev("whole_file_runs_compared", 1);
    char k[48]; snprintf(k, sizeof k, "%s_stream_type_%d", op, type); ev(k, 1);
}
/* Output streams that already hold something: it stays, and the output comes behind it. */
static buf out_pre;
static FILE *out_open(void)
{
    out_pre = (buf){ 0 };
    if (chance(2, 3)) return memfile(NULL, 0);
    size_t k = (size_t)rr(1, 3000); u8 t[3000]; rbytes(t, k); bput(&out_pre, t, k);
    FILE *f = memfile(t, k);
    if (fseeko(f, (off_t)k, SEEK_SET)) harness_error("seek");
    ev("outputs_behind_other_data", 1);
    return f;
}
static buf out_slurp(FILE *f, const char *what)
{
    buf b = slurp(f);
    if (b.n < out_pre.n || (out_pre.n && memcmp(b.p, out_pre.p, out_pre.n))) viol("output-placed-wrongly", "%s did not write at the position its output stream had", what);
    if (out_pre.n) { b.p += out_pre.n; b.n -= out_pre.n; }
    return b;
}
#define ADVANCE() (is_prefix = chance(1, 3) ? (size_t)rr(1, 5000) : 0)
void case_C14(u64 c)
{
    pair p;
    gen_params(&p, chance(1, 6) ? 100000 : 2000, 1);
    gen_pair(&p, chance(1, 5) ? 400000 : 8000);
    int ti = (int)(c % 4);
    rs_inbuflen = rbuflen(); rs_outbuflen = rbuflen();
    if (p.on + p.wn > 50000) { if (rs_inbuflen && rs_inbuflen < 50) rs_inbuflen = 50; if (rs_outbuflen && rs_outbuflen < 50) rs_outbuflen = 50; }
    feat((u64)rs_inbuflen); feat((u64)rs_outbuflen);
    logmon lm; memset(&lm, 0, sizeof lm); cur_log = &lm;
    sched s = chance(1, 2) ? sched_big() : rsched();
    /* signature */
    size_t bl = p.bl, sl = p.sl; u32 mg = p.magic;
    switch (rn(6)) { case 0: bl = 0; break; case 1: sl = 0; break; case 2: bl = 0; sl = (size_t)-1; break; case 3: sl = 33 + rn(10); break; case 4: if (chance(1, 3)) mg = 0x72730100; else if (chance(1, 2)) mg = 0; break; default: break; }
    if (c / 8 % 40 == 7) {      /* block lengths far beyond the file */
        bl = chance(1, 4) ? 0x7fffffff : (size_t)rr(1 << 24, 0x7fffffff); ev("huge_block_lengths_asked_for", 1);
        if (rs_inbuflen && rs_inbuflen < 512) rs_inbuflen = 512;
        if (!rs_inbuflen && chance(3, 4)) rs_inbuflen = 4096;
    }
    istream_ is;
    ADVANCE();
    is_open(&is, ti, p.o, p.on);
    rs_long_t fs = ti == 0 ? (rs_long_t)is.n : -1;
    if (rs_file_size(is.f) != fs) viol("file-size", "rs_file_size gives %jd, expected %jd", (intmax_t)rs_file_size(is.f), (intmax_t)fs);
    FILE *o = out_open();
    rs_stats_t st;
    rs_result r = rs_sig_file(is.f, o, bl, sl, (rs_magic_number)mg, &st);
    buf got = out_slurp(o, "rs_sig_file"), want = { 0 };
    fclose(o);
    is_close(&is, "rs_sig_file");
    rs_magic_number m2 = (rs_magic_number)mg; size_t b2 = bl, s2 = sl;
    rs_result ar = rs_sig_args(fs, &m2, &b2, &s2);
    if (ar != RS_DONE) {
        if (r != ar || got.n) viol("bad-parameters", "rs_sig_file gives %d and %zu bytes for parameters rejected with %d", r, got.n, ar);
        ev("rejected_parameters", 1);
    } else {
        runres sr;
        want = do_sig(m2, b2, s2, p.o, p.on, &s, &sr);
        cmp_out("sig", r, &got, sr.r, &want, 0, &p, ti);
        if (ti == 0 && p.on) {   /* same size, other contents: same parameters */
            u8 *t = xm(p.on); rbytes(t, p.on);
            istream_ i2; is_open(&i2, 0, t, p.on); o = out_open();
            rs_sig_file(i2.f, o, bl, sl, (rs_magic_number)mg, NULL);
            buf g2 = out_slurp(o, "rs_sig_file"); fclose(o); is_close(&i2, "rs_sig_file");
            if (g2.n != got.n || memcmp(g2.p, got.p, 12)) viol("parameters-depend-on-contents", "files of the same size got different parameters");
            ev("same_size_pairs", 1);
        }
    }
    /* load, possibly damaged */
    buf sb = ref_signature(p.magic, p.bl, p.sl, p.o, p.on);
    buf ds = bdup(sb.p, sb.n);
    int damaged = chance(1, 3);
    if (damaged) { if (chance(1, 2)) ds.n = (size_t)rn(ds.n); else ds.p[rn(12)] ^= (u8)rr(1, 255); }
    rs_signature_t *sa = NULL, *sbb;
    ADVANCE();
    is_open(&is, (int)rn(4), ds.p, ds.n);
    r = rs_loadsig_file(is.f, &sa, &st);
    is_close(&is, "rs_loadsig_file");
    runres lr;
    sbb = do_load(ds.p, ds.n, &s, &lr, 0);
    if (r != lr.r) viol("result-differs", "rs_loadsig_file returned %d, streaming %d: %s in=%d", r, lr.r, pair_str(&p), rs_inbuflen);
    sched big = sched_big();
    if (r == RS_DONE && p.bl == (u32)st.block_len) {
        if (rs_build_hash_table(sa) || rs_build_hash_table(sbb)) viol("index-failed", "rs_build_hash_table failed");
        int nf = st.sig_blocks == 0;
        runres dr;
        want = do_delta(sbb, p.w, p.wn, &s, &dr);
        ADVANCE();
        is_open(&is, (int)rn(4), p.w, p.wn); o = out_open();
        r = rs_delta_file(sa, is.f, o, &st);
        got = out_slurp(o, "rs_delta_file"); fclose(o);
        int ty = is.type;
        is_close(&is, "rs_delta_file");
        cmp_out("delta", r, &got, dr.r, &want, nf, &p, ty);
        ev("loads_compared", 1);
    }
    rs_free_sumset(sa); rs_free_sumset(sbb);
    /* patch, possibly damaged */
    buf d = { 0 };
    if (chance(1, 2) && p.sl >= 8) { rs_signature_t *s3 = do_load(sb.p, sb.n, &big, NULL, 1); d = do_delta(s3, p.w, p.wn, &big, NULL); rs_free_sumset(s3); }
    else gen_valid_delta(&d, p.on, 30000, NULL);
    if (chance(1, 3)) { if (chance(1, 2)) d.n = (size_t)rn(d.n); else d.p[rn(d.n)] ^= (u8)rr(1, 255); }
    else if (chance(1, 4)) { u8 t[9]; rbytes(t, 9); bput(&d, t, 9); }
    runres pr;
    want = do_patch(p.o, p.on, d.p, d.n, &s, &pr);
    if (want.n < 4000000) {
        istream_ ib;
        is_prefix = 0;          /* positions in the basis count from its beginning, wherever the stream stands */
        is_open(&ib, chance(1, 2) ? 0 : 2, p.o, p.on);
        if (ib.type == 0 && chance(1, 2)) fseeko(ib.f, (off_t)rn(p.on + 2), SEEK_SET);
        ADVANCE();
        is_open(&is, (int)rn(4), d.p, d.n); o = out_open();
        r = rs_patch_file(ib.f, is.f, o, &st);
        got = out_slurp(o, "rs_patch_file"); fclose(o);
        int ty = is.type;
        is_close(&is, "rs_patch_file"); is_close(&ib, "rs_patch_file");
        cmp_out("patch", r, &got, pr.r, &want, 0, &p, ty);
    }
    nontrivial();
    sample("%s, stream type %d, buffers %d/%d: whole-file and streaming agree on signature, load, delta and patch (%d)", pair_str(&p), ti, rs_inbuflen, rs_outbuflen, pr.r);
}

/* ---------- C15 ---------- */
static void need_clean(const char *what, u64 at)
{
    if (am.live) viol("leak", "%s stopped after %llu calls: %llu blocks, %llu bytes not released", what, (unsigned long long)at, (unsigned long long)am.live, (unsigned long long)am.live_bytes);
    ev("stop_points_checked", 1);
}
static void drop_sig(rs_signature_t *s) { if (s) rs_free_sumset(s); }
void case_C15(u64 c)
{
    am_reset();
    pair p;
    gen_params(&p, 200, 1);
    if (!gen_longblocks(&p, 80)) gen_pair(&p, chance(1, 6) ? 60000 : 900);
    sched s = rsched(), big = sched_big();
    buf sb = ref_signature(p.magic, p.bl, p.sl, p.o, p.on);
    buf d = { 0 };
    gen_valid_delta(&d, p.on, 3000, NULL);
    int damage = chance(1, 2);
    buf ds = bdup(sb.p, sb.n), dd = bdup(d.p, d.n);
    if (damage) {
        if (chance(1, 2)) ds.n = (size_t)rn(ds.n); else ds.p[rn(12)] ^= (u8)rr(1, 255);
        if (chance(1, 2)) dd.n = (size_t)rn(dd.n); else dd.p[rn(dd.n)] ^= (u8)rr(1, 255);
    }
    if (c % 4 == 3) {           /* whole-file functions, with faults */
        rs_inbuflen = rbuflen(); rs_outbuflen = rbuflen();
        am_begin();
        rs_signature_t *sg = do_load(sb.p, sb.n, &big, NULL, 1);
        am_end();
        u64 base = am.live;
        int vb[3] = { (int)rn(4), (int)rn(4), (int)rn(4) };
        for (int op = 0; op < 4; op++) for (int k = 0; k < 6; k++) {
            wop o = { .op = op, .magic = p.magic, .bl = p.bl, .sl = p.sl, .sig = sg };
            switch (op) { case 0: o.a = p.o; o.an = p.on; break; case 1: o.a = ds.p; o.an = ds.n; break; case 2: o.a = p.w; o.an = p.wn; break; default: o.a = dd.p; o.an = dd.n; o.b = p.o; o.bn = p.on; }
            if (op == 0 && k == 5) o.sl = 99;
            fplan pl = { .limit = 10000000, .shorts = k & 1, .kind = k ? (int)rr(1, 3) : 0, .at = rn(1 + rn(60)) };
            wop_run(&o, &pl, vb);
            am_begin(); if (op == 1) drop_sig(o.sig); am_end();
            if (am.live != base) viol("leak", "%s returned %d with %llu blocks, %llu bytes not released (fault %d at %llu)", opname[op], o.r, (unsigned long long)(am.live - base), (unsigned long long)am.live_bytes, pl.kind, (unsigned long long)pl.at);
            ev("whole_file_runs_checked", 1);
        }
        am_begin(); rs_free_sumset(sg); am_end();
        need_clean("signature after whole-file runs", 0);
    } else {
        /* every stop point of each kind of job */
        u64 nsig = 1, nl = 1, nd = 1, np = 1;
        for (int kind = 0; kind < 4; kind++) {
            u64 total = 1;
            u64 cap = tier ? 400 : 60;
            for (u64 k = 0; k == 0 || k - 1 <= total; k++) {
                u64 stop = k ? k - 1 : 1000000;         /* first to the end, to know how many calls there are */
                if (k && total > cap && stop > 8 && stop + 3 < total && !chance((int)cap, (int)(total > 2000000000 ? 2000000000 : total))) continue;
                am_reset();
                rs_signature_t *sg = NULL;
                am_begin();
                rs_job_t *j; const u8 *in; size_t n;
                basis b = { .p = p.o, .n = p.on, .mode = (int)rn(4) };
                switch (kind) {
                case 0: j = rs_sig_begin(p.bl, p.sl, (rs_magic_number)p.magic); in = p.o; n = p.on; break;
                case 1: j = rs_loadsig_begin(&sg); in = ds.p; n = ds.n; contract_no_out = 1; break;
                case 2: sg = chance(1, 8) ? NULL : do_load(sb.p, sb.n, &big, NULL, 1); j = rs_delta_begin(sg); in = p.w; n = p.wn; break;
                default: if (chance(1, 6)) { b.fail_at = rr(1, 8); b.fail_code = RS_IO_ERROR; } j = rs_patch_begin(basis_cb, &b); in = dd.p; n = dd.n;
                }
                stepper st;
                step_init(&st, j, in, n, &s);
                u64 calls = 0;
                while (calls < stop && !step(&st)) calls++;
                if (!k) { total = calls; u64 wcap = (tier ? 200000 : 30000) / (total + 1) + 10; if (wcap < cap) cap = wcap; }
                int idx = kind == 1 && st.done && st.res.r == RS_DONE && chance(1, 2);
                contract_no_out = 0;
                rs_job_free(j);
                if (idx) rs_build_hash_table(sg);
                if (idx && chance(1, 4)) rs_build_hash_table(sg);
                drop_sig(sg);
                am_end();
                need_clean(kind == 0 ? "signature job" : kind == 1 ? "loadsig job" : kind == 2 ? "delta job" : "patch job", calls);
                ev("allocations_tracked", am.total);
                if (kind == 0) nsig = calls; else if (kind == 1) nl = calls; else if (kind == 2) nd = calls; else np = calls;
            }
        }
        feat(nsig); feat(nl); feat(nd); feat(np);
        sample("%s%s: stopped at every call up to %llu/%llu/%llu/%llu (sig/load/delta/patch); everything released; %s", pair_str(&p), damage ? " damaged" : "", (unsigned long long)nsig, (unsigned long long)nl, (unsigned long long)nd, (unsigned long long)np, sched_str(&s));
    }
    nontrivial();
}

/* ---------- C16 ---------- */
typedef struct { u64 n, pos; int kind; const u8 *blk; size_t bl; u64 wrote; u64 rs; const u8 *pre; size_t npre; const u8 *post; size_t npost; } vstream;
static u64 vhash(u64 x) { x ^= x >> 31; x *= 0x9e3779b97f4a7c15ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; return x ^ x >> 32; }
static void vfill(vstream *s, u8 *b, u64 pos, size_t n)
{
    size_t i = 0;
    switch (s->kind) {
    case 0: for (; i < n && ((pos + i) & 7); i++) b[i] = (u8)(vhash((pos + i) >> 3) >> (8 * ((pos + i) & 7)));
        for (; i + 8 <= n; i += 8) { u64 v = vhash((pos + i) >> 3); memcpy(b + i, &v, 8); }
        for (; i < n; i++) b[i] = (u8)(vhash((pos + i) >> 3) >> (8 * ((pos + i) & 7)));
        break;                  /* random */
    case 1: memset(b, 0, n); break;
    case 2: while (i < n) { size_t o = (size_t)((pos + i) % s->bl), k = s->bl - o; if (k > n - i) k = n - i; memcpy(b + i, s->blk + o, k); i += k; } break;    /* periodic */
    default: while (i < n) {    /* alternating blocks of the basis and random bytes */
        size_t period = s->bl + 13, o = (size_t)((pos + i) % period);
        if (o < s->bl) { size_t k = s->bl - o; if (k > n - i) k = n - i; memcpy(b + i, s->blk + o, k); i += k; }
        else { b[i] = (u8)vhash(pos + i); i++; }
    } }
}
static ssize_t vs_read(void *c, char *b, size_t n)
{
    vstream *s = c;
    u64 tot = s->npre + s->n + s->npost;
    if (s->pos >= tot) return 0;
    if (s->pos < s->npre) { size_t k = s->npre - (size_t)s->pos; if (k > n) k = n; memcpy(b, s->pre + s->pos, k); s->pos += k; return (ssize_t)k; }
    if (s->pos >= s->npre + s->n) { size_t o = (size_t)(s->pos - s->npre - s->n), k = s->npost - o; if (k > n) k = n; memcpy(b, s->post + o, k); s->pos += k; return (ssize_t)k; }
    if (n > s->npre + s->n - s->pos) n = (size_t)(s->npre + s->n - s->pos);
    vfill(s, (u8 *)b, s->pos - s->npre, n);
    s->pos += n;
    return (ssize_t)n;
}
static ssize_t vs_write(void *c, const char *b, size_t n) { (void)b; ((vstream *)c)->wrote += n; return (ssize_t)n; }
static int vs_seek(void *c, off64_t *o, int w) { vstream *s = c; if (w == SEEK_SET) s->pos = (u64)*o; else if (w == SEEK_CUR) { s->pos += (u64)*o; } else return -1; *o = (off64_t)s->pos; return 0; }
static FILE *vs_open(vstream *s, const char *m) { cookie_io_functions_t f = { vs_read, vs_write, vs_seek, NULL }; FILE *fp = fopencookie(s, m, f); if (!fp) harness_error("fopencookie"); setvbuf(fp, xm(65536), _IOFBF, 65536); return fp; }
/* a real file of n zero bytes between two pieces, with a hole for them */
static FILE *hole_open(const buf *pre, u64 n, const buf *post)
{
    int fd = memfd_create("h", 0);
    if (fd < 0 || ftruncate(fd, (off_t)(pre->n + n + post->n))) harness_error("memfd_create");
    if (pwrite(fd, pre->p, pre->n, 0) != (ssize_t)pre->n || pwrite(fd, post->p, post->n, (off_t)(pre->n + n)) != (ssize_t)post->n) harness_error("write");
    FILE *f = fdopen(fd, "r");
    if (!f) harness_error("fdopen");
    setvbuf(f, xm(65536), _IOFBF, 65536);
    ev("runs_on_real_files", 1);
    return f;
}
static int c16_real;
static u64 c16_run(int op, u64 n, pair *p, rs_signature_t *sg, int kind, u64 *outb)
{
    vstream in = { .n = n, .kind = kind, .blk = p->o, .bl = p->bl }, ou = { 0 }, ba = { .n = 1ull << 40, .kind = 0 };
    buf pre = { 0 }, post = { 0 };
    if (op == 3) {
        enc_magic(&pre);
        if (kind & 1) {         /* one huge literal */
            bputc(&pre, 0x44); bput_be(&pre, n, 8); bputc(&post, 0);
        } else { bputc(&pre, 0x54); bput_be(&pre, 5, 8); bput_be(&pre, n, 8); bputc(&post, 0); in.n = 0; }
        in.pre = pre.p; in.npre = pre.n; in.post = post.p; in.npost = post.n; in.kind = 0;
    }
    FILE *fi = c16_real ? hole_open(&pre, in.n, &post) : vs_open(&in, "r"), *fo = vs_open(&ou, "w"), *fb = c16_real ? hole_open(&post, n + 5, &post) : vs_open(&ba, "r");
    rs_stats_t st;
    u64 base = am.live_bytes;
    am.peak_bytes = base;
    am_begin();
    rs_result r = op == 0 ? rs_sig_file(fi, fo, p->bl, p->sl, (rs_magic_number)p->magic, &st) : op == 2 ? rs_delta_file(sg, fi, fo, &st) : rs_patch_file(fb, fi, fo, &st);
    am_end();
    fclose(fi); fclose(fo); fclose(fb);
    if (r != RS_DONE) viol("unexpected-error", "%s returned %d", opname[op], r);
    if (op == 3 && ou.wrote != n) viol("unexpected-output", "patch wrote %llu of %llu", (unsigned long long)ou.wrote, (unsigned long long)n);
    if (op == 2 && (u64)st.lit_bytes + (u64)st.copy_bytes != n) viol("unexpected-output", "delta describes %llu of %llu", (unsigned long long)(st.lit_bytes + st.copy_bytes), (unsigned long long)n);
    *outb = ou.wrote;
    return am.peak_bytes - base;
}
void case_C16(u64 c)
{
    am_reset();
    int op = (int)(c % 4);
    sched big = sched_big();
    pair p = { 0 };
    p.magic = MAGICS[rn(4)];
    if (op == 1) {              /* loading: proportional to the signature */
        p.sl = (u32)rr(1, magic_max(p.magic)); p.bl = 1 + (u32)rn(100000);
        u64 per[2]; u64 cnt[2] = { 200 + rn(2000), 0 }; cnt[1] = cnt[0] * rr(8, 20);
        for (int i = 0; i < 2; i++) {
            buf b = { 0 }; bput_be(&b, p.magic, 4); bput_be(&b, p.bl, 4); bput_be(&b, p.sl, 4);
            size_t bn = cnt[i] * (4 + p.sl); u8 *t = xm(bn); rbytes(t, bn); bput(&b, t, bn);
            am_reset();
            rs_signature_t *sg = NULL;
            int whole = (int)rn(2);
            am_begin();
            if (whole) { cstream cs = { .p = b.p, .n = b.n }; am_end(); FILE *f = cs_open(&cs, "r", 3); am_begin(); if (rs_loadsig_file(f, &sg, NULL)) viol("unexpected-error", "load failed"); am_end(); fclose(f); am_begin(); if (rs_build_hash_table(sg)) viol("unexpected-error", "index failed"); }
            else sg = do_load(b.p, b.n, &big, NULL, 1);
            am_end();
            per[i] = am.peak_bytes;
            am_begin(); rs_free_sumset(sg); am_end();
            if (per[i] > 65536 + cnt[i] * 40 * 6) viol("memory-too-big", "loading %llu blocks (%zu bytes) used %llu bytes", (unsigned long long)cnt[i], b.n, (unsigned long long)per[i]);
            evmax("loadsig_peak_bytes_per_block_x100", 100 * per[i] / cnt[i]);
            feat(cnt[i]);
        }
        /* a header that promises nothing must cost nothing */
        static const u32 BL[] = { 0x7fffffff, 0x40000000, 100000000 };
        buf b = { 0 }; bput_be(&b, p.magic, 4); bput_be(&b, BL[rn(3)], 4); bput_be(&b, p.sl, 4);
        u8 t[72]; rbytes(t, 72); bput(&b, t, 2 * (4 + p.sl));
        am_reset(); am_begin(); rs_signature_t *sg = do_load(b.p, b.n, &big, NULL, 1); rs_free_sumset(sg); am_end();
        if (am.peak_bytes > 65536) viol("memory-too-big", "loading a two-block signature used %llu bytes", (unsigned long long)am.peak_bytes);
        nontrivial();
        sample("loading %llu and %llu blocks: peak %llu and %llu bytes", (unsigned long long)cnt[0], (unsigned long long)cnt[1], (unsigned long long)per[0], (unsigned long long)per[1]);
        return;
    }
    p.bl = op == 2 ? (u32)rr(64, 4000) : (u32)rr(16, 20000);
    if (chance(1, 6)) p.bl = (u32)rr(100000, 1000000);
    p.sl = (u32)rr(8, magic_max(p.magic));
    int nb = (int)rr(1, 60);
    p.on = (size_t)nb * p.bl; p.o = xm(p.on); rbytes(p.o, p.on);
    int kind = (int)(c / 4 % 4);
    rs_signature_t *sg = NULL;
    u64 sigbytes = 0;
    if (op == 2) {
        buf sb = ref_signature(p.magic, p.bl, p.sl, p.o, p.on);
        am_begin(); sg = do_load(sb.p, sb.n, &big, NULL, 1); am_end();
        sigbytes = am.live_bytes;
    }
    if (chance(1, 2)) { rs_inbuflen = (int)rr(1000, 300000); rs_outbuflen = (int)rr(1000, 300000); }
    c16_real = chance(1, 3);
    u64 n1 = (3u << 20) + 4 * p.bl, n2 = n1 * (tier ? 60 : 12), o1, o2;
    if (op == 3 && tier) n2 = n1 * 600;
    u64 a = c16_run(op, n1, &p, sg, kind, &o1), b = c16_run(op, n2, &p, sg, kind, &o2);
    /* Buffers grow in steps to what buffer and block sizes need, and when the largest step comes depends on the contents: only going past that, again and again, is growth. */
    u64 steps = 4 * ((u64)rs_inbuflen + (u64)rs_outbuflen + p.bl + 65536), o3;
    if (b > a + a / 4 + 8192 && b > steps) {
        u64 n3 = n2 * 4, d = c16_run(op, n3, &p, sg, kind, &o3);
        if (d > b + b / 4 + 8192) viol("memory-grows", "%s: peak %llu bytes for %llu input bytes, %llu for %llu, %llu for %llu (block length %u, content %d, buffers %d/%d)", opname[op], (unsigned long long)a, (unsigned long long)n1, (unsigned long long)b, (unsigned long long)n2, (unsigned long long)d, (unsigned long long)n3, p.bl, kind, rs_inbuflen, rs_outbuflen);
    }
    u64 lim = 40ull * p.bl + 8ull * (65536 + (u64)rs_inbuflen + (u64)rs_outbuflen) + (1 << 20);
    if (b > lim) viol("memory-too-big", "%s: peak %llu bytes, block length %u, buffers %d/%d", opname[op], (unsigned long long)b, p.bl, rs_inbuflen, rs_outbuflen);
    if (sg) { if (am.live_bytes != sigbytes) viol("leak", "using a signature changed the memory held from %llu to %llu bytes", (unsigned long long)sigbytes, (unsigned long long)am.live_bytes); rs_free_sumset(sg); }
    ev("bytes_streamed", n1 + n2); evmax("peak_heap_bytes", b);
    feat(p.bl); feat((u64)op); feat((u64)kind); nontrivial();
    sample("%s of content %d, block length %u: peak heap %llu bytes for %lluB, %llu bytes for %lluB", opname[op], kind, p.bl, (unsigned long long)a, (unsigned long long)n1, (unsigned long long)b, (unsigned long long)n2);
}

/* ---------- C17 ---------- */
void seed_rng(u64 s);
void set_worker(int on);
typedef struct { u64 seed; buf sig, delta, out, misc; pthread_barrier_t *bar; int id; u64 jobs; } tjob;
static void t_work(tjob *t)
{
    seed_rng(t->seed);
    buf z = { 0 };
    t->sig = t->delta = t->out = t->misc = z;
    int iters = tier ? 12 : 4;
    for (int it = 0; it < iters; it++) {
        pair p;
        gen_params(&p, 500, 8);
        gen_pair(&p, 6000);
        sched s = rsched();
        logmon lm; memset(&lm, 0, sizeof lm); cur_log = &lm;
        rs_magic_number mg = (rs_magic_number)(chance(1, 4) ? 0 : p.magic); size_t bl = chance(1, 3) ? 0 : p.bl, sl = chance(1, 3) ? (size_t)-1 : p.sl;
        if (mg == 0 && sl > 32 && sl != (size_t)-1) sl = 32;
        rs_result ar = rs_sig_args((rs_long_t)p.on, &mg, &bl, &sl);
        bput(&t->misc, &ar, sizeof ar); bput(&t->misc, &bl, sizeof bl); bput(&t->misc, &sl, sizeof sl);
        buf sb = do_sig(p.magic, p.bl, p.sl, p.o, p.on, &s, NULL);
        bput(&t->sig, sb.p, sb.n);
        rs_signature_t *sig = do_load(sb.p, sb.n, &s, NULL, 1);
        buf d = do_delta(sig, p.w, p.wn, &s, NULL);
        if (p.on) bput(&t->delta, d.p, d.n);
        buf o = do_patch(p.o, p.on, d.p, d.n, &s, NULL);
        bput(&t->out, o.p, o.n);
        if (o.n != p.wn || (o.n && memcmp(o.p, p.w, o.n))) viol("round-trip-differs", "in a thread: %s", pair_str(&p));
        /* a failing job */
        runres r;
        if (d.n > 1) { do_patch(p.o, p.on, d.p, d.n - 1, &s, &r); if (r.r != RS_INPUT_ENDED) viol("wrong-error", "truncated delta gives %d in a thread", r.r); if (!lm.total) viol("message-lost", "no message in this thread's log"); }
        do_load(sb.p, sb.n > 12 ? sb.n - 1 : 11, &s, &r, 0) ? (void)0 : (void)0;
        /* whole-file */
        int vb[3] = { (int)rn(4), (int)rn(4), (int)rn(4) };
        wop w = { .op = 0, .a = p.o, .an = p.on, .magic = p.magic, .bl = p.bl, .sl = p.sl };
        wop_run(&w, NULL, vb); if (w.r || !beq(&w.out, &sb)) viol("whole-file-differs", "rs_sig_file in a thread (%d)", w.r);
        wop l = { .op = 1, .a = sb.p, .an = sb.n }; wop_run(&l, NULL, vb); if (l.r) viol("whole-file-differs", "rs_loadsig_file in a thread (%d)", l.r);
        rs_build_hash_table(l.sig);
        wop dl = { .op = 2, .a = p.w, .an = p.wn, .sig = l.sig }; wop_run(&dl, NULL, vb); if (dl.r || (p.on && !beq(&dl.out, &d))) viol("whole-file-differs", "rs_delta_file in a thread (%d)", dl.r);
        wop pt = { .op = 3, .a = d.p, .an = d.n, .b = p.o, .bn = p.on }; wop_run(&pt, NULL, vb); if (pt.r || !beq(&pt.out, &o)) viol("whole-file-differs", "rs_patch_file in a thread (%d)", pt.r);
        rs_free_sumset(l.sig);
        char fs[300]; pt.st.start = pt.st.end = 0; rs_format_stats(&pt.st, fs, sizeof fs); bput(&t->misc, fs, strlen(fs));
        rs_log_stats(&pt.st); rs_signature_log_stats(sig); rs_sumset_dump(sig);
        for (int e = 0; e < 12; e++) { const char *x = rs_strerror((rs_result)(chance(1, 2) ? e : 100 + e)); bput(&t->misc, x, strlen(x)); }
        u8 md[16]; rs_mdfour(md, p.o, p.on); bput(&t->misc, md, 16);
        char hx[40]; rs_hexify(hx, md, 16); bput(&t->misc, hx, 32);
        char b6[40]; rs_base64(md, 16, b6); bput(&t->misc, b6, strlen(b6)); size_t ub = rs_unbase64(b6); bput(&t->misc, b6, ub);
        rs_free_sumset(sig);
        t->jobs += 12;
    }
    cur_log = NULL;
}
static void *t_main(void *a)
{
    tjob *t = a;
    set_worker(1);
    pthread_barrier_wait(t->bar);
    t_work(t);
    return NULL;        /* memory of the case stays with the thread until the process ends */
}
void case_C17(u64 c)
{
    int nt = (int)rr(2, 12);
    u64 base = rnd();
    tjob *t = xm(sizeof *t * (size_t)nt);
    pthread_t *th = xm(sizeof *th * (size_t)nt);
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, NULL, (unsigned)nt);
    rs_trace_set_level(chance(1, 2) ? RS_LOG_DEBUG : RS_LOG_INFO);
    rs_inbuflen = rbuflen(); rs_outbuflen = rbuflen();
    if (rs_inbuflen && rs_inbuflen < 20) rs_inbuflen += 20;
    if (rs_outbuflen && rs_outbuflen < 20) rs_outbuflen += 20;
    for (int i = 0; i < nt; i++) { memset(&t[i], 0, sizeof t[i]); t[i].seed = c % 3 == 0 ? base : mixh(base, (u64)i); t[i].bar = &bar; t[i].id = i; }
    for (int i = 0; i < nt; i++) if (pthread_create(&th[i], NULL, t_main, &t[i])) harness_error("thread");
    for (int i = 0; i < nt; i++) pthread_join(th[i], NULL);
    pthread_barrier_destroy(&bar);
    /* the same alone */
    for (int i = 0; i < nt; i++) {
        if (i > 1 && !tier && c % 4) continue;
        tjob a = { .seed = t[i].seed };
        t_work(&a);
        if (!beq(&a.sig, &t[i].sig)) viol("signature-differs", "thread %d of %d produced another signature than alone", i, nt);
        if (!beq(&a.delta, &t[i].delta)) viol("delta-differs", "thread %d of %d produced another delta than alone", i, nt);
        if (!beq(&a.out, &t[i].out)) viol("patch-differs", "thread %d of %d produced other output than alone", i, nt);
        if (!beq(&a.misc, &t[i].misc)) viol("helpers-differ", "thread %d of %d got other helper results than alone", i, nt);
        ev("threads_compared_with_serial_run", 1);
    }
    u64 jobs = 0; for (int i = 0; i < nt; i++) jobs += t[i].jobs;
    ev("threads_run", (u64)nt); ev("jobs_run_concurrently", jobs);
    evset("thread_counts", (u64)nt);
    feat(base); nontrivial();
    sample("%d threads, %llu jobs and helper calls at once (%s data): results as alone", nt, (unsigned long long)jobs, c % 3 == 0 ? "equal" : "distinct");
}

/* ---------- C18 ---------- */
static void stats_vs_delta(const char *who, const rs_stats_t *s, const delta *d, u64 newlen)
{
#define EQ(f, v) if ((u64)s->f != (v)) viol("statistics-" #f, "%s: " #f " is %lld, the delta has %llu", who, (long long)s->f, (unsigned long long)(v))
    EQ(lit_cmds, d->lit_cmds); EQ(lit_bytes, d->lit_bytes); EQ(lit_cmdbytes, d->lit_cmdbytes);
    EQ(copy_cmds, d->copy_cmds); EQ(copy_bytes, d->copy_bytes); EQ(copy_cmdbytes, d->copy_cmdbytes);
    if ((u64)(s->lit_bytes + s->copy_bytes) != newlen) viol("statistics-total", "%s: %lld literal and %lld copied bytes for a new file of %llu", who, (long long)s->lit_bytes, (long long)s->copy_bytes, (unsigned long long)newlen);
    ev("statistics_compared", 1);
}
/* when a job was begun and when it finished, however it finished */
static void c18_times(void)
{
    pair p; sched big = sched_big();
    gen_params(&p, 500, 8); gen_pair(&p, 3000);
    buf sb = ref_signature(p.magic, p.bl, p.sl, p.o, p.on), d = { 0 };
    gen_valid_delta(&d, p.on, 2000, NULL);
    rs_signature_t *sig = do_load(sb.p, sb.n, &big, NULL, 1), *l[2] = { 0 };
    basis b = { .p = p.o, .n = p.on };
    struct { rs_job_t *j; const u8 *in; size_t n; rs_result want; } J[7] = {
        { NULL, p.o, p.on, RS_DONE }, { NULL, sb.p, sb.n, RS_DONE }, { NULL, p.w, p.wn, RS_DONE }, { NULL, d.p, d.n, RS_DONE },
        { NULL, sb.p, 11, RS_INPUT_ENDED }, { NULL, sb.p, sb.n, RS_BAD_MAGIC }, { NULL, d.p, 4, RS_INPUT_ENDED } };
    time_t t0 = time(NULL);
    J[0].j = rs_sig_begin(p.bl, p.sl, (rs_magic_number)p.magic); J[1].j = rs_loadsig_begin(&l[0]); J[2].j = rs_delta_begin(sig); J[3].j = rs_patch_begin(basis_cb, &b);
    J[4].j = rs_loadsig_begin(&l[1]); J[5].j = rs_patch_begin(basis_cb, &b); J[6].j = rs_patch_begin(basis_cb, &b);
    time_t t1 = time(NULL);
    struct timespec ts = { 2, 200000000 };
    while (nanosleep(&ts, &ts)) ;
    u8 *ob = real_malloc(200000);
    for (int i = 0; i < 7; i++) {
        time_t t2 = time(NULL);
        rs_buffers_t io = { (char *)J[i].in, J[i].n, 1, (char *)ob, i == 1 || i == 4 ? 0 : 200000 };
        rs_result r = rs_job_iter(J[i].j, &io);
        time_t t3 = time(NULL);
        if (r != J[i].want) viol("unexpected-error", "job %d returned %d", i, r);
        const rs_stats_t *st = rs_job_statistics(J[i].j);
        if (st->start < t0 || st->start > t1 || st->end < t2 || st->end > t3) viol("statistics-times", "job %d was begun at %ld to %ld and finished (%d) at %ld to %ld, its statistics say %ld and %ld", i, (long)t0, (long)t1, r, (long)t2, (long)t3, (long)st->start, (long)st->end);
        rs_job_free(J[i].j);
        ev("job_times_checked", 1);
    }
    real_free(ob);
    rs_free_sumset(sig); rs_free_sumset(l[0]); if (l[1]) rs_free_sumset(l[1]);
    nontrivial(); feat(p.on);
}
/* an operation that fails states what was done until then */
static void c18_failed(const pair *p, const buf *sb, const buf *d)
{
    int vb[3] = { (int)rn(4), (int)rn(4), 1 };
    int op = chance(1, 3) ? 1 : 3;
    const buf *from = op == 1 ? sb : d;
    buf x = bdup(from->p, from->n);
    int cut = chance(2, 3);
    if (cut) x.n = (size_t)rn(x.n); else if (x.n) x.p[(size_t)rn(x.n)] ^= (u8)rr(1, 255);
    sched big = sched_big(); runres r;
    if (op == 1) { rs_signature_t *sg = do_load(x.p, x.n, &big, &r, 0); if (sg) rs_free_sumset(sg); }
    else do_patch(p->o, p->on, x.p, x.n, &big, &r);
    wop o = { .op = op, .a = x.p, .an = x.n, .b = p->o, .bn = p->on };
    fplan pl = { .limit = 1ull << 60, .shorts = chance(1, 2) };
    rs_inbuflen = rbuflen(); rs_outbuflen = rbuflen();
    time_t t0 = time(NULL);
    wop_run(&o, &pl, vb);
    time_t t1 = time(NULL);
    if (op == 1 && o.sig) rs_free_sumset(o.sig);
    if (o.r != r.r) viol("result-differs", "%s returned %d, the job by hand %d", opname[op], o.r, r.r);
    if (o.r == RS_DONE) return;
    rs_stats_t none; memset(&none, 0xEE, sizeof none);
    if (!memcmp(&none.op, &o.st.op, sizeof none.op) || !o.st.op) viol("statistics-of-failure", "%s returned %d and left no statistics", opname[op], o.r);
    if (op == 3 ? strcmp(o.st.op, "patch") : !strstr(o.st.op, "sig")) viol("statistics-op", "%s: statistics name '%s'", opname[op], o.st.op);
    if (o.st.lit_cmds != r.stats.lit_cmds || o.st.lit_bytes != r.stats.lit_bytes || o.st.lit_cmdbytes != r.stats.lit_cmdbytes || o.st.copy_cmds != r.stats.copy_cmds
        || o.st.copy_bytes != r.stats.copy_bytes || o.st.copy_cmdbytes != r.stats.copy_cmdbytes || o.st.sig_blocks != r.stats.sig_blocks)
        viol("statistics-of-failure", "%s of damaged input (result %d): %jd literals of %jd, %jd copies of %jd, %jd blocks, by hand %jd of %jd, %jd of %jd, %jd", opname[op], o.r, (intmax_t)o.st.lit_cmds, (intmax_t)o.st.lit_bytes,
            (intmax_t)o.st.copy_cmds, (intmax_t)o.st.copy_bytes, (intmax_t)o.st.sig_blocks, (intmax_t)r.stats.lit_cmds, (intmax_t)r.stats.lit_bytes, (intmax_t)r.stats.copy_cmds, (intmax_t)r.stats.copy_bytes, (intmax_t)r.stats.sig_blocks);
    if ((u64)o.st.in_bytes > x.n || (o.r == RS_INPUT_ENDED && cut && o.st.in_bytes != (rs_long_t)x.n && op == 1)) viol("statistics-in_bytes", "%s failing with %d: in_bytes %jd, input has %zu bytes", opname[op], o.r, (intmax_t)o.st.in_bytes, x.n);
    if (op == 3 && (u64)o.st.out_bytes != o.out.n) viol("statistics-out_bytes", "%s failing with %d: out_bytes %jd, %zu bytes written", opname[op], o.r, (intmax_t)o.st.out_bytes, o.out.n);
    if (o.st.start < t0 - 1 || o.st.end > t1 + 1 || o.st.start > o.st.end) viol("statistics-times", "%s failing with %d: began %jd, ended %jd, between %jd and %jd", opname[op], o.r, (intmax_t)o.st.start, (intmax_t)o.st.end, (intmax_t)t0, (intmax_t)t1);
    ev("statistics_of_failures", 1);
}
void case_C18(u64 c)
{
    pair p;
    if (c % 27720000 < 2) { c18_times(); return; }
    gen_params(&p, chance(1, 6) ? 80000 : 2000, 8);
    if (!gen_manyblocks(&p, 200)) gen_pair(&p, chance(1, 6) ? 300000 : 8000);
    sched s = chance(1, 2) ? sched_big() : rsched(), big = sched_big();
    runres r;
    buf sb = do_sig(p.magic, p.bl, p.sl, p.o, p.on, &s, &r);
    expect_done("signature", &r);
    u64 nb = (p.on + p.bl - 1) / p.bl;
    const rs_stats_t *st = &r.stats;
    if ((u64)st->sig_blocks != nb || st->block_len != p.bl) viol("statistics-signature", "signature job: %jd blocks of %zu, expected %llu of %u", (intmax_t)st->sig_blocks, st->block_len, (unsigned long long)nb, p.bl);
    if (strcmp(st->op, "signature")) viol("statistics-op", "signature job statistics name '%s'", st->op);
    if (st->lit_cmds || st->copy_cmds || st->lit_bytes || st->copy_bytes) viol("statistics-signature", "signature job counts literals or copies");
    rs_signature_t *sig = do_load(sb.p, sb.n, &s, &r, 1);
    expect_done("loadsig", &r);
    if ((u64)r.stats.sig_blocks != nb || r.stats.block_len != p.bl) viol("statistics-loadsig", "loadsig job: %jd blocks of %zu, expected %llu of %u", (intmax_t)r.stats.sig_blocks, r.stats.block_len, (unsigned long long)nb, p.bl);
    if (!strstr(r.stats.op, "sig") || !strcmp(r.stats.op, "signature")) viol("statistics-op", "loadsig job statistics name '%s'", r.stats.op);
    rs_signature_t *use = chance(1, 12) ? NULL : sig;
    buf d = do_delta(use, p.w, p.wn, &s, &r);
    expect_done("delta", &r);
    delta dd; ref_parse_delta(&dd, d.p, d.n);
    if (dd.err || dd.used != d.n) viol("malformed-delta", "delta does not parse");
    stats_vs_delta("delta job", &r.stats, &dd, p.wn);
    if (r.stats.start > r.stats.end || strcmp(r.stats.op, "delta")) viol("statistics-op", "delta job statistics name '%s', ended %ld before it started", r.stats.op, (long)(r.stats.start - r.stats.end));
    do_patch(p.o, p.on, d.p, d.n, &s, &r);
    expect_done("patch", &r);
    if (strcmp(r.stats.op, "patch")) viol("statistics-op", "patch job statistics name '%s'", r.stats.op);
    stats_vs_delta("patch job", &r.stats, &dd, p.wn);
    /* deltas librsync would not write */
    buf vd = { 0 }; u64 ol;
    if (chance(1, 2)) {
        gen_vbase(p.on, 1, 1);
        gen_valid_delta(&vd, p.on, 20000, &ol);
        delta x; ref_parse_delta(&x, vd.p, vd.n);
        do_patch(p.o, p.on, vd.p, vd.n, &s, &r);
        expect_done("patch", &r);
        stats_vs_delta("patch job, distant basis", &r.stats, &x, ol);
        vbase = 0; vd.n = 0;
    }
    gen_valid_delta(&vd, p.on, 20000, &ol);
    delta vdd; ref_parse_delta(&vdd, vd.p, vd.n);
    do_patch(p.o, p.on, vd.p, vd.n, &s, &r);
    expect_done("patch", &r);
    stats_vs_delta("patch job, foreign delta", &r.stats, &vdd, ol);
    /* whole files */
    rs_inbuflen = rbuflen(); rs_outbuflen = rbuflen();
    int vb[3] = { (int)rn(4), (int)rn(4), (int)rn(4) };
    for (int op = 0; op < 4; op++) {
        wop o = { .op = op, .magic = p.magic, .bl = p.bl, .sl = p.sl, .sig = sig };
        switch (op) { case 0: o.a = p.o; o.an = p.on; break; case 1: o.a = sb.p; o.an = sb.n; break; case 2: o.a = p.w; o.an = p.wn; break; default: o.a = vd.p; o.an = vd.n; o.b = p.o; o.bn = p.on; }
        fplan pl = { .limit = 1ull << 60, .shorts = chance(1, 2) };
        wop_run(&o, &pl, vb);
        if (o.r) viol("unexpected-error", "%s returned %d", opname[op], o.r);
        if ((u64)o.st.in_bytes != o.an) viol("statistics-in_bytes", "%s: in_bytes %jd, input has %zu bytes", opname[op], (intmax_t)o.st.in_bytes, o.an);
        if ((u64)o.st.out_bytes != o.out.n) viol("statistics-out_bytes", "%s: out_bytes %jd, %zu bytes written", opname[op], (intmax_t)o.st.out_bytes, o.out.n);
        if (op < 2 && ((u64)o.st.sig_blocks != nb || o.st.block_len != p.bl)) viol("statistics-signature", "%s: %jd blocks of %zu, expected %llu of %u", opname[op], (intmax_t)o.st.sig_blocks, o.st.block_len, (unsigned long long)nb, p.bl);
        if (op == 2) { delta x; ref_parse_delta(&x, o.out.p, o.out.n); stats_vs_delta("rs_delta_file", &o.st, &x, p.wn); }
        if (op == 3) stats_vs_delta("rs_patch_file", &o.st, &vdd, ol);
        if (op == 1) rs_free_sumset(o.sig);
        ev("whole_file_statistics", 1);
    }
    for (int k = 0; k < 2; k++) c18_failed(&p, &sb, chance(1, 2) ? &d : &vd);
    rs_free_sumset(sig);
    ev("commands_accounted", dd.n + vdd.n);
    feat(dd.n); feat(vdd.n); feat(c % 7);
    if (dd.n) nontrivial();
    sample("%s: %llu literal and %llu copy commands accounted exactly by delta, patch and whole-file statistics", pair_str(&p), (unsigned long long)dd.lit_cmds, (unsigned long long)dd.copy_cmds);
}

/* ---------- C19 ---------- */
static int ln2(u64 v) { int n = 0; while (v >>= 1) n++; return n; }
static u64 isqrt(u64 v) { u64 lo = 0, hi = 3037000500ull; while (lo < hi) { u64 m = (lo + hi + 1) / 2; if (m * m <= v) lo = m; else hi = m - 1; } return lo; }
static u64 size_pick(void)
{
    switch (rn(8)) {
    case 0: return rn(70000);
    case 1: { u64 r = rn(1ull << rr(1, 31)); u64 v = r * r + rn(5); return v > 2 ? v - 2 : v; }
    case 2: { u64 r = 128 * rn(1ull << rr(1, 24)); u64 v = r * r + rn(5); return v > 2 ? v - 2 : v; }
    case 3: { u64 v = 1ull << rn(63); v += rn(5); return v > 2 ? v - 2 : v; }
    case 4: { u64 v = (1ull << rr(8, 62)); u64 k = v > (1ull << 24) ? v - (1ull << 24) : v; k += rn(5); return k > 2 ? k - 2 : k; }
    case 5: return rconst() & ((1ull << 63) - 1);
    case 6: { u64 t = (u64)INT64_MAX - (rnd() >> rr(1, 63)); return chance(1, 2) ? t : (u64)INT64_MAX - rn(1 << 26); }
    default: return rnd() >> rr(1, 60);
    }
}
void case_C19(u64 c)
{
    int reps = 400;
    logmon lm; memset(&lm, 0, sizeof lm); cur_log = &lm;
    rs_trace_set_level(RS_LOG_WARNING);
    u64 accepted = 0, rejected = 0;
    for (int k = 0; k < reps; k++) {
        rs_long_t fs = chance(1, 6) ? -1 : (rs_long_t)size_pick();
        u32 mg; size_t bl, sl;
        static const u32 BADM[] = { 1, 0x72730135, 0x72730138, 0x72730145, 0x72730148, 0x72730236, 0x80000000, 0xffffffff };
        mg = chance(1, 12) ? (chance(1, 2) ? BADM[rn(8)] : (u32)rnd()) : chance(1, 5) ? 0 : MAGICS[rn(4)];
        switch (rn(8)) {
        case 0: case 1: bl = 0; break;
        case 2: bl = (size_t)rnd() >> rr(0, 60); break;
        case 3: bl = (size_t)1 << rn(64); bl += (size_t)rn(3) - 1; break;
        case 4: { static const u64 B[] = { 0x7fffffff, 0x80000000, 0x7ffffffe, 0x7fffff80, 0xffffffff, 0x100000000ull, ~0ull, ~0ull - 1, 1, 127, 128, 255, 256, 257 }; bl = B[rn(14)]; break; }
        default: bl = 1 + rsize(1000000);
        }
        switch (rn(6)) {
        case 0: sl = 0; break;
        case 1: sl = (size_t)-1; break;
        case 2: sl = (size_t)rnd() >> rr(0, 60); break;
        case 3: { static const u64 S[] = { 15, 16, 17, 31, 32, 33, 64, 255, 256, 0x7fffffff, 0xffffffff, 0x100000000ull, 0x100000010ull, ~0ull - 1, 1, 2 }; sl = S[rn(16)]; break; }
        default: sl = rr(1, 40);
        }
        rs_magic_number m = (rs_magic_number)mg; size_t b = bl, s = sl;
        rs_result r = rs_sig_args(fs, &m, &b, &s);
        u32 em = mg ? mg : 0x72730147;
        int known = em == MAGICS[0] || em == MAGICS[1] || em == MAGICS[2] || em == MAGICS[3];
        feat(mixh((u64)fs, bl)); feat(mixh(sl, mg));
        if (!known) {
            if (r != RS_BAD_MAGIC) viol("bad-magic-result", "magic %x gives %d", mg, r);
            rejected++; continue;
        }
        u32 mx = magic_max(em);
        u64 rec = fs < 0 ? 2048 : fs <= 65536 ? 256 : isqrt((u64)fs) & ~127ull;
        if (rec > 0x7fffff80) rec = 0x7fffff80;       /* a block length must fit the format */
        u64 eb = bl ? bl : rec;
        if (eb > 0x7fffffff) { if (r == RS_DONE) viol("block-len-accepted", "block length %zu (resulting %zu) accepted for size %jd", bl, b, (intmax_t)fs); rejected++; continue; }
        if (sl != (size_t)-1 && sl > mx) { if (r != RS_PARAM_ERROR) viol("strong-len-accepted", "strong length %zu for magic %x gives %d (%zu)", sl, mg, r, s); rejected++; continue; }
        if (r != RS_DONE) viol("valid-rejected", "size %jd magic %x block_len %zu strong_len %zu rejected with %d", (intmax_t)fs, mg, bl, sl, r);
        accepted++;
        u64 mn = fs < 0 ? 12 : 2 + (u64)(ln2((u64)fs + (1 << 24)) + ln2((u64)fs / eb + 1) + 7) / 8;
        if (mn > mx) mn = mx;
        u64 es = sl == 0 ? mx : sl == (size_t)-1 ? mn : sl;
        if ((u32)m != em) viol("magic", "magic %x became %x", mg, m);
        if (b != eb) viol(bl ? "block-len-changed" : "block-len-recommended", "size %jd block_len %zu gives %zu, expected %llu", (intmax_t)fs, bl, b, (unsigned long long)eb);
        if (s != es) viol(sl == 0 || sl == (size_t)-1 ? "strong-len-recommended" : "strong-len-changed", "size %jd magic %x block_len %zu strong_len %zd gives %zu, expected %llu", (intmax_t)fs, mg, b, (ssize_t)sl, s, (unsigned long long)es);
        rs_magic_number m3 = m; size_t b3 = b, s3 = s;
        r = rs_sig_args(fs, &m3, &b3, &s3);
        if (r != RS_DONE || m3 != m || b3 != b || s3 != s) viol("not-idempotent", "asking again with %x/%zu/%zu gives %d %x/%zu/%zu", m, b, s, r, m3, b3, s3);
        /* monotone */
        if (fs >= 0 && !bl) {
            rs_magic_number m4 = (rs_magic_number)em; size_t b4 = 0, s4 = 0;
            u64 f2u = (u64)fs + (chance(1, 2) ? rn(1000000) : rn((u64)fs + 2) / 2);
            rs_long_t f2 = (rs_long_t)(f2u > INT64_MAX ? INT64_MAX : f2u);
            if (f2 >= fs && rs_sig_args(f2, &m4, &b4, &s4) == RS_DONE && b4 < b) viol("not-monotone", "recommended block length shrinks from %zu at %jd to %zu at %jd", b, (intmax_t)fs, b4, (intmax_t)f2);
        }
        evset("recommended_block_lengths", b); evset("strong_lengths", s);
    }
    /* what was accepted can be used */
    {
        rs_long_t fs = chance(1, 3) ? -1 : (rs_long_t)rn(10000000);
        rs_magic_number m = (rs_magic_number)(chance(1, 4) ? 0 : MAGICS[rn(4)]); size_t b = chance(1, 2) ? 0 : 1 + rsize(70000), s = chance(1, 3) ? 0 : chance(1, 2) ? (size_t)-1 : rr(1, 16);
        if (rs_sig_args(fs, &m, &b, &s) == RS_DONE) {
            u8 t[300]; rbytes(t, 300); size_t n = (size_t)rn(301);
            sched big = sched_big(); runres rr_;
            buf g = do_sig(m, b, s, t, n, &big, &rr_), w = ref_signature(m, (u32)b, (u32)s, t, n);
            if (rr_.r || !beq(&g, &w)) viol("accepted-parameters-unusable", "signature with %x/%zu/%zu gives %d", m, b, s, rr_.r);
            ev("accepted_parameters_used", 1);
        }
        /* rejected ones are rejected by the job too */
        size_t badsl = 33 + (size_t)rn(1000); runres r2;
        u8 t[30] = { 0 }; sched big = sched_big();
        m = (rs_magic_number)MAGICS[rn(4)];
        buf g = do_sig(m, 100, badsl, t, 30, &big, &r2);
        if (r2.r == RS_DONE || g.n > 12) viol("job-accepts-bad-parameters", "signature job with strong length %zu gives %d", badsl, r2.r);
        g = do_sig(0x72730100 + (u32)rn(0x30), 100, 8, t, 30, &big, &r2);
        if (r2.r == RS_DONE) viol("job-accepts-bad-parameters", "signature job with a bad magic gives %d", r2.r);
        g = do_sig(m, (size_t)0x80000000u + rn(1u << 31), 8, t, 30, &big, &r2);
        if (r2.r == RS_DONE) viol("job-accepts-bad-parameters", "signature job with a huge block length gives %d", r2.r);
        ev("rejected_parameters_tried_in_a_job", 3);
    }
    cur_log = NULL;
    ev("queries", (u64)reps); ev("accepted", accepted); ev("rejected", rejected);
    nontrivial();
    sample("%d parameter queries: %llu accepted with the documented values, %llu rejected", reps, (unsigned long long)accepted, (unsigned long long)rejected);
}
