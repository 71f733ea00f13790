/* Choices, reporting, job driver with contract monitors, generators, main. */
#include "h.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <time.h>

int tier; const char *prop_id = "?"; u64 g_case;
u64 *dict; size_t ndict;
amon am;
__thread logmon *cur_log;
#ifdef NDEBUG
int flavor_asserts = 0;
#else
int flavor_asserts = 1;
#endif
int flavor_trace;

/* ---- allocation ---- */
#ifdef WRAP_ALLOC
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *real_malloc(size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) harness_error("out of memory"); return p; }
void real_free(void *p) { __real_free(p); }
/* A table of live library blocks. */
#define LB (1 << 17)
static struct { void *p; size_t n; } lb[LB];
static u64 nlb;
static size_t lbh(void *p) { return (size_t)(((u64)(uintptr_t)p * 0x9e3779b97f4a7c15ull) >> 47); }
static void lb_add(void *p, size_t n)
{
    if (!p) return;
    if (++nlb > LB / 2) harness_error("allocation table full");
    size_t i = lbh(p);
    while (lb[i].p && lb[i].p != (void *)1) i = (i + 1) & (LB - 1);
    lb[i].p = p; lb[i].n = n;
    am.live++; am.live_bytes += n; am.total++;
    if (am.live_bytes > am.peak_bytes) am.peak_bytes = am.live_bytes;
}
static int lb_del(void *p, size_t *n)
{
    size_t i = lbh(p);
    for (size_t k = 0; k < LB && lb[i].p; k++, i = (i + 1) & (LB - 1))
        if (lb[i].p == p) {
            lb[i].p = (void *)1; nlb--; *n = lb[i].n; am.live--; am.live_bytes -= *n;
            if (!nlb) memset(lb, 0, sizeof lb);
            return 1;
        }
    return 0;
}
static int am_fail(void)
{
    if (am.fail_at < 0) return 0;
    i64 k = (i64)am.total + (i64)am.fails;
    if (k == am.fail_at || (am.fail_forever && k > am.fail_at)) { am.fails++; errno = ENOMEM; return 1; }
    return 0;
}
void *__wrap_malloc(size_t n)
{
    if (!am.active) return __real_malloc(n);
    if (am_fail()) return NULL;
    void *p = __real_malloc(n);
    lb_add(p, n);
    return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
    if (!am.active) return __real_calloc(a, b);
    if (am_fail()) return NULL;
    void *p = __real_calloc(a, b);
    lb_add(p, a * b);
    return p;
}
void *__wrap_realloc(void *o, size_t n)
{
    if (!am.active) return __real_realloc(o, n);
    if (am_fail()) return NULL;
    size_t on;
    int known = o && lb_del(o, &on);
    /* Move always, so that stale pointers show. */
    void *p;
    if (known) {
        p = __real_malloc(n);
        if (p) { memcpy(p, o, on < n ? on : n); memset(o, 0xdd, on); __real_free(o); }
        else lb_add(o, on);
    } else p = __real_realloc(o, n);
    if (p) lb_add(p, n);
    return p;
}
void __wrap_free(void *p)
{
    size_t n;
    if (p && nlb && lb_del(p, &n)) memset(p, 0xdd, n);
    __real_free(p);
}
void am_reset(void) { memset(lb, 0, sizeof lb); nlb = 0; memset(&am, 0, sizeof am); am.fail_at = -1; }
void am_begin(void) { am.active = 1; }
void am_end(void) { am.active = 0; }
#else
void *real_malloc(size_t n) { void *p = malloc(n ? n : 1); if (!p) harness_error("out of memory"); return p; }
void real_free(void *p) { free(p); }
void am_reset(void) { memset(&am, 0, sizeof am); am.fail_at = -1; }
void am_begin(void) { }
void am_end(void) { }
#endif

static __thread void **cl; static __thread size_t ncl, capcl;
void *xm(size_t n)
{
    if (ncl == capcl) {
        size_t nc = capcl ? capcl * 2 : 256;
        void **m = real_malloc(nc * sizeof *m);
        if (cl) { memcpy(m, cl, ncl * sizeof *m); real_free(cl); }
        cl = m; capcl = nc;
    }
    return cl[ncl++] = real_malloc(n);
}
void case_free_all(void) { while (ncl) real_free(cl[--ncl]); }
void bput(buf *b, const void *p, size_t n)
{
    if (b->n + n > b->cap || !b->p) {
        size_t nc = (b->n + n) * 2 + 64;
        u8 *m = xm(nc);
        if (b->n) memcpy(m, b->p, b->n);
        b->p = m; b->cap = nc;
    }
    if (n) memcpy(b->p + b->n, p, n);
    b->n += n;
}
void bputc(buf *b, int c) { u8 x = (u8)c; bput(b, &x, 1); }
void bput_be(buf *b, u64 v, int len) { while (len--) bputc(b, (int)((v >> (8 * len)) & 255)); }
buf bdup(const void *p, size_t n) { buf b = { 0 }; bput(&b, p, n); return b; }
int beq(const buf *a, const buf *b) { return a->n == b->n && (!a->n || !memcmp(a->p, b->p, a->n)); }
size_t firstdiff(const u8 *a, size_t an, const u8 *b, size_t bn)
{
    size_t i, m = an < bn ? an : bn;
    for (i = 0; i < m && a[i] == b[i]; i++) ;
    return i;
}

/* ---- choices ---- */
static __thread u64 sx[4];
static __thread const u8 *fz; static __thread size_t nfz;
static u64 splitmix(u64 *x) { u64 z = (*x += 0x9e3779b97f4a7c15ull); z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; return z ^ z >> 31; }
u64 mixh(u64 a, u64 b) { u64 x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x632be59bd9b4e019ull); return splitmix(&x); }
void seed_rng(u64 s) { for (int i = 0; i < 4; i++) sx[i] = splitmix(&s); }
static u64 rot(u64 x, int k) { return x << k | x >> (64 - k); }
static u64 xnext(void)
{
    u64 r = rot(sx[1] * 5, 7) * 9, t = sx[1] << 17;
    sx[2] ^= sx[0]; sx[3] ^= sx[1]; sx[1] ^= sx[2]; sx[0] ^= sx[3]; sx[2] ^= t; sx[3] = rot(sx[3], 45);
    return r;
}
u64 rnd(void)
{
    if (nfz >= 8) { u64 v; memcpy(&v, fz, 8); fz += 8; nfz -= 8; return v; }
    return xnext();
}
u64 rn(u64 n)
{
    if (n <= 1) return 0;
    if (nfz) {
        if (n <= 256) { nfz--; return *fz++ % n; }
        if (n <= 65536 && nfz >= 2) { u64 v = fz[0] | fz[1] << 8; fz += 2; nfz -= 2; return v % n; }
    }
    return rnd() % n;
}
u64 rr(u64 lo, u64 hi) { return lo + rn(hi - lo + 1); }
int chance(int a, int b) { return rn((u64)b) < (u64)a; }
void rbytes(u8 *p, size_t n)
{
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { u64 v = xnext(); memcpy(p + i, &v, 8); }
    if (i < n) { u64 v = xnext(); memcpy(p + i, &v, n - i); }
}
u64 rconst(void) { return ndict ? dict[rn(ndict)] : 0; }
size_t rsize(size_t max)
{
    static const u32 B[] = { 0, 1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 35, 36, 37, 63, 64, 65, 66, 67, 127, 128, 129, 254, 255, 256, 257, 258,
        511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 16383, 16384, 16385, 32767, 32768, 32769,
        65531, 65532, 65533, 65534, 65535, 65536, 65537, 65538, 65600, 131065, 131066, 131067, 131070, 131071, 131072, 131073, 196599, 196600, 262144, 262145 };
    size_t v;
    if (!max) return 0;
    for (int t = 0; t < 6; t++) {
        switch (rn(8)) {
        case 0: v = (size_t)rn(24); break;
        case 1: case 2: v = B[rn(sizeof B / sizeof *B)]; break;
        case 3: v = (size_t)(rconst() + rn(3) - 1); break;
        case 4: v = (size_t)rn(max + 1); break;
        case 5: v = ((size_t)1 << rn(22)) + (size_t)rn(5) - 2; break;
        default: { size_t s = (size_t)1 << rn(20); v = (size_t)rn(s + 1); }
        }
        if (v <= max) return v;
    }
    return (size_t)rn(max + 1);
}

/* ---- reporting ---- */
static __thread int is_worker;  /* set in worker threads: no shared bookkeeping there */
static jmp_buf case_jb; static int in_case; static FILE *outf; static int nviol; static const char *outpath;
static int max_viol = 3;
#define NEV 512
static struct { const char *k; u64 v; int mx; } evs[NEV]; static int nev;
#define DSET (1 << 20)
static u64 *dset; static u64 ndset;
static struct { const char *k; u64 *s; u64 n; } dsets[64]; static int ndsets;
static u64 fhash; static char samples[8][700]; static int nsamples;
static u64 ncases, nnontriv; static int case_nt;
#include <pthread.h>
static pthread_mutex_t evm = PTHREAD_MUTEX_INITIALIZER;
void ev(const char *k, u64 n)
{
    if (is_worker) return;
    pthread_mutex_lock(&evm);
    for (int i = 0; i < nev; i++) if (evs[i].k == k || !strcmp(evs[i].k, k)) { evs[i].v += n; pthread_mutex_unlock(&evm); return; }
    if (nev < NEV) { evs[nev].k = strdup(k); evs[nev++].v = n; }
    pthread_mutex_unlock(&evm);
}
void evmax(const char *k, u64 n)
{
    if (is_worker) return;
    pthread_mutex_lock(&evm);
    for (int i = 0; i < nev; i++) if (!strcmp(evs[i].k, k)) { if (n > evs[i].v) evs[i].v = n; pthread_mutex_unlock(&evm); return; }
    if (nev < NEV) { evs[nev].k = strdup(k); evs[nev].mx = 1; evs[nev++].v = n; }
    pthread_mutex_unlock(&evm);
}
static int set_add(u64 *s, u64 cap, u64 h)
{
    if (!h) h = 1;
    for (u64 i = h & (cap - 1), k = 0; k < cap / 2; k++, i = (i + 1) & (cap - 1)) {
        if (s[i] == h) return 0;
        if (!s[i]) { s[i] = h; return 1; }
    }
    return 0;
}
void evset(const char *k, u64 v)
{
    if (is_worker) return;
    pthread_mutex_lock(&evm);
    int i;
    for (i = 0; i < ndsets; i++) if (!strcmp(dsets[i].k, k)) break;
    if (i == ndsets && ndsets < 64) { dsets[i].k = strdup(k); dsets[i].s = real_malloc(8 << 16); memset(dsets[i].s, 0, 8 << 16); ndsets++; }
    if (i < ndsets) dsets[i].n += set_add(dsets[i].s, 1 << 16, mixh(v, 77));
    pthread_mutex_unlock(&evm);
}
void feat(u64 h) { if (!is_worker) fhash = mixh(fhash, h); }
void nontrivial(void) { case_nt = 1; }
void sample(const char *fmt, ...)
{
    if (nsamples >= 4) return;
    va_list va; va_start(va, fmt); vsnprintf(samples[nsamples++], sizeof samples[0], fmt, va); va_end(va);
}
static void vout(const char *key, const char *fmt, va_list va)
{
    char b[2000]; vsnprintf(b, sizeof b, fmt, va);
    for (char *c = b; *c; c++) if (*c == '\n' || *c == '\t') *c = ' ';
    fprintf(outf, "VIOL\t%s\t%s\t%llu\t%s\n", prop_id, key, (unsigned long long)g_case, b);
    fflush(outf);
    nviol++;
}
void set_worker(int on) { is_worker = on; }
static int in_child;
void set_in_child(void) { in_child = 1; }
void cap_abort(void);
void viol(const char *key, const char *fmt, ...)
{
    va_list va; va_start(va, fmt);
    if (in_child) { vfprintf(stderr, fmt, va); _exit(20); }
    if (!is_worker) cap_abort();
    vout(key, fmt, va); va_end(va);
    if (in_case && !is_worker) longjmp(case_jb, 1);
    fflush(outf);
    _exit(1);
}
void softviol(const char *key, const char *fmt, ...) { va_list va; va_start(va, fmt); vout(key, fmt, va); va_end(va); }
void harness_error(const char *fmt, ...)
{
    va_list va; va_start(va, fmt); fprintf(stderr, "HARNESS-ERROR: "); vfprintf(stderr, fmt, va); fprintf(stderr, "\n"); va_end(va);
    _exit(3);
}

/* ---- log monitor ---- */
void log_cb(rs_loglevel level, char const *msg)
{
    logmon *l = cur_log;
    if (!l) return;
    l->total++;
    if ((int)level >= 0 && (int)level < 8) l->n[level]++; else l->badline++;
    size_t n = strlen(msg);
    if (!n || msg[n - 1] != '\n' || memchr(msg, '\n', n - 1)) l->badline++;
    snprintf(l->last, sizeof l->last, "%s", msg);
    if (level <= RS_LOG_ERR) snprintf(l->lasterr, sizeof l->lasterr, "%s", msg);
}

/* ---- schedules ---- */
sched sched_big(void) { sched s = { 0 }; return s; }
sched rsched(void)
{
    sched s;
    memset(&s, 0, sizeof s);
    s.inpol = (int)rn(7); s.outpol = (int)rn(7); s.eofpol = (int)rn(4);
    s.zeros = chance(1, 3) ? (int)rr(1, 12) : 0;
    s.repeat = (int)rn(3);
    s.inp = 1 + rsize(chance(1, 3) ? 140000 : 300); s.outp = 1 + rsize(chance(1, 3) ? 140000 : 300);
    return s;
}
char *sched_str(const sched *s)
{
    char *b = xm(120);
    snprintf(b, 120, "in=%d/%zu out=%d/%zu eof=%d zeros=%d repeat=%d", s->inpol, s->inp, s->outpol, s->outp, s->eofpol, s->zeros, s->repeat);
    return b;
}
static size_t chunk(int pol, size_t p, size_t rem, size_t total)
{
    size_t k, mn = total / 4000 + 1;
    switch (pol) {
    case 0: return rem;
    case 1: k = p; break;
    case 2: k = (size_t)rn(p + 1); break;
    case 3: k = 1; break;
    case 4: k = chance(1, 2) ? (size_t)rr(1, 4) : rsize(p * 4); break;
    case 6: k = 1 + (size_t)rn(2ull << rn(19)); break; /* bursts of any magnitude */
    default: k = chance(1, 8) ? rem : (size_t)rr(1, 1 + p / 2); break;
    }
    if (k < mn) { if (mn > 1) k = mn; }
    return k < rem ? k : rem;
}

__thread int contract_no_out;
#define GUARD 16
typedef struct { u8 *base; u8 *p; size_t n; } gbuf;
static gbuf galloc(size_t n)
{
    gbuf g;
#if defined(__SANITIZE_ADDRESS__) || defined(EXACT_BUFS)
    g.base = real_malloc(n); g.p = g.base;
#else
    g.base = real_malloc(n + 2 * GUARD); g.p = g.base + GUARD;
    memset(g.base, 0xC7, GUARD); memset(g.p + n, 0xC7, GUARD);
#endif
    g.n = n;
    return g;
}
static void gcheck(const gbuf *g, const char *what)
{
#if !(defined(__SANITIZE_ADDRESS__) || defined(EXACT_BUFS))
    for (int i = 0; i < GUARD; i++)
        if (g->base[i] != 0xC7 || g->p[g->n + i] != 0xC7) viol("guard-bytes", "%s buffer of %zu bytes: bytes outside it were overwritten", what, g->n);
#else
    (void)g; (void)what;
#endif
}
static void gfree(gbuf *g) { if (g->base) { if (g->n) memset(g->p, 0xA5, g->n < 4096 ? g->n : 4096); real_free(g->base); } g->base = NULL; }

/* step: one call of the job */
void step_init(stepper *st, rs_job_t *job, const u8 *in, size_t n, const sched *s)
{
    memset(st, 0, sizeof *st);
    st->job = job; st->in = in; st->n = n; st->s = *s;
    st->res.r = RS_BLOCKED;
}
int step(stepper *st)
{
    const sched *s = &st->s;
    runres *r = &st->res;
    if (st->done) return 1;
    size_t left = st->have;             /* presented but not consumed last time */
    size_t rem = st->n - st->ipos - left;       /* never presented */
    size_t add = 0;
    int noout = contract_no_out;
    int zero = s->zeros && chance(s->zeros, 16) && st->lastleft < 3;
    if (zero) st->lastleft++; else st->lastleft = 0;
    if (!(zero && chance(1, 2))) add = chunk(s->inpol, s->inp, rem, st->n);
    if (left + add == 0 && rem && !zero) add = 1;
    size_t k = left + add;
    int all = st->ipos + k == st->n;
    if (all && !st->eof) {
        switch (s->eofpol) {
        case 0: st->eof = 1; break;
        case 1: if (!add) st->eof = 1; break;
        case 2: if (!add && chance(1, 3)) st->eof = 1; break;
        default: if (!left || chance(1, 2)) st->eof = 1; break;
        }
    }
    gbuf ib = galloc(k);
    if (k) memcpy(ib.p, st->in + st->ipos, k);
    size_t ospace = 0;
    if (!noout) {
        ospace = s->outpol == 0 ? 65536 + s->outp : chunk(s->outpol, s->outp, 1 << 20, st->n);
        if (zero && chance(1, 2)) ospace = 0;
    }
    gbuf ob = galloc(ospace);
#if defined(__SANITIZE_ADDRESS__)
    /* leave uninitialised */
#elif !defined(MSAN)
    memset(ob.p, 0x5E, ospace < 256 ? ospace : 256);
#endif
    rs_buffers_t b;
    memset(&b, 0, sizeof b);
    b.next_in = (char *)ib.p; b.avail_in = k; b.eof_in = st->eof;
    b.next_out = (char *)ob.p; b.avail_out = ospace;
    int weof = st->eof;
    r->calls++;
    rs_result res = rs_job_iter(st->job, &b);
    /* contract monitors */
    size_t used = (size_t)((u8 *)b.next_in - ib.p), made = (size_t)((u8 *)b.next_out - ob.p);
    if (used > k || b.avail_in != k - used)
        viol("in-accounting", "call %llu: given %zu input bytes, next_in advanced %zd, avail_in %zu", (unsigned long long)r->calls, k, (ptrdiff_t)used, b.avail_in);
    if (made > ospace || b.avail_out != ospace - made)
        viol("out-accounting", "call %llu: given %zu output bytes, next_out advanced %zd, avail_out %zu", (unsigned long long)r->calls, ospace, (ptrdiff_t)made, b.avail_out);
    if (!!b.eof_in != !!weof) viol("eof-changed", "call changed the end-of-input flag");
    if (k && memcmp(ib.p, st->in + st->ipos, k)) viol("input-modified", "call %llu modified the input buffer", (unsigned long long)r->calls);
    gcheck(&ib, "input"); gcheck(&ob, "output");
    if (made) bput(&r->out, ob.p, made);
    gfree(&ib); gfree(&ob);
    st->ipos += used; st->have = k - used;
    r->in_used = st->ipos;
    r->r = res;
    if (res == RS_BLOCKED) {
        r->nblocked++;
        if (!k && !ospace) r->zero_calls++;
        if (k && ospace && !used && !made)
            viol("no-progress", "call %llu with %zu input bytes and %zu output space consumed and produced nothing", (unsigned long long)r->calls, k, ospace);
        if (weof && all && (ospace || noout) && !used && !made)
            viol("stalled", "call %llu: all input presented and ended, %zu output space, but still blocked with no progress", (unsigned long long)r->calls, ospace);
        if (r->calls > 40 * (u64)(st->n + r->out.n) + 4000)
            viol("too-many-calls", "%llu calls for %zu input and %zu output bytes", (unsigned long long)r->calls, st->n, r->out.n);
        return 0;
    }
    if (res == RS_RUNNING) viol("returned-running", "rs_job_iter returned RS_RUNNING");
    if (res == RS_INTERNAL_ERROR) viol("internal-error", "internal error on call %llu (in %zu out %zu)", (unsigned long long)r->calls, k, ospace);
    st->done = 1;
    r->stats = *rs_job_statistics(st->job);
    return 1;
}
void run_job(rs_job_t *job, const u8 *in, size_t n, const sched *s, runres *res)
{
    stepper st;
    step_init(&st, job, in, n, s);
    st.res.out = res->out;
    size_t stop = res->stop_after;
    while (!step(&st))
        if (stop && st.res.calls >= stop) break;
    ev("job_calls", st.res.calls);
    ev("jobs_run", 1);
    ev("blocked_calls", st.res.nblocked);
    *res = st.res;
}
__thread u64 vbase;
void gen_vbase(size_t bn, int num, int den)
{
    if (!chance(num, den)) return;
    static const u64 B[] = { 256, 65536, 1ull << 24, 1ull << 31, 1ull << 32, 1ull << 33, 1ull << 40, 1ull << 48, 1ull << 56, 1ull << 62 };
    u64 top = (u64)INT64_MAX - bn;
    switch (rn(5)) {
    case 0: vbase = rnd() >> rr(1, 60); break;
    case 1: vbase = top - rn(3); break;
    case 2: vbase = (1ull << 31) + rn(1ull << 31); break;
    default: { u64 b = B[rn(10)], k = rn(bn + 3); vbase = b > k ? b - k : 0; }
    }
    if (vbase > top) vbase = top;
    ev("deltas_with_distant_basis", 1);
    if (vbase + bn > INT32_MAX) ev("deltas_beyond_2GB", 1);
}
rs_result basis_cb(void *opaque, rs_long_t pos, size_t *len, void **bufp)
{
    basis *b = opaque;
    b->calls++;
    b->reqbytes += *len;
    if (pos < 0 || *len == 0) viol("bad-basis-request", "basis callback asked for %zu bytes at %jd", *len, (intmax_t)pos);
    if (b->fail_at && b->calls == b->fail_at) return b->fail_code;
    if ((u64)pos < vbase || (u64)pos - vbase >= b->n) return RS_INPUT_ENDED;
    pos -= (rs_long_t)vbase;
    size_t l = *len;
    if (l > b->n - (size_t)pos) l = b->n - (size_t)pos;
    if (b->mode & 1) l = 1 + (size_t)rn(l);
    *len = l;
    if ((b->mode & 2) && chance(1, 2)) *bufp = (void *)(uintptr_t)(b->p + pos);
    else memcpy(*bufp, b->p + pos, l);
    return RS_DONE;
}
void expect_done(const char *what, const runres *rr)
{
    if (rr->r != RS_DONE) viol("unexpected-error", "%s returned %d (%s) after %llu calls", what, rr->r, rs_strerror(rr->r), (unsigned long long)rr->calls);
}
buf do_sig(u32 magic, size_t bl, size_t sl, const u8 *p, size_t n, const sched *s, runres *rr)
{
    runres d = { 0 };
    rs_job_t *j = rs_sig_begin(bl, sl, magic);
    run_job(j, p, n, s, &d);
    rs_job_free(j);
    if (rr) *rr = d; else expect_done("signature", &d);
    return d.out;
}
rs_signature_t *do_load(const u8 *p, size_t n, const sched *s, runres *rr, int index)
{
    runres d = { 0 };
    rs_signature_t *sig = NULL;
    rs_job_t *j = rs_loadsig_begin(&sig);
    contract_no_out = 1;
    run_job(j, p, n, s, &d);
    contract_no_out = 0;
    rs_job_free(j);
    if (rr) *rr = d; else expect_done("loadsig", &d);
    if (d.r == RS_DONE && index) {
        rs_result r = rs_build_hash_table(sig);
        if (r != RS_DONE) viol("index-failed", "rs_build_hash_table returned %d", r);
    }
    return sig;
}
buf do_delta(rs_signature_t *sig, const u8 *p, size_t n, const sched *s, runres *rr)
{
    runres d = { 0 };
    rs_job_t *j = rs_delta_begin(sig);
    run_job(j, p, n, s, &d);
    rs_job_free(j);
    if (rr) *rr = d; else expect_done("delta", &d);
    return d.out;
}
buf do_patch(const u8 *bp, size_t bn, const u8 *dp, size_t dn, const sched *s, runres *rr)
{
    runres d = { 0 };
    basis b = { 0 };
    b.p = bp; b.n = bn; b.mode = (int)rn(4);
    rs_job_t *j = rs_patch_begin(basis_cb, &b);
    run_job(j, dp, dn, s, &d);
    rs_job_free(j);
    if (rr) *rr = d; else expect_done("patch", &d);
    return d.out;
}

/* ---- generators ---- */
void gen_content(u8 *p, size_t n, int kind, size_t bl)
{
    switch (kind) {
    case 0: case 1: rbytes(p, n); break;
    case 2: memset(p, (int)rn(256), n); break;
    case 3: { int a = (int)rn(256), b = (int)rn(256); for (size_t i = 0; i < n; i++) p[i] = (u8)(chance(1, 2) ? a : b); break; }
    case 4: {                   /* periodic */
        size_t per = chance(1, 2) ? bl : 1 + rsize(bl * 2 + 4); if (!per) per = 1;
        if (per > n) per = n ? n : 1;
        rbytes(p, per < n ? per : n);
        for (size_t i = per; i < n; i++) p[i] = p[i - per];
        break; }
    case 5: {                   /* repeated blocks out of a small pool */
        size_t np = (size_t)rr(1, 5), b = bl ? bl : 1; if (b > n) b = n ? n : 1;
        u8 *pool = xm(np * b); rbytes(pool, np * b);
        for (size_t i = 0; i < n; i += b) memcpy(p + i, pool + (size_t)rn(np) * b, n - i < b ? n - i : b);
        break; }
    case 6: {                   /* runs */
        for (size_t i = 0; i < n;) { size_t r = 1 + rsize(bl * 3 + 8); if (r > n - i) r = n - i; if (chance(1, 2)) memset(p + i, (int)rn(3) * 127, r); else rbytes(p + i, r); i += r; }
        break; }
    default: for (size_t i = 0; i < n; i++) p[i] = (u8)i; break;
    }
}
void gen_params(pair *p, size_t maxbl, int min_sl)
{
    p->magic = MAGICS[rn(4)];
    size_t b;
    switch (rn(6)) {
    case 0: b = rr(1, 8); break;
    case 1: b = rr(1, 100); break;
    case 2: b = 1 + rsize(maxbl); break;
    case 3: b = 1 + rsize(2100); break;
    case 4: b = (size_t)1 << rn(12); break;
    default: b = (size_t)rconst() % (maxbl + 1); break;
    }
    if (b < 1) b = 1;
    if (b > maxbl) b = maxbl;
    p->bl = (u32)b;
    u32 mx = magic_max(p->magic);
    u32 s = chance(1, 3) ? mx : chance(1, 3) ? (u32)min_sl : (u32)rr((u64)min_sl, mx);
    p->sl = s;
}
/* Now and then blocks longer than the library's own buffers and limits; true if so. */
int gen_longblocks(pair *p, int one_in)
{
    if (!chance(1, one_in)) return 0;
    p->bl = (u32)(chance(1, 3) ? rr(32000, 34000) : chance(1, 2) ? rr(65000, 67000) : rr(20000, 140000));
    gen_pair(p, chance(1, 2) ? 900000 : 7 * (size_t)p->bl);
    ev("long_block_cases", 1);
    return 1;
}
/* Now and then tens of thousands of small blocks, so that tables and indexes are large; true if so. */
int gen_manyblocks(pair *p, int one_in)
{
    if (!chance(1, one_in)) return 0;
    p->bl = (u32)rr(5, 24);
    p->on = (size_t)rr(12000, tier ? 200000 : 70000) * p->bl + (size_t)rn(p->bl);
    p->o = xm(p->on + 1); rbytes(p->o, p->on);
    for (int k = (int)rn(4); k--;) { size_t a = (size_t)rn(p->on), l = rsize(p->on - a); if (l > 5000) l = 5000; memset(p->o + a, (int)rn(256), l); }
    buf w = { 0 };
    for (int k = (int)rr(1, 12); k-- && w.n < 400000;) {
        size_t a = (size_t)rn(p->on), l = rsize(p->on - a);
        if (chance(1, 2)) a -= a % p->bl;
        if (l > 60000) l = 60000;
        bput(&w, p->o + a, l);
        if (chance(1, 2)) { u8 t[400]; rbytes(t, sizeof t); bput(&w, t, (size_t)rn(sizeof t)); }
    }
    p->kind = 110; p->w = w.n ? w.p : xm(1); p->wn = w.n;
    feat(p->magic); feat(p->bl); feat(p->sl); feat(p->on); feat(w.n);
    ev("many_block_cases", 1); evset("many_block_table_bits", (u64)(63 - __builtin_clzll(p->on / p->bl)));
    return 1;
}
/* Needs p->bl and so on; makes old and new contents. */
void gen_pair(pair *p, size_t maxn)
{
    size_t bl = p->bl, on, cap;
    size_t maxblocks = 6000;
    if (maxn > maxblocks * bl) maxn = maxblocks * bl + 3;
    if (chance(1, 2)) { on = (size_t)rn(30) * bl + (size_t)rn(4); if (chance(1, 2) && on) on -= 1; if (chance(1, 3)) on += rn(bl); }
    else on = rsize(maxn);
    if (on > maxn) on = maxn;
    p->on = on; p->o = xm(on + 1);
    gen_content(p->o, on, (int)rn(8), bl);
    p->kind = (int)rn(12);
    cap = maxn + 1;
    buf w = { 0 };
    switch (p->kind) {
    case 0: { size_t n = rsize(maxn); u8 *t = xm(n + 1); gen_content(t, n, (int)rn(8), bl); bput(&w, t, n); break; }
    case 1: bput(&w, p->o, on); break;
    case 2: bput(&w, p->o, on); { size_t n = rsize(300); u8 *t = xm(n + 1); rbytes(t, n); bput(&w, t, n); } break;
    case 3: bput(&w, p->o, (size_t)rn(on + 1)); break;
    case 4: { size_t n = 1 + rsize(70); u8 *t = xm(n); rbytes(t, n); bput(&w, t, n); bput(&w, p->o, on); break; }
    case 5:                     /* a few point edits */
        bput(&w, p->o, on);
        for (int e = (int)rr(1, 6); e-- && w.n;) w.p[rn(w.n)] ^= (u8)rr(1, 255);
        break;
    default: {
        int ops = (int)rr(1, chance(1, 4) ? 120 : 14);
        for (int k = 0; k < ops && w.n < cap; k++) {
            size_t room = cap - w.n, a, l;
            switch (rn(11)) {
            case 0: case 1: case 2:            /* aligned copy of whole blocks */
                if (on < bl) goto lit;
                a = (size_t)rn(on / bl) * bl; l = bl * (size_t)rr(1, chance(1, 3) ? 40 : 3);
                if (a + l > on) l = on - a;
                if (l > room) l = room;
                bput(&w, p->o + a, l); break;
            case 3:                     /* unaligned copy */
                if (!on) goto lit;
                a = (size_t)rn(on); l = rsize(on - a); if (l > room) l = room;
                bput(&w, p->o + a, l); break;
            case 4:                     /* continue after the last copy: next block of old */
                if (on < bl || w.n < bl) goto lit;
                a = (w.n / bl * bl) % on; l = bl; if (a + l > on) l = on - a;
                if (l > room) l = room;
                bput(&w, p->o + a, l); break;
            case 5: {                   /* near miss: a block with a byte changed, or a rolling-sum collision */
                if (on < bl || room < bl) goto lit;
                a = (size_t)rn(on / bl) * bl;
                u8 *t = xm(bl); memcpy(t, p->o + a, bl);
                if (!(chance(1, 2) && craft_collision(p->magic, t, bl))) t[chance(1, 2) ? bl - 1 : rn(bl)] ^= (u8)(1u << rn(8));
                bput(&w, t, bl); break; }
            case 6: {                   /* short tail of old */
                size_t tl = on % bl; if (!tl) goto lit;
                if (tl > room) tl = room;
                bput(&w, p->o + on - on % bl, tl); break; }
            case 7: { u8 c = (u8)rn(256); l = rsize(room < 4 * bl + 70000 ? room : 4 * bl + 70000); u8 *t = xm(l + 1); memset(t, c, l); bput(&w, t, l); break; }
            case 8: if (chance(1, 4)) goto lit; l = (size_t)rr(1, 3); if (l > room) l = room; { u8 t[4]; rbytes(t, 4); bput(&w, t, l); } break;
            default:
            lit: l = rsize(room < 140000 ? room : 140000); { u8 *t = xm(l + 1); gen_content(t, l, chance(3, 4) ? 0 : (int)rn(8), bl); bput(&w, t, l); }
            }
        }
        if (chance(1, 3) && on % bl && w.n + on % bl <= cap) bput(&w, p->o + on - on % bl, on % bl);
    } }
    /* contents full of false weak matches cost a strong sum per byte: keep that payable */
    w.n = ref_affordable(p->magic, bl, p->o, on, w.p, w.n, 400000000);
    p->w = w.n ? w.p : xm(1); p->wn = w.n;
    feat(p->magic); feat(p->bl); feat(p->sl); feat(on); feat(w.n); feat((u64)p->kind);
}
char *pair_str(const pair *p)
{
    char *b = xm(160);
    snprintf(b, 160, "magic=%x block_len=%u strong_len=%u old=%zuB new=%zuB kind=%d", p->magic, p->bl, p->sl, p->on, p->wn, p->kind);
    return b;
}

/* Random valid delta over a basis of bn bytes, any encodings. */
void gen_valid_delta(buf *d, size_t bn, size_t maxout, u64 *outlen)
{
    static const int W[4] = { 1, 2, 4, 8 };
    enc_magic(d);
    u64 tot = 0;
    int n = (int)rn(chance(1, 4) ? 200 : 12);
    for (int i = 0; i < n && tot < maxout; i++) {
        u64 room = maxout - tot;
        if (chance(1, 2) || !bn) {
            u64 l = 1 + rsize(chance(1, 3) ? 140000 : 300);
            if (chance(1, 4)) l = rr(1, 70);
            if (l > room) l = room;
            int w = W[rn(4)];
            while (minimal_width(l) > w) w *= 2;
            if (l <= 64 && chance(1, 2)) w = -1;
            u8 *t = xm(l); rbytes(t, l);
            enc_lit(d, t, l, w);
            tot += l;
        } else {
            u64 pos = chance(1, 4) ? 0 : chance(1, 3) && bn > 300 ? rr(250, 300) : chance(1, 4) && bn > 65600 ? rr(65500, 65599) : rn(bn);
            u64 l = 1 + rsize(bn - pos - 1);
            if (chance(1, 5)) l = bn - pos;
            if (l > room) l = room;
            int wp = W[rn(4)], wl = W[rn(4)];
            pos += vbase;
            while (minimal_width(pos) > wp) wp *= 2;
            while (minimal_width(l) > wl) wl *= 2;
            enc_copy(d, pos, l, wp, wl);
            tot += l;
        }
    }
    bputc(d, 0);
    if (outlen) *outlen = tot;
}

#ifdef WRAP_TIME
/* A clock that jumps, also backwards: nothing but the time fields of the statistics may depend on it. */
#include <time.h>
time_t __wrap_time(time_t *t)
{
    static u64 k; k = mixh(k, 77);
    time_t v = (time_t)(k >> (20 + k % 30));
    if (t) *t = v;
    return v;
}
#endif
/* ---- main ---- */
static struct { const char *id; casefn fn; } cases[] = {
#define X(c) { #c, case_##c },
CASES
#undef X
};
static u64 *statusp;
static int digests;            /* write each case's digest of results (C28) */
void dg_begin(void); u64 dg_value(void);
static void write_report(void)
{
    fprintf(outf, "DONE\t%llu\t%llu\n", (unsigned long long)ncases, (unsigned long long)nnontriv);
    for (int i = 0; i < nev; i++) fprintf(outf, "%s\t%s\t%llu\n", evs[i].mx ? "EVMAX" : "EV", evs[i].k, (unsigned long long)evs[i].v);
    for (int i = 0; i < nsamples; i++) fprintf(outf, "SAMPLE\t%s\n", samples[i]);
    for (int i = 0; i < ndsets; i++) for (u64 k = 0; k < 1 << 16; k++) if (dsets[i].s[k]) fprintf(outf, "SET\t%s\t%llx\n", dsets[i].k, (unsigned long long)dsets[i].s[k]);
    for (u64 k = 0; k < DSET; k++) if (dset[k]) fprintf(outf, "H\t%llx\n", (unsigned long long)dset[k]);
    fflush(outf);
}
static void run_one(casefn fn, u64 seed, u64 c)
{
    g_case = c;
    if (statusp) *statusp = c + 1;
    seed_rng(mixh(mixh(seed, c), (u64)(prop_id[1] - '0') * 10 + (u64)(prop_id[2] - '0')));
    fhash = 0; case_nt = 0; contract_no_out = 0; vbase = 0;
    rs_trace_to(log_cb); rs_trace_set_level(RS_LOG_ERR); cur_log = NULL;
    rs_inbuflen = rs_outbuflen = 0;
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    dg_begin();
    in_case = 1;
    if (!setjmp(case_jb)) fn(c);
    in_case = 0;
    clock_gettime(CLOCK_MONOTONIC, &t1);
    u64 ms = (u64)(t1.tv_sec - t0.tv_sec) * 1000 + (u64)((t1.tv_nsec - t0.tv_nsec + 1000000000) / 1000000) - 1000;
    evmax("slowest_case_ms", ms);
    if (ms > 3000) fprintf(stderr, "note: case %llu took %llu ms\n", (unsigned long long)c, (unsigned long long)ms);
    am_end();
    if (digests) fprintf(outf, "DG\t%llu\t%llx\n", (unsigned long long)c, (unsigned long long)dg_value());
    case_free_all();
    ncases++;
    if (case_nt) { nnontriv++; set_add(dset, DSET, fhash); ndset++; }
}
#ifdef LIBFUZZER
int LLVMFuzzerTestOneInput(const u8 *data, size_t size)
{
    static casefn fn; static u64 nrun;
    if (!fn) {
        const char *e = getenv("H_PROP");
        for (size_t i = 0; i < sizeof cases / sizeof *cases; i++) if (!strcmp(e ? e : "C10", cases[i].id)) { fn = cases[i].fn; prop_id = cases[i].id; }
        const char *o = getenv("H_OUT");
        outf = o ? fopen(o, "a") : stdout;
        dset = calloc(DSET, 8);
        flavor_trace = rs_supports_trace();
        am_reset();
    }
    if (size < 4) return -1;
    fz = data; nfz = size;
    u32 c = (u32)(data[0] | data[1] << 8 | data[2] << 16);
    int before = nviol;
    run_one(fn, 0, c);
    fz = NULL; nfz = 0;
    nrun++;
    if (nviol != before) abort();
    return 0;
}
#else
int main(int argc, char **argv)
{
    u64 seed = 1, start = 0, count = 10, step_ = 1, seconds = 0; int reverse = 0; const char *dictf = NULL, *statusf = NULL;
    casefn fn = NULL;
    outf = stdout;
    for (int i = 1; i < argc; i++) {
        const char *a = argv[i];
#define ARG(n) (!strcmp(a, n) && i + 1 < argc)
        if (ARG("--prop")) { prop_id = argv[++i]; }
        else if (ARG("--seed")) seed = strtoull(argv[++i], 0, 0);
        else if (ARG("--start")) start = strtoull(argv[++i], 0, 0);
        else if (ARG("--count")) count = strtoull(argv[++i], 0, 0);
        else if (ARG("--step")) step_ = strtoull(argv[++i], 0, 0);
        else if (ARG("--seconds")) seconds = strtoull(argv[++i], 0, 0);
        else if (ARG("--tier")) tier = !strcmp(argv[++i], "thorough");
        else if (ARG("--dict")) dictf = argv[++i];
        else if (ARG("--status")) statusf = argv[++i];
        else if (ARG("--out")) { outpath = argv[++i]; outf = fopen(outpath, "w"); }
        else if (!strcmp(a, "--digests")) digests = 1;
        else if (!strcmp(a, "--reverse")) reverse = 1;
        else if (!strcmp(a, "--all-viols")) max_viol = 1000000;
        else harness_error("bad argument %s", a);
    }
    if (!outf) harness_error("cannot open output");
    for (size_t i = 0; i < sizeof cases / sizeof *cases; i++) if (!strcmp(prop_id, cases[i].id)) fn = cases[i].fn;
    if (!fn) harness_error("no such property %s", prop_id);
    if (dictf) {
        FILE *f = fopen(dictf, "r"); unsigned long long v;
        dict = malloc(8 * 20000);
        while (f && ndict < 20000 && fscanf(f, "%llu", &v) == 1) dict[ndict++] = v;
        if (f) fclose(f);
    }
    if (statusf) {
        int fd = open(statusf, O_RDWR | O_CREAT, 0600);
        if (fd >= 0 && !ftruncate(fd, 8)) statusp = mmap(NULL, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (statusp == MAP_FAILED) statusp = NULL;
    }
    dset = calloc(DSET, 8);
    flavor_trace = rs_supports_trace();
    am_reset();
    struct timespec mt0, mt; clock_gettime(CLOCK_MONOTONIC, &mt0);
    for (u64 k = 0; k < count; k++) {
        run_one(fn, seed, start + (reverse ? count - 1 - k : k) * step_);
        if (nviol >= max_viol) break;
        clock_gettime(CLOCK_MONOTONIC, &mt);
        if (seconds && (u64)(mt.tv_sec - mt0.tv_sec) >= seconds) break;
    }
    write_report();
    return nviol ? 1 : 0;
}
#endif
