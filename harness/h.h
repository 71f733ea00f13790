/* Common harness declarations.  Only the public API of librsync is used. */
#ifndef H_H
#define H_H
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <setjmp.h>
#include <unistd.h>
#include "librsync.h"
/* Data libc hands to a stream's write function comes out of libc's buffer,
   which libc fills without telling MemorySanitizer. */
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define from_libc(p, n) __msan_unpoison((p), (n))
#endif
#endif
#ifndef from_libc
#define from_libc(p, n) ((void)0)
#endif

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;

/* ---- case allocation (never goes through the monitored allocator) ---- */
void *xm(size_t n);             /* freed at the end of the case */
void *xrealloc_raw(void *p, size_t n);
void *real_malloc(size_t n);
void real_free(void *p);
void case_free_all(void);
typedef struct { u8 *p; size_t n, cap; } buf;
void bput(buf *b, const void *p, size_t n);
void bputc(buf *b, int c);
void bput_be(buf *b, u64 v, int len);
buf bdup(const void *p, size_t n);

/* ---- choices ---- */
u64 rnd(void);                  /* 64 random bits (or fuzz bytes) */
u64 rn(u64 n);                  /* uniform 0..n-1, n>0 */
u64 rr(u64 lo, u64 hi);         /* uniform inclusive */
int chance(int num, int den);
void rbytes(u8 *p, size_t n);   /* fast pseudo-random fill */
size_t rsize(size_t max);       /* boundary-biased size 0..max */
u64 rconst(void);               /* a constant from the dictionary */
extern u64 *dict; extern size_t ndict;

/* ---- reporting ---- */
typedef void (*casefn)(u64 caseno);
extern int tier;                /* 0 quick 1 thorough */
extern const char *prop_id;
extern u64 g_case;
void viol(const char *key, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void softviol(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void harness_error(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void ev(const char *name, u64 n);           /* add to an event counter */
void evmax(const char *name, u64 n);
void evset(const char *name, u64 value);    /* count distinct values */
void feat(u64 h);                           /* mix into the case's feature hash */
void nontrivial(void);                      /* this case counts, by its feature hash */
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
u64 mixh(u64 a, u64 b);
extern int flavor_asserts, flavor_trace;    /* compile-time facts of the build */

/* ---- reference implementations ---- */
void ref_md4(u8 out[16], const u8 *p, size_t n);
void ref_blake2b256(u8 out[32], const u8 *p, size_t n);
void ref_blake2b_n(u8 *out, size_t outlen, const u8 *p, size_t n);
u32 ref_rollsum(const u8 *p, size_t n);
u32 ref_rk(const u8 *p, size_t n);
typedef struct { u32 magic; u32 bl; u32 sl; u32 count; u32 *weak; u8 *strong; } refsig;
int magic_is_rk(u32 magic);
int magic_is_blake(u32 magic);
u32 magic_max(u32 magic);
u32 ref_weak(u32 magic, const u8 *p, size_t n);
void ref_strong(u32 magic, u8 *out, const u8 *p, size_t n);
buf ref_signature(u32 magic, u32 bl, u32 sl, const u8 *p, size_t n);
int ref_parse_sig(refsig *s, const u8 *p, size_t n);  /* assumes well formed */
extern const u32 MAGICS[4];

enum { C_LIT, C_COPY };
typedef struct { int kind; u64 pos, len; size_t off; /* offset of literal data in delta */ u8 op; int hdr; } cmd;
typedef struct {
    int err;            /* 0 ok, or RS_* the format demands */
    cmd *c; size_t n;
    size_t used;        /* bytes including END */
    u64 lit_cmds, lit_bytes, lit_cmdbytes, copy_cmds, copy_bytes, copy_cmdbytes;
    size_t cmds_off;    /* where the erroneous command starts */
} delta;
void ref_parse_delta(delta *d, const u8 *p, size_t n);
int minimal_width(u64 v);
/* encode: width 0 = immediate/minimal */
void enc_lit(buf *b, const u8 *data, u64 len, int width);
void enc_copy(buf *b, u64 pos, u64 len, int wp, int wl);
void enc_magic(buf *b);
/* interpret: returns RS_DONE or expected error; output appended to out */
int ref_apply(const u8 *d, size_t dn, const u8 *basis, size_t bn, buf *out, size_t *used);
/* greedy matcher: fills seg list */
typedef struct { int copy; u64 pos, len; } seg;
typedef struct { seg *s; size_t n; u64 weak_hits, false_weak; } seglist;
void ref_greedy(const refsig *s, const u8 *p, size_t n, seglist *out);
size_t ref_affordable(u32 magic, size_t bl, const u8 *o, size_t on, const u8 *p, size_t n, u64 budget);
u32 ref_mix32(u32 h);
u32 ref_unmix32(u32 h);
u32 sig_hash(u32 magic, u32 weak);      /* hash class the lookup works with */
/* crafted blocks */
int craft_weak(u32 magic, u8 *block, size_t n, u32 target);    /* block has initial contents; adjusts */
int craft_collision(u32 magic, u8 *block, size_t n);   /* change block keeping its weak sum */

/* ---- running jobs ---- */
typedef struct {
    int inpol, outpol, eofpol, zeros, repeat; size_t inp, outp;
} sched;
sched rsched(void);
sched sched_big(void);
char *sched_str(const sched *s);
typedef struct {
    rs_result r;
    buf out;
    u64 calls, in_used, nblocked, zero_calls;
    size_t stop_after;          /* in: stop after this many calls (0 = never) */
    int hung;
    rs_stats_t stats;
    int presented_all;
} runres;
/* Feeds in[0..n) to the job; checks the buffer contract on each call; the job is not freed. */
void run_job(rs_job_t *job, const u8 *in, size_t n, const sched *s, runres *res);
typedef struct {
    rs_job_t *job; const u8 *in; size_t n; sched s;
    size_t ipos, have; int eof; runres res; int done; int nostall; size_t lastleft;
} stepper;
void step_init(stepper *st, rs_job_t *job, const u8 *in, size_t n, const sched *s);
int step(stepper *st);          /* one call; 1 = finished */
extern __thread int contract_no_out;     /* job has no output (loadsig) */

typedef struct { const u8 *p; size_t n; int mode; u64 calls; u64 fail_at; int fail_code; u64 reqbytes; } basis;
rs_result basis_cb(void *opaque, rs_long_t pos, size_t *len, void **buf);

buf do_sig(u32 magic, size_t bl, size_t sl, const u8 *p, size_t n, const sched *s, runres *rr);
rs_signature_t *do_load(const u8 *p, size_t n, const sched *s, runres *rr, int index);
buf do_delta(rs_signature_t *sig, const u8 *p, size_t n, const sched *s, runres *rr);
buf do_patch(const u8 *bp, size_t bn, const u8 *d, size_t dn, const sched *s, runres *rr);
void expect_done(const char *what, const runres *rr);
rs_result idle_load(rs_job_t *j);

/* ---- generators ---- */
typedef struct { u8 *o; size_t on; u8 *w; size_t wn; u32 magic; u32 bl, sl; int kind; } pair;
void gen_params(pair *p, size_t maxbl, int min_sl);
void gen_pair(pair *p, size_t maxn);
int gen_longblocks(pair *p, int one_in);
int gen_manyblocks(pair *p, int one_in);
void gen_content(u8 *p, size_t n, int kind, size_t bl);
char *pair_str(const pair *p);
void gen_valid_delta(buf *d, size_t bn, size_t maxout, u64 *outlen);
/* The basis held in memory may lie anywhere in a virtual file: where it starts (reset for each case). */
extern __thread u64 vbase;
void gen_vbase(size_t bn, int num, int den);

/* ---- allocation monitor ---- */
typedef struct { u64 live, live_bytes, peak_bytes, total, fails; i64 fail_at; int fail_forever; int active; } amon;
extern amon am;
void set_in_child(void);
void am_reset(void);
void am_begin(void); void am_end(void);

/* ---- log monitor ---- */
typedef struct { u64 n[8]; u64 total; u64 badline; int level; char last[1500]; char lasterr[1100]; } logmon;
extern __thread logmon *cur_log;
void log_cb(rs_loglevel level, char const *msg);

size_t firstdiff(const u8 *a, size_t an, const u8 *b, size_t bn);
int beq(const buf *a, const buf *b);

#define CASES \
 X(C01) X(C02) X(C03) X(C04) X(C05) X(C06) X(C07) X(C08) X(C09) X(C10) X(C11) X(C12) X(C13) \
 X(C14) X(C15) X(C16) X(C17) X(C18) X(C19) X(C20) X(C22) X(C23) X(C24) X(C25) X(C26) \
 X(C27) X(C28) X(C30) X(C31)
#define X(c) void case_##c(u64 caseno);
CASES
#undef X
#endif
