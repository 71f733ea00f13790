/* C27, C28: file helpers; results as a function of the inputs alone. */
#include "h.h"
#include <time.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <signal.h>
#include <sys/resource.h>

/* ---------- C27 ---------- */
typedef struct { const u8 *p; size_t n, pos; int shorts; i64 fail_at, nops; int failed; } hs;
static int hs_fault(hs *s) { if (s->nops++ == s->fail_at) { s->failed = 1; errno = EIO; return 1; } return 0; }
static ssize_t hs_read(void *c, char *b, size_t n)
{
    hs *s = c;
    if (hs_fault(s)) return -1;
    size_t k = s->n - s->pos;
    if (k > n) k = n;
    if (s->shorts && k) k = 1 + (size_t)rn(k);
    if (k) memcpy(b, s->p + s->pos, k);
    s->pos += k;
    return (ssize_t)k;
}
static int hs_seek(void *c, off64_t *off, int wh)
{
    hs *s = c;
    if (hs_fault(s)) return -1;
    off64_t o = *off;
    if (wh == SEEK_CUR) o += (off64_t)s->pos; else if (wh == SEEK_END) o += (off64_t)s->n;
    if (o < 0) { errno = EINVAL; return -1; }
    s->pos = o > (off64_t)s->n ? s->n : (size_t)o;
    *off = o;
    return 0;
}
static FILE *anon(const u8 *p, size_t n, u64 at)
{
    int fd = memfd_create("c27", 0);
    if (fd < 0) harness_error("memfd");
    for (size_t o = 0; o < n;) { ssize_t k = pwrite(fd, p + o, n - o, (off_t)(at + o)); if (k <= 0) harness_error("pwrite"); o += (size_t)k; }
    FILE *f = fdopen(fd, "r+");
    if (!f) harness_error("fdopen");
    return f;
}
/* One request; data of the file are p[0..n) at offset at, zeros before. */
static void one_copy(FILE *f, const u8 *p, size_t n, u64 at, u64 pos, size_t len, hs *s)
{
    u64 size = n ? at + n : 0;
    u8 *b = real_malloc(len + 32);
    memset(b, 0xA5, len + 32);
    void *bp = b + 16;
    size_t l = len;
    i64 before = s ? s->failed : 0;
    rs_result r = rs_file_copy_cb(f, (rs_long_t)pos, &l, &bp);
    int faulted = s && s->failed && !before;
    for (int i = 0; i < 16; i++) if (b[i] != 0xA5 || b[16 + len + (size_t)i] != 0xA5) viol("copy-overflow", "rs_file_copy_cb wrote outside the %zu bytes it was given", len);
    if (r == RS_DONE) {
        size_t want = pos >= size ? 0 : size - pos < len ? (size_t)(size - pos) : len;
        if (!l) viol("copy-empty", "rs_file_copy_cb reported success with no data at %llu of %llu", (unsigned long long)pos, (unsigned long long)size);
        if (l > want) viol("copy-invented", "rs_file_copy_cb gave %zu bytes at %llu of a file of %llu (%zu asked)", l, (unsigned long long)pos, (unsigned long long)size, len);
        if (l < want && !faulted) viol("copy-short", "rs_file_copy_cb gave %zu of %zu bytes at %llu of a file of %llu", l, want, (unsigned long long)pos, (unsigned long long)size);
        const u8 *g = bp;
        for (size_t i = 0; i < l; i++) {
            u64 q = pos + i;
            u8 e = q < at ? 0 : p[q - at];
            if (g[i] != e) viol("copy-wrong-data", "rs_file_copy_cb: byte %zu of the %zu at %llu is wrong (file of %llu)", i, l, (unsigned long long)pos, (unsigned long long)size);
        }
        ev("ranges_read", 1);
    } else {
        if (faulted) { if (r != RS_IO_ERROR && !(pos >= size && r == RS_INPUT_ENDED)) viol("copy-fault-result", "a failed seek or read gives result %d", r); ev("copy_faults_reported", 1); }
        else if (pos < size) viol("copy-failed", "rs_file_copy_cb of %zu bytes at %llu of a file of %llu returned %d", len, (unsigned long long)pos, (unsigned long long)size, r);
        else if (r != RS_INPUT_ENDED && !(s && s->failed && r == RS_IO_ERROR)) viol("copy-end-result", "reading past the end gives result %d", r);
        else ev("ends_of_file_reported", 1);
    }
    real_free(b);
}
static void c27_copy(void)
{
    size_t n = rsize(chance(1, 4) ? 70000 : 5000);
    u8 *p = xm(n + 1); rbytes(p, n);
    u64 at = 0;
    FILE *f; hs s = { .p = p, .n = n, .shorts = chance(1, 2), .fail_at = -1 };
    int kind = (int)rn(5);
    if (kind >= 3) {            /* kind 4: with a fault */
        if (kind == 4) s.fail_at = (i64)rn(25);
        cookie_io_functions_t io = { hs_read, NULL, hs_seek, NULL };
        f = fopencookie(&s, "r", io);
        if (!f) harness_error("fopencookie");
    } else {
        if (kind == 2 && n) { static const u64 B[] = { (u64)1 << 31, (u64)1 << 32, (u64)1 << 33, (u64)1 << 40 }; at = B[rn(4)] - rn(2 * n + 1); }
        f = anon(p, n, at);
    }
    if (chance(1, 3)) setvbuf(f, xm(600), _IOFBF, 1 + rn(600)); else if (chance(1, 3)) setvbuf(f, NULL, _IONBF, 0);
    u64 size = n ? at + n : 0;
    int q = (int)rr(1, 25);
    u64 last = at;
    for (int i = 0; i < q; i++) {
        u64 pos; size_t len = 1 + rsize(chance(1, 8) ? 200000 : 3000);
        switch (rn(8)) {
        case 0: pos = size; break;
        case 1: pos = size + 1 + rn(5000); break;
        case 2: pos = size ? size - 1 : 0; break;
        case 3: pos = last; break;              /* where the last one ended */
        case 4: pos = at ? at - 1 - rn(at < 5000 ? at : 5000) : 0; break;
        default: pos = n ? at + rn(n) : 0; break;
        }
        if (chance(1, 12)) { int ch = fgetc(f); (void)ch; }
        if (chance(1, 12)) { fseeko(f, 0, SEEK_END); int ch = fgetc(f); (void)ch; }
        one_copy(f, p, n, at, pos, len, kind >= 3 ? &s : NULL);
        last = pos + len;
        feat(pos); feat(len);
    }
    fclose(f);
    ev("copy_callback_requests", (u64)q);
    sample("%d ranges of a file of %llu bytes read through rs_file_copy_cb", q, (unsigned long long)size);
    if (chance(1, 6)) {         /* what can be neither sought nor read */
        logmon lm; memset(&lm, 0, sizeof lm); cur_log = &lm;
        for (int k = 0; k < 3; k++) {
            int pp[2];
            if (k == 0) { if (pipe(pp)) harness_error("pipe"); if (write(pp[1], p, n < 4000 ? n : 4000) < 0) harness_error("write"); close(pp[1]); f = fdopen(pp[0], "r"); }
            else f = k == 1 ? fopen("/", "r") : fopen("/dev/null", "w");
            if (!f) harness_error("open");
            u8 b[64]; void *bp = b; size_t l = sizeof b;
            rs_result r = rs_file_copy_cb(f, (rs_long_t)rn(2), &l, &bp);
            if (r != RS_IO_ERROR) viol("copy-fault-result", "rs_file_copy_cb on %s returned %d", k == 0 ? "a pipe" : k == 1 ? "a directory" : "a stream not open for reading", r);
            fclose(f);
            ev("copy_faults_reported", 1);
        }
        if (!lm.n[RS_LOG_ERR]) viol("copy-fault-silent", "no error message from rs_file_copy_cb");
        cur_log = NULL;
    }
}
static void c27_size(void)
{
    size_t n = rsize(5000);
    u8 *p = xm(n + 1); rbytes(p, n);
    u64 at = chance(1, 2) ? 0 : chance(1, 2) ? ((u64)1 << (28 + rn(14))) + rn(3) - 1 : rn((u64)1 << 42);
    FILE *f = anon(p, n, n ? at : 0);
    if (n == 0) at = 0;
    u64 size = n ? at + n : 0;
    if (chance(1, 3)) { size = chance(1, 2) ? rn((u64)1 << 43) : ((u64)1 << (31 + rn(3))) + rn(3) - 1; if (ftruncate(fileno(f), (off_t)size)) harness_error("ftruncate"); }
    u64 where = size ? rn(size) : 0;
    if (fseeko(f, (off_t)where, SEEK_SET)) harness_error("fseeko");
    for (int i = 0; i < 2; i++) if ((u64)rs_file_size(f) != size) viol("file-size", "rs_file_size gives %jd for a file of %llu bytes", (intmax_t)rs_file_size(f), (unsigned long long)size);
    if ((u64)ftello(f) != where) viol("file-size-moves", "rs_file_size moved the stream from %llu to %lld", (unsigned long long)where, (long long)ftello(f));
    fclose(f);
    int pp[2];
    if (pipe(pp)) harness_error("pipe");
    if (n && write(pp[1], p, n < 4000 ? n : 4000) < 0) harness_error("write");
    FILE *q[4] = { fdopen(pp[0], "r"), fopen("/dev/null", "r"), fopen("/dev/zero", "r"), fopen("/", "r") };
    for (int i = 0; i < 4; i++) {
        if (!q[i]) harness_error("open");
        if (rs_file_size(q[i]) != -1) viol("file-size", "rs_file_size gives %jd for something that is not a regular file (%d)", (intmax_t)rs_file_size(q[i]), i);
        fclose(q[i]);
    }
    close(pp[1]);
    ev("file_sizes_asked", 6);
    feat(size); feat(where);
    sample("rs_file_size of %llu bytes, pipe, devices, directory", (unsigned long long)size);
}
static char *path_of(const char *dir, const char *name) { char *s = xm(strlen(dir) + strlen(name) + 2); sprintf(s, "%s/%s", dir, name); return s; }
static void put_file(const char *path, const u8 *p, size_t n)
{
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || (n && write(fd, p, n) != (ssize_t)n)) harness_error("cannot write %s", path);
    close(fd);
}
static int file_is(const char *path, const u8 *p, size_t n)
{
    int fd = open(path, O_RDONLY);
    if (fd < 0) return 0;
    u8 *b = real_malloc(n + 2);
    ssize_t k = read(fd, b, n + 1);
    close(fd);
    int ok = k == (ssize_t)n && (!n || !memcmp(b, p, n));
    real_free(b);
    return ok;
}
/* In a child: opens, uses and closes; the exit status tells what happened.
   0: opened and worked, 40: opened but misbehaved, anything else: rs_file_open's own exit status. */
typedef struct { u64 errs, opened; } oshm;
static oshm *osh;
static void open_log(rs_loglevel l, char const *m) { if ((l & 7) <= RS_LOG_ERR && m && strlen(m) > 5 && strchr(m, '\n') == m + strlen(m) - 1) osh->errs++; }
static int open_in_child(const char *path, const char *mode, int force, const u8 *data, size_t n, int uid)
{
    memset(osh, 0, sizeof *osh);
    fflush(NULL);
    pid_t pid = fork();
    if (pid < 0) harness_error("fork");
    if (!pid) {
        struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
        set_in_child();
        rs_trace_to(open_log); rs_trace_set_level(RS_LOG_ERR);
        if (uid && (setgid((gid_t)uid) || setuid((uid_t)uid))) _exit(50);
        FILE *f = rs_file_open(path, mode, force);
        osh->opened = 1;
        if (!f) _exit(40);
        if (mode[0] == 'w') {
            if (n && fwrite(data, 1, n, f) != n) _exit(41);
            int fd = fileno(f);
            if (rs_file_close(f)) _exit(42);
            if (fcntl(fd, F_GETFD) != -1) _exit(43);
        } else {
            u8 *b = malloc(n + 2);
            size_t k = fread(b, 1, n + 1, f);
            if (k != n || (n && memcmp(b, data, n))) _exit(44);
            free(b);
            int fd = fileno(f);
            if (rs_file_close(f)) _exit(42);
            if (fcntl(fd, F_GETFD) != -1) _exit(43);
        }
        _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    ev("opens_in_child_processes", 1);
    if (WIFSIGNALED(st)) viol("open-crash", "rs_file_open(%s, %s, %d) killed by signal %d", path ? path : "NULL", mode, force, WTERMSIG(st));
    return WEXITSTATUS(st);
}
static void must_refuse(const char *what, const char *path, const char *mode, int force, const u8 *data, size_t n, int uid)
{
    int e = open_in_child(path, mode, force, data, n, uid);
    if (e == 50) { ev("user_change_not_permitted", 1); return; }
    if (osh->opened) viol("open-accepted", "rs_file_open(%s, force %d) accepted %s", mode, force, what);
    if (!e) viol("open-exit-status", "rs_file_open ended the process with status 0 for %s", what);
    if (!osh->errs) viol("open-silent", "no message for %s", what);
    ev("opens_refused", 1);
}
static void must_open(const char *what, const char *path, const char *mode, int force, const u8 *data, size_t n)
{
    int e = open_in_child(path, mode, force, data, n, 0);
    if (e) viol("open-failed", "rs_file_open(%s, force %d) of %s: %s %d", mode, force, what, osh->opened ? "opened, then failed at check" : "exit status", e);
    ev("opens_that_worked", 1);
}
static void c27_open(void)
{
    const char *td = getenv("TMPDIR"); if (!td) td = "/tmp";
    char *dir = xm(strlen(td) + 20); sprintf(dir, "%s/c27XXXXXX", td);
    if (!mkdtemp(dir)) harness_error("mkdtemp");
    if (chmod(dir, 0777)) harness_error("chmod");
    if (!osh) { osh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (osh == MAP_FAILED) harness_error("mmap"); }
    size_t on = chance(1, 4) ? 0 : rsize(9000), n = chance(1, 4) ? 0 : rsize(9000);
    u8 *o = xm(on + 1), *w = xm(n + 1); rbytes(o, on); rbytes(w, n);
    static const char *const names[] = { "a", "-x", "%s%n%d", "a b", "\xc3\xa9", "--", "- ", "0" };
    char *a = path_of(dir, names[rn(8)]);
    int back = -1;
    if (chance(1, 2)) {         /* by a name that is relative */
        back = open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
        if (back < 0 || chdir(dir)) harness_error("chdir");
        a = path_of(".", strrchr(a, '/') + 1) + 2; ev("relative_names", 1);
    }
    char *ln = path_of(dir, "link"), *sub = path_of(dir, "sub"), *none = path_of(dir, "no/such");
    const char *rm_ = chance(1, 2) ? "rb" : "r", *wm = chance(1, 2) ? "wb" : "w";
    switch (rn(6)) {
    case 0:                     /* does not exist */
        must_refuse("a missing file for reading", a, rm_, (int)rn(2), NULL, 0, 0);
        if (!access(a, F_OK)) viol("open-created", "opening a missing file for reading created it");
        must_open("a new file", a, wm, (int)rn(2), w, n);
        if (!file_is(a, w, n)) viol("open-wrong-contents", "a new file does not hold what was written");
        break;
    case 1:                     /* exists */
        put_file(a, o, on);
        must_open("an existing file", a, rm_, (int)rn(2), o, on);
        must_refuse("an existing file without force", a, wm, 0, w, n, 0);
        if (!file_is(a, o, on)) viol("open-damaged-existing", "an existing file was changed though not forced");
        must_open("an existing file, forced", a, wm, 1, w, n);
        if (!file_is(a, w, n)) viol("open-wrong-contents", "a forced overwrite left other contents");
        break;
    case 2:                     /* by a link */
        put_file(a, o, on);
        if (symlink(a, ln)) harness_error("symlink");
        must_refuse("a link to an existing file without force", ln, wm, 0, w, n, 0);
        if (!file_is(a, o, on)) viol("open-damaged-existing", "an existing file was changed through a link though not forced");
        must_open("a link to an existing file", ln, rm_, 0, o, on);
        must_open("a link to an existing file, forced", ln, wm, 1, w, n);
        if (!file_is(a, w, n)) viol("open-wrong-contents", "a forced overwrite left other contents");
        break;
    case 3:                     /* directories */
        if (mkdir(sub, 0755)) harness_error("mkdir");
        must_refuse("a directory for writing", sub, wm, 0, w, n, 0);
        must_refuse("a directory for writing", sub, wm, 1, w, n, 0);
        must_refuse("a file in a missing directory", none, wm, (int)rn(2), w, n, 0);
        must_refuse("a file in a missing directory for reading", none, rm_, (int)rn(2), w, n, 0);
        put_file(a, o, on);
        must_refuse("a path through a file", path_of(a, "x"), wm, (int)rn(2), w, n, 0);
        if (!file_is(a, o, on)) viol("open-damaged-existing", "an existing file was changed");
        break;
    case 4:                     /* exists but cannot be read by this user */
        put_file(a, o, on);
        if (chmod(a, 0222)) harness_error("chmod");
        must_refuse("an existing unreadable file without force", a, wm, 0, w, n, 65534);
        must_refuse("an unreadable file", a, rm_, 0, w, n, 65534);
        if (!file_is(a, o, on)) viol("open-damaged-existing", "an existing file this user cannot read was changed though not forced");
        break;
    default:                    /* standard streams */
        for (int k = 0; k < 8; k++) {
            int wr = k & 1, force = k >> 1 & 1;
            FILE *f = rs_file_open(k & 4 ? NULL : "-", wr ? wm : rm_, force);
            if (f != (wr ? stdout : stdin)) viol("open-standard", "rs_file_open(%s, %s) did not give the standard stream", k & 4 ? "NULL" : "\"-\"", wr ? wm : rm_);
            int fd = fileno(f), had = fcntl(fd, F_GETFD);
            if (rs_file_close(f)) viol("close-standard", "rs_file_close of a standard stream failed");
            if (fileno(f) != fd || fcntl(fd, F_GETFD) != had) viol("close-standard", "rs_file_close closed a standard stream");
            ev("standard_streams_opened", 1);
        }
        /* what could not be written must be reported by the time the stream is closed */
        FILE *f = fopen("/dev/full", "w");
        if (!f) harness_error("/dev/full");
        fwrite("abc", 1, 3, f);
        if (!rs_file_close(f)) viol("close-hides-failure", "rs_file_close reported success though the data could not be written");
        fflush(NULL);
        pid_t pid = fork();
        if (pid < 0) harness_error("fork");
        if (!pid) {
            int fd = open("/dev/full", O_WRONLY);
            dup2(fd, 1);
            fwrite("abc", 1, 3, stdout);
            _exit(rs_file_close(stdout) ? 0 : 1);
        }
        int st;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
        if (st) viol("close-hides-failure", "rs_file_close of standard output reported success though the data could not be written (%x)", st);
        for (int k = 0; k < 3; k++) {   /* a file that got the descriptor of a standard stream is still a file */
            fflush(NULL);
            pid = fork();
            if (pid < 0) harness_error("fork");
            if (!pid) {
                close(k);
                f = rs_file_open("/dev/full", "wb", 1);
                if (!f || fileno(f) != k) _exit(2);
                fwrite("abc", 1, 3, f);
                _exit(rs_file_close(f) ? 0 : 1);
            }
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
            if (st) viol("close-hides-failure", "rs_file_close of a file with descriptor %d reported success though the data could not be written (%x)", k, st);
        }
        ev("failing_closes", 5);
    }
    unlink(a); unlink(ln); rmdir(sub);
    if (back >= 0) { if (fchdir(back)) harness_error("fchdir"); close(back); }
    if (rmdir(dir)) { /* something else was created */ viol("open-stray", "rs_file_open left something else in the directory"); }
    feat(n); feat(on); feat(rnd());
    sample("files, links, directories, standard streams opened and closed in a scratch directory");
}
void case_C27(u64 c)
{
    switch (c / 8 % 4) { case 0: case 1: c27_copy(); break; case 2: c27_size(); break; default: c27_open(); }
    nontrivial();
}

/* ---------- C28 ---------- */
static u64 dg_, dgn;
void dg_begin(void) { dg_ = 0x1234; dgn = 0; }
u64 dg_value(void) { return dg_; }
static int dg_trace = -1;
static void dg(u64 v) { if (dg_trace < 0) dg_trace = getenv("DG_TRACE") != NULL; if (dg_trace) fprintf(stderr, "digest input %llu: %llx\n", (unsigned long long)dgn, (unsigned long long)v); dg_ = mixh(dg_, v + 0x9e3779b9u); dgn++; }
static void dgb(const void *p, size_t n)
{
    const u8 *b = p; u64 h = 0xcbf29ce484222325u;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3u;
    dg(n); dg(h);
}
static void dgs(const rs_stats_t *s)
{
    dg((u64)s->lit_cmds); dg((u64)s->lit_bytes); dg((u64)s->lit_cmdbytes); dg((u64)s->copy_cmds); dg((u64)s->copy_bytes); dg((u64)s->copy_cmdbytes);
    dg((u64)s->sig_cmds); dg((u64)s->sig_bytes); dg((u64)s->false_matches); dg((u64)s->sig_blocks); dg(s->block_len); dg((u64)s->in_bytes); dg((u64)s->out_bytes);
    dgb(s->op ? s->op : "", s->op ? strlen(s->op) : 0);
}
static void dgr(const runres *r, const buf *b) { dg((u64)r->r); dg(r->in_used); dg(r->calls); if (b) dgb(b->p, b->n); dgs(&r->stats); }
static buf slurp(FILE *f)
{
    buf b = { 0 }; char t[4096]; size_t k;
    fflush(f); rewind(f);
    while ((k = fread(t, 1, sizeof t, f)) > 0) bput(&b, t, k);
    fclose(f);
    return b;
}
static buf lines_; static u64 nlines_, badlines_;
static void lines_cb(rs_loglevel level, char const *msg)
{
    size_t n = strlen(msg);
    if (level != RS_LOG_INFO) { badlines_++; return; }
    nlines_++; bput(&lines_, msg, n);
    if (!n || msg[n - 1] != '\n' || strchr(msg, '\n') != msg + n - 1) badlines_++;
}
static void collect(int on)
{
    if (on) { memset(&lines_, 0, sizeof lines_); nlines_ = badlines_ = 0; rs_trace_set_level(RS_LOG_INFO); rs_trace_to(lines_cb); }
    else { rs_trace_to(log_cb); rs_trace_set_level(RS_LOG_ERR); bputc(&lines_, 0); }
}
void case_C28(u64 c)
{
    pair p;
    runres r;
    gen_params(&p, chance(1, 10) ? 5000 : 300, 1);
    if (!gen_longblocks(&p, 150) && !gen_manyblocks(&p, 100)) gen_pair(&p, chance(1, 6) ? 60000 : 3000);
    sched s = rsched();
    buf sb = do_sig(p.magic, p.bl, p.sl, p.o, p.on, &s, &r); dgr(&r, &sb);
    s = rsched();
    rs_signature_t *sig = do_load(sb.p, sb.n, &s, &r, 0); dgr(&r, NULL);
    if (sig) {
        dg((u64)rs_build_hash_table(sig));
        s = rsched();
        buf d = do_delta(sig, p.w, p.wn, &s, &r); dgr(&r, &d);
        if (chance(1, 4)) { collect(1); rs_sumset_dump(sig); if (p.wn && p.on) rs_signature_log_stats(sig); collect(0); dgb(lines_.p, lines_.n); }
        s = rsched();
        buf o = do_patch(p.o, p.on, d.p, d.n, &s, &r); dgr(&r, &o);
        if (d.n) {              /* damaged */
            d.p[rn(d.n)] ^= (u8)(1u << rn(8)); if (chance(1, 2)) d.n = (size_t)rn(d.n + 1);
            s = rsched();
            o = do_patch(p.o, p.on, d.p, d.n, &s, &r); dgr(&r, &o);
        }
        if (chance(1, 2)) {     /* whole files */
            rs_inbuflen = chance(1, 2) ? 0 : (int)rr(1, 3000); rs_outbuflen = chance(1, 2) ? 0 : (int)rr(1, 3000);
            rs_stats_t st; FILE *a, *b, *q;
            memset(&st, 0, sizeof st);
            a = anon(p.o, p.on, 0); rewind(a); q = anon(NULL, 0, 0);
            size_t wbl = chance(1, 2) ? 0 : p.bl, wsl = chance(1, 2) ? 0 : p.sl; rs_magic_number wm = chance(1, 3) ? 0 : (rs_magic_number)p.magic;
            if (!wm) wsl = 0;
            dg((u64)rs_sig_file(a, q, wbl, wsl, wm, &st)); dgs(&st); fclose(a);
            buf x = slurp(q); dgb(x.p, x.n);
            a = anon(p.w, p.wn, 0); rewind(a); q = anon(NULL, 0, 0);
            dg((u64)rs_delta_file(sig, a, q, &st)); dgs(&st); fclose(a);
            x = slurp(q); dgb(x.p, x.n);
            a = anon(p.o, p.on, 0); b = anon(x.p, x.n, 0); rewind(b); q = anon(NULL, 0, 0);
            dg((u64)rs_patch_file(a, b, q, &st)); dgs(&st); fclose(a); fclose(b);
            x = slurp(q); dgb(x.p, x.n);
            st.start = 5; st.end = 9; char t[500]; rs_format_stats(&st, t, sizeof t); dgb(t, strlen(t));
            rs_inbuflen = rs_outbuflen = 0;
            ev("whole_file_results", 3);
        }
        rs_free_sumset(sig);
    }
    if (sb.n && chance(1, 2)) { /* damaged signature, and what it then gives */
        buf m = bdup(sb.p, sb.n);
        m.p[rn(m.n)] ^= (u8)(1u << rn(8)); if (chance(1, 2)) m.n = (size_t)rn(m.n + 1);
        u32 mbl = m.n >= 12 ? (u32)m.p[4] << 24 | (u32)m.p[5] << 16 | (u32)m.p[6] << 8 | m.p[7] : 0;
        sched z = rsched();
        sig = NULL;
        rs_job_t *j = rs_loadsig_begin(&sig);
        contract_no_out = 1; run_job(j, m.p, m.n, &z, &r); contract_no_out = 0;
        dgr(&r, NULL);
        rs_job_free(j);
        if (sig && r.r == RS_DONE && mbl < 2000000) { dg((u64)rs_build_hash_table(sig)); buf d = do_delta(sig, p.w, p.wn, &z, &r); dgr(&r, &d); }
        if (sig) rs_free_sumset(sig);
    }
    for (int i = 0; i < 5; i++) {
        rs_magic_number m = (rs_magic_number)(chance(1, 3) ? 0 : chance(1, 5) ? (u32)rnd() : MAGICS[rn(4)]);
        size_t bl = chance(1, 2) ? 0 : rsize(100000), sl = chance(1, 3) ? 0 : chance(1, 3) ? (size_t)-1 : rn(40);
        u64 fsz = rnd(); fsz >>= 1 + rn(62); if (chance(1, 5)) fsz = (u64)-1;
        dg((u64)rs_sig_args((rs_long_t)fsz, &m, &bl, &sl)); dg((u64)(u32)m); dg(bl); dg(sl);
    }
    {
        size_t n = rsize(1000); u8 *d = xm(n + 1); rbytes(d, n); u8 o[16]; char *t = xm(2 * n + 5);
        rs_mdfour(o, d, n); dgb(o, 16); rs_hexify(t, d, (int)n); dgb(t, strlen(t)); rs_base64(d, (int)n, t); dgb(t, strlen(t)); dg(rs_unbase64(t));
        for (int i = 0; i < 112; i++) { const char *e = rs_strerror((rs_result)i); dgb(e, strlen(e)); }
    }
    ev("results_digested", dgn);
    feat(dg_); nontrivial();
    sample("%s: %llu results digested", pair_str(&p), (unsigned long long)dgn);
    (void)c;
}

/* ---------- C30: reports on signatures and searches ---------- */
/* number after some text, on the same line */
static int num_at(const char *t, const char *before, const char *fmt, void *a)
{
    char l[300]; size_t n = 0;
    while (n < sizeof l - 1 && t[n] && t[n] != '\n') { l[n] = t[n]; n++; }
    l[n] = 0;
    const char *q = strstr(l, before);
    return q ? sscanf(q + strlen(before), fmt, a) : 0;
}
static void c30_dump(const refsig *rs, rs_signature_t *sig)
{
    collect(1); rs_sumset_dump(sig); collect(0);
    char *t = (char *)lines_.p;
    if (badlines_ || nlines_ != 1 + (u64)rs->count) viol("dump-lines", "dump of %u blocks gives %llu lines, %llu of them broken", rs->count, (unsigned long long)nlines_, (unsigned long long)badlines_);
    for (size_t i = 0; i < lines_.n; i++) if (lines_.p[i] == '\n') lines_.p[i] = 0;    /* each line a string */
    unsigned m = 0; int bl = -1, n = -1;
    if (num_at(t, "magic=", "%x", &m) != 1 || num_at(t, "block_len=", "%d", &bl) != 1 || num_at(t, "block_num=", "%d", &n) != 1 || m != rs->magic || bl != (int)rs->bl || n != (int)rs->count)
        viol("dump-header", "dump of a signature with magic %x, block length %u, %u blocks starts '%.100s'", rs->magic, rs->bl, rs->count, t);
    char *hex = xm(2 * rs->sl + 3);
    for (u32 i = 0; i < rs->count; i++) {
        t += strlen(t) + 1;
        int idx = -1; unsigned w = 0; const char *st = strstr(t, "strong=");
        if (num_at(t, "sum ", "%d", &idx) != 1 || idx != (int)i) viol("dump-order", "line of block %u is '%.60s'", i, t);
        if (num_at(t, "weak=", "%x", &w) != 1 || (w != rs->weak[i] && w != sig_hash(rs->magic, rs->weak[i]) && w != ref_mix32(rs->weak[i]))) viol("dump-weak", "block %u has rolling sum %08x, shown: '%.60s'", i, rs->weak[i], t);
        for (u32 k = 0; k < rs->sl; k++) sprintf(hex + 2 * k, "%02x", rs->strong[(size_t)i * rs->sl + k]);
        hex[2 * rs->sl] = 0;
        if (!st || strcmp(st + 7, hex)) viol("dump-strong", "block %u has strong sum %.*s, shown: '%.100s'", i, (int)(2 * rs->sl), hex, t);
        ev("dumped_blocks_checked", 1);
    }
}
static void c30_stats(rs_signature_t *sig, u64 want_search, u64 want_match, int deltas)
{
    collect(1); rs_signature_log_stats(sig); collect(0);
    if (!nlines_) { ev("builds_without_search_statistics", 1); return; }
    char *t = (char *)lines_.p;
    long se = -1, ma = -1, wc = -1, ec = -1, sc = -1; double pm = 0, pw = 0, pe = 0, ps = 0;
    if (badlines_ || nlines_ != 1) viol("search-statistics-lines", "%llu lines", (unsigned long long)nlines_);
    const char *q = strstr(t, "[");
    if (!q) viol("search-statistics-text", "%.200s", t);
    if (deltas && want_search) {
        if (sscanf(q, "[%ld searches, %ld (%lf%%) matches, %ld (%lfx) weak sum compares, %ld (%lf%%) strong sum compares, %ld (%lf%%) strong sum calcs]", &se, &ma, &pm, &wc, &pw, &ec, &pe, &sc, &ps) != 9) viol("search-statistics-text", "%.250s", t);
        if ((u64)ma != want_match) viol("search-statistics-matches", "%ld matches reported, %d deltas copied %llu blocks: %.250s", ma, deltas, (unsigned long long)want_match, t);
        if ((u64)se != want_search) viol("search-statistics-searches", "%ld searches reported for %llu windows: %.250s", se, (unsigned long long)want_search, t);
        if (sc < ma || sc > se || ec < sc) viol("search-statistics-strong", "strong sums computed %ld times and compared %ld times for %ld matches in %ld searches", sc, ec, ma, se);
        double k = (double)se;
#define OFF(x, y) ((x) - (y) > 0.00051 || (y) - (x) > 0.00051)
        if (OFF(pm, 100 * (double)ma / k) || OFF(pw, (double)wc / k) || OFF(pe, 100 * (double)ec / k) || OFF(ps, 100 * (double)sc / k)) viol("search-statistics-rates", "rates do not fit the counts: %.250s", t);
        ev("search_statistics_checked", 1);
    } else if (sscanf(q, "[%ld searches, %ld (", &se, &ma) != 2 || se || ma) viol("search-statistics-initial", "nothing searched yet: %.250s", t);
}
void case_C30(u64 c)
{
    pair p;
    gen_params(&p, chance(1, 8) ? 20000 : 500, chance(1, 4) ? 1 : 8);
    int large = gen_longblocks(&p, 200) || gen_manyblocks(&p, 150);
    if (!large) gen_pair(&p, chance(1, 8) ? 120000 : 6000);
    sched s = large || chance(1, 3) ? sched_big() : rsched();
    runres r;
    buf sb = do_sig(p.magic, p.bl, p.sl, p.o, p.on, &s, &r);
    expect_done("signature", &r);
    refsig rs; ref_parse_sig(&rs, sb.p, sb.n);
    rs_signature_t *sig = do_load(sb.p, sb.n, &s, &r, 0);
    expect_done("loadsig", &r);
    if (chance(1, 2)) c30_dump(&rs, sig);
    int rounds = rs.count ? large ? 1 : 1 + (int)rn(2) : 0;
    for (int k = 0; k < rounds; k++) {
        if (rs_build_hash_table(sig) != RS_DONE) viol("unexpected-error", "rs_build_hash_table failed");
        if (chance(1, 3)) c30_stats(sig, 0, 0, 0);
        u64 se = 0, ma = 0; int nd = large ? 1 : 1 + (int)rn(3);
        for (int j = 0; j < nd; j++) {
            size_t off = j ? (size_t)rn(p.wn + 1) : 0; s = large || chance(1, 2) ? sched_big() : rsched();
            buf d = do_delta(sig, p.w + off, p.wn - off, &s, &r);
            expect_done("delta", &r);
            delta x; ref_parse_delta(&x, d.p, d.n);
            if (x.err) viol("malformed-delta", "delta does not parse");
            for (size_t i = 0; i < x.n; i++) if (x.c[i].kind == C_COPY) { u64 b = (x.c[i].len + p.bl - 1) / p.bl; se += b; ma += b; } else se += x.c[i].len;
            if (chance(1, 2)) c30_stats(sig, se, ma, j + 1);
        }
        c30_stats(sig, se, ma, nd);
        feat(se); feat(ma);
        if (ma) nontrivial();
    }
    c30_dump(&rs, sig);
    rs_free_sumset(sig);
    feat(c % 5); feat(rs.count);
    sample("%s: dump of %u blocks and search statistics agree with the signature and its deltas", pair_str(&p), rs.count);
}

/* ---------- C31: the work grows in proportion to the data ---------- */
static u64 cpu_ns(void) { struct timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return (u64)t.tv_sec * 1000000000ull + (u64)t.tv_nsec; }
/* a plain driver: no checks, no buffers kept unless asked for */
static u64 c31_drive(rs_job_t *j, const u8 *in, size_t n, size_t ci, size_t co, buf *keep, const char *what)
{
    u8 *ob = real_malloc(co);
    memset(ob, 1, co);          /* page faults are not the library's doing */
    size_t pos = 0; rs_result r; u64 calls = 0, t0 = cpu_ns();
    for (;;) {
        size_t k = n - pos < ci ? n - pos : ci;
        rs_buffers_t b = { (char *)in + pos, k, pos + k == n, (char *)ob, co };
        r = rs_job_iter(j, &b);
        pos += k - b.avail_in;
        calls++;
        if (keep) bput(keep, ob, co - b.avail_out);

        if (r != RS_BLOCKED) break;
    }
    u64 t = cpu_ns() - t0;
    real_free(ob);
    if (r != RS_DONE) viol("unexpected-error", "%s returned %d", what, r);
    ev("timed_calls", calls);

    return t;
}
typedef struct { u32 magic, bl, sl; int content, fresh, chunk_in, chunk_out, opn; size_t per; u32 k; u64 seed; } c31;
static u64 c31_rnd(u64 *s) { u64 x = *s += 0x9e3779b97f4a7c15ull; x = (x ^ x >> 30) * 0xbf58476d1ce4e5b9ull; x = (x ^ x >> 27) * 0x94d049bb133111ebull; return x ^ x >> 31; }
static void c31_rand(u64 *s, u8 *p, size_t n) { size_t i = 0; for (; i + 8 <= n; i += 8) { u64 v = c31_rnd(s); memcpy(p + i, &v, 8); } for (; i < n; i++) p[i] = (u8)c31_rnd(s); }
/* contents whose blocks are all different, or repeated, but never alike by the weak sum alone */
static void c31_fill(const c31 *q, u8 *p, size_t n, int kind)
{
    u64 s = q->seed; size_t bl = q->bl;
    u8 *set = NULL;
    switch (kind) {
    case 0: c31_rand(&s, p, n); break;
    case 1: memset(p, (int)(c31_rnd(&s) & (q->k & 1 ? 255 : 0)), n); break;
    case 2: case 3:                     /* a few different blocks, taking turns or in any order */
        set = real_malloc(q->k * bl); c31_rand(&s, set, q->k * bl);
        for (size_t i = 0, b = 0; i < n; i += bl, b++) memcpy(p + i, set + (kind == 2 ? b % q->k : c31_rnd(&s) % q->k) * bl, n - i < bl ? n - i : bl);
        break;
    case 4:                             /* zeros with some blocks of data in between */
        memset(p, 0, n);
        for (size_t i = 0; i + bl <= n; i += bl) if (c31_rnd(&s) % (q->k + 1) == 0) c31_rand(&s, p + i, bl);
        break;
    default:                            /* a period that has nothing to do with the blocks */
        set = real_malloc(q->per); c31_rand(&s, set, q->per);
        for (size_t i = 0; i < n; i += q->per) memcpy(p + i, set, n - i < q->per ? n - i : q->per);
    }
    real_free(set);
}
static u64 c31_time(const c31 *q, size_t n)
{
    u8 *o = real_malloc(n + 1), *w = NULL; size_t wn = n, ci = q->chunk_in ? (size_t)q->chunk_in : n, co = q->chunk_out ? (size_t)q->chunk_out : n * 2 + 1000;
    u64 t; rs_signature_t *sig = NULL; rs_job_t *j;
    buf sb = { 0 }, d = { 0 };
    c31_fill(q, o, n, q->content);
    if (!ci) ci = 1;
    j = rs_sig_begin(q->bl, q->sl, (rs_magic_number)q->magic);
    if (q->opn == 0) { t = c31_drive(j, o, n, ci, co, NULL, "signature"); rs_job_free(j); real_free(o); return t; }
    c31_drive(j, o, n, 1 << 16, 1 << 16, &sb, "signature"); rs_job_free(j);
    j = rs_loadsig_begin(&sig);
    t = c31_drive(j, sb.p, sb.n, q->opn == 1 ? ci : 1 << 16, 1, NULL, "loadsig"); rs_job_free(j);
    u64 t0 = cpu_ns();
    if (rs_build_hash_table(sig)) viol("unexpected-error", "rs_build_hash_table failed");
    t += cpu_ns() - t0;
    if (q->opn == 1) { rs_free_sumset(sig); real_free(o); return t; }
    w = real_malloc(n + q->bl + 1);
    u64 s = q->seed * 3 + 1;
    switch (q->fresh) {
    case 0: memcpy(w, o, n); break;
    case 1: c31_rand(&s, w, n); break;
    case 2: { size_t k = 1 + (size_t)(c31_rnd(&s) % q->bl); c31_rand(&s, w, k); memcpy(w + k, o, n); wn = n + k; break; }
    case 3: for (size_t i = 0; i < n; i += q->bl) { size_t b = (size_t)(c31_rnd(&s) % (n / q->bl)) * q->bl; memcpy(w + i, o + b, n - i < q->bl ? n - i : q->bl); } break;
    case 4: memcpy(w, o, n); for (size_t i = 0; i < n; i += 2 * q->bl) w[i + (size_t)(c31_rnd(&s) % (n - i < q->bl ? n - i : q->bl))] ^= (u8)(1 + c31_rnd(&s) % 255); break;
    default: memset(w, 0, n);
    }
    j = rs_delta_begin(sig);
    t = c31_drive(j, w, wn, q->opn == 2 ? ci : 1 << 16, q->opn == 2 ? co : 1 << 16, &d, "delta"); rs_job_free(j);
    rs_free_sumset(sig);
    if (q->opn == 3) {
        basis b = { .p = o, .n = n, .mode = (int)(q->seed & 1) };
        j = rs_patch_begin(basis_cb, &b);
        t = c31_drive(j, d.p, d.n, ci, co, NULL, "patch"); rs_job_free(j);
        ev("basis_bytes_requested", b.reqbytes);
    }
    real_free(o); real_free(w);
    return t;
}
void case_C31(u64 c)
{
    c31 q = { .magic = MAGICS[rn(4)], .opn = (int)(c / 8 % 5), .content = (int)rn(6), .fresh = (int)rn(6), .seed = rnd(), .k = (u32)rr(2, chance(1, 2) ? 4 : 40) };
    if (q.opn == 4) q.opn = 2;
    static const int CH[] = { 0, 0, 1 << 16, 4096, 1000, 100, 7, 1 };
    q.bl = (u32)(chance(1, 2) ? rr(16, 64) : rr(64, 2000));
    q.per = (size_t)rr(100, 3000);
    q.sl = (u32)rr(8, magic_max(q.magic));
    q.chunk_in = CH[rn(8)]; q.chunk_out = CH[rn(8)];
    size_t n = q.chunk_in && q.chunk_in < 100 ? 40000 : q.chunk_out && q.chunk_out < 100 ? 40000 : 100000;
    if (tier) n *= 3;
    enum { F = 24, TOO = 5 };
    n -= (size_t)rn(n / 8);
    if (q.opn == 1 && chance(1, 6)) { n = 1000000; q.bl = (u32)rr(16, 24); q.chunk_in = CH[rn(5)]; }   /* very many blocks */
    if (q.opn == 2 && chance(1, 3)) {   /* the same data with longer blocks */
        if (q.content == 5) q.content = (int)rn(5);     /* there the index fills more with longer blocks */
        c31 l = q;
        q.bl = (u32)rr(16, 64); l.bl = q.bl * F;
        n *= 4;
        u64 a = c31_time(&q, n), b = c31_time(&l, n);
        for (int i = 0; b > TOO * (a + 50000) && i < 4; i++) {
            u64 x = c31_time(&q, n), y = c31_time(&l, n);
            if (x > a) a = x;
            if (y < b) b = y;
        }
        if (b > TOO * (a + 50000)) viol("work-grows-with-blocks", "delta of %zu bytes takes %.2f ms with blocks of %u bytes, %.2f ms with blocks of %u bytes: magic %x strong_len %u content %d/%u new file %d chunks %d/%d",
            n, (double)a / 1e6, q.bl, (double)b / 1e6, l.bl, q.magic, q.sl, q.content, q.k, q.fresh, q.chunk_in, q.chunk_out);
        evmax("longer_blocks_percent_of_shorter", b * 100 / (a + 50000));
        ev("block_lengths_compared", 1); ev("bytes_timed", 2 * n);
        feat((u64)q.content); feat((u64)q.fresh); feat(q.bl); feat((u64)q.chunk_in); feat((u64)q.chunk_out); nontrivial();
        return;
    }
    if (q.opn == 2 && chance(1, 12)) {  /* nearly as many blocks as the next power of two, and nothing that matches */
        size_t k = ((size_t)1 << rr(10, 14)) - (size_t)rr(1, 2);
        q.content = 0; q.fresh = 1; q.bl = (u32)rr(24, 100); q.chunk_in = CH[rn(4)]; q.chunk_out = CH[rn(4)];
        n = (k * q.bl + F - 1) / F;
        if ((n * F + q.bl - 1) / q.bl != k) n--;
        ev("counts_just_below_powers_of_two", 1);
    }
    u64 a = c31_time(&q, n), b = c31_time(&q, n * F), a2 = a, b2 = b;
    int again = 0;
    /* an odd measurement is repeated; only what stays far out of proportion counts */
    while (b > (u64)F * TOO * (a + 50000) && again < 4) {
        again++;
        a2 = c31_time(&q, n); b2 = c31_time(&q, n * F);
        if (a2 > a) a = a2;
        if (b2 < b) b = b2;
    }
    static const char *const on[] = { "signature", "loading and indexing", "delta", "patch" };
    if (b > (u64)F * TOO * (a + 50000)) viol("work-out-of-proportion", "%s of %zu bytes takes %.2f ms, of %zu bytes %.2f ms (%.0f times as long for %d times the data): magic %x block_len %u strong_len %u content %d/%u new file %d chunks %d/%d",
        on[q.opn], n, (double)a / 1e6, n * F, (double)b / 1e6, (double)b / (double)(a + 1), F, q.magic, q.bl, q.sl, q.content, q.k, q.fresh, q.chunk_in, q.chunk_out);
    if (again) ev("measurements_repeated", 1);
    char k[40]; snprintf(k, sizeof k, "proportions_measured_%d", q.opn); ev(k, 1);
    ev("bytes_timed", n * (F + 1));
    evmax("largest_growth_percent_of_linear", b * 100 / (F * (a + 50000)));
    feat((u64)q.opn); feat((u64)q.content); feat((u64)q.fresh); feat(q.bl); feat((u64)q.chunk_in); feat((u64)q.chunk_out); nontrivial();
    sample("%s, content %d, block length %u, chunks %d/%d: %.2f ms for %zu bytes, %.2f ms for %zu", on[q.opn], q.content, q.bl, q.chunk_in, q.chunk_out, (double)a / 1e6, n, (double)b / 1e6, n * F);
}
