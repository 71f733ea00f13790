"""Building /repo in several instrumented flavors and running harness shards over it."""
import fcntl, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NCPU = os.cpu_count() or 4
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
LAX = " -fno-sanitize=pointer-overflow,nonnull-attribute"

# library flavor -> (compiler, C flags, CMAKE_BUILD_TYPE, trace, harness cflags)
LIBS = {
    "plain": ("gcc", "-O2 -g1 -DNDEBUG", "None", "OFF", "-DNDEBUG"),
    "dbg":   ("gcc", "-O1 -g1", "None", "ON", ""),
    "asan":  ("gcc", "-O1 -g1 " + SAN + LAX, "None", "ON", "-DEXACT_BUFS"),
    "asann": ("clang", "-O2 -g1 -DNDEBUG " + SAN + LAX, "None", "OFF", "-DEXACT_BUFS -DNDEBUG"),
    # for C10 alone: also what is undefined only on paper, such as moving no bytes from a null pointer
    "asans": ("gcc", "-O1 -g1 " + SAN, "None", "ON", "-DEXACT_BUFS"),
    "asanns": ("clang", "-O2 -g1 -DNDEBUG " + SAN, "None", "OFF", "-DEXACT_BUFS -DNDEBUG"),
    "tsan":  ("gcc", "-O1 -g1 -fsanitize=thread", "None", "ON", ""),
    "msan":  ("clang", "-O1 -g1 -fsanitize=memory -fsanitize-memory-track-origins -fno-omit-frame-pointer", "None", "ON", "-DEXACT_BUFS -DMSAN"),
    "fuzz":  ("clang", "-O1 -g1 -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize-recover=all", "None", "ON", "-DEXACT_BUFS -DLIBFUZZER"),
    "o0":    ("gcc", "-O0 -g1 -funsigned-char", "None", "ON", ""),
    "o3":    ("clang", "-O3 -g1 -DNDEBUG -funsigned-char", "None", "OFF", "-DNDEBUG"),
    "cov":   ("gcc", "-O0 -g1 --coverage", "None", "ON", "-DEXACT_BUFS"),
}
# harness flavor -> (library flavor, extra harness cflags, extra link flags)
WRAP = "-Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free"
HARN = {k: (k, "", "") for k in LIBS}
HARN["wrap"] = ("plain", "-DWRAP_ALLOC", WRAP)
HARN["wrapdbg"] = ("dbg", "-DWRAP_ALLOC", WRAP)
HARN["wrapasan"] = ("asan", "-DWRAP_ALLOC", WRAP)
HARN["o0"] = ("o0", "-DWRAP_TIME", "-Wl,--wrap=time")
HARN["o3"] = ("o3", "-DWRAP_TIME", "-Wl,--wrap=time")
HARN["fuzz"] = ("fuzz", "", "-fsanitize=fuzzer")

SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=77:abort_on_error=0:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1:quarantine_size_mb=64:hard_rss_limit_mb=5000:strict_string_checks=1:malloc_context_size=12:max_malloc_fill_size=16777216",
    "UBSAN_OPTIONS": "exitcode=77:print_stacktrace=1",
    "TSAN_OPTIONS": "exitcode=77:halt_on_error=1:second_deadlock_stack=1",
    "MSAN_OPTIONS": "exitcode=77:halt_on_error=1",
    "LSAN_OPTIONS": "exitcode=77",
}


class HarnessError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise HarnessError("command failed (%d): %s\n%s" % (r.returncode, cmd if isinstance(cmd, str) else " ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def tree_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "_build", "doc", "tests", "debian"))
        for f in sorted(files):
            out.append(os.path.join(root, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for p in tree_files():
        try:
            with open(p, "rb") as f:
                h.update(p.encode() + b"\0" + hashlib.sha256(f.read()).digest())
        except OSError:
            pass
    return h.hexdigest()[:16]


def harness_hash():
    h = hashlib.sha256()
    for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*"))):
        with open(p, "rb") as f:
            h.update(p.encode() + hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:12]


def clean_env():
    e = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CPPFLAGS", "LDFLAGS", "LD_LIBRARY_PATH", "DESTDIR", "CC", "LD_PRELOAD")}
    e["LC_ALL"] = "C.UTF-8"
    return e


class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.lock = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.th = tree_hash()

    def done(self):
        fcntl.flock(self.lock, fcntl.LOCK_UN)

    def lib(self, fl, rdiff=False):
        cc, cflags, btype, trace, _ = LIBS[fl]
        key = hashlib.sha256((self.th + repr(LIBS[fl])).encode()).hexdigest()[:12]
        d = os.path.join(BUILD, "lib-%s-%s" % (fl, key))
        want = ["librsync.a"] + (["rdiff"] if rdiff else [])
        if all(os.path.exists(os.path.join(d, ".ok-" + w)) for w in want):
            return d
        for old in glob.glob(os.path.join(BUILD, "lib-%s-*" % fl)):
            if old != d:
                shutil.rmtree(old, ignore_errors=True)
        link = " ".join(x for x in cflags.split() if x.startswith("-fsanitize=") and "fuzzer" not in x or x == "--coverage")
        if not os.path.exists(os.path.join(d, "build.ninja")):
            shutil.rmtree(d, ignore_errors=True)
            sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_C_COMPILER=" + cc, "-DCMAKE_BUILD_TYPE=" + btype,
                "-DCMAKE_C_FLAGS=-Wno-error -D_GNU_SOURCE_IGNORED " + cflags, "-DCMAKE_EXE_LINKER_FLAGS=" + link, "-DBUILD_SHARED_LIBS=OFF", "-DBUILD_RDIFF=ON",
                "-DENABLE_TRACE=" + trace, "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_C_STANDARD_LIBRARIES="], env=clean_env())
        targets = ["rsync"] + (["rdiff"] if rdiff else [])
        sh(["ninja", "-C", d] + targets, env=clean_env())
        for w in want:
            open(os.path.join(d, ".ok-" + w), "w").close()
        return d

    def harness(self, fl):
        libfl, xc, xl = HARN[fl]
        d = self.lib(libfl)
        cc, cflags, _, _, hc = LIBS[libfl]
        if libfl == "cov":
            cflags = "-O1 -g1"
            xl += " --coverage"
        inc = None
        for dp, _, fs in os.walk(REPO):
            if "librsync.h" in fs and ".git" not in dp and "_build" not in dp:
                inc = dp
                break
        exp = os.path.dirname(next(iter(glob.glob(os.path.join(d, "**", "librsync_export.h"), recursive=True)), os.path.join(d, "src", "x")))
        lib = next(iter(glob.glob(os.path.join(d, "**", "librsync.a"), recursive=True)), None)
        if not lib or not inc:
            raise HarnessError("librsync.a or librsync.h not found")
        key = hashlib.sha256((self.th + harness_hash() + repr(HARN[fl]) + repr(LIBS[libfl])).encode()).hexdigest()[:12]
        exe = os.path.join(BUILD, "h-%s-%s" % (fl, key))
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(BUILD, "h-%s-*" % fl)):
            if os.path.isdir(old):
                shutil.rmtree(old, ignore_errors=True)
            else:
                os.unlink(old)
        # Harness code itself is compiled at -O2 where that is harmless.
        hcf = cflags
        objd = exe + ".o"
        os.makedirs(objd, exist_ok=True)
        srcs = sorted(glob.glob(os.path.join(VERIF, "harness", "*.c")))
        procs = []
        for s in srcs:
            o = os.path.join(objd, os.path.basename(s)[:-2] + ".o")
            f = hcf
            if os.path.basename(s) == "ref.c":   # the oracle is not under test: fast
                f = "-O2 -g1" if libfl not in ("msan", "tsan") else re.sub(r"-O\d", "-O2", hcf)
            cmd = "%s -std=gnu11 -Wall %s %s %s -DLIBRSYNC_STATIC_DEFINE -I%s -I%s -c %s -o %s" % (cc, f, hc, xc, inc, exp, s, o)
            procs.append((cmd, subprocess.Popen(cmd.split(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=clean_env())))
        for cmd, p in procs:
            o = p.communicate()[0]
            if p.returncode:
                raise HarnessError("harness compilation failed: %s\n%s" % (cmd, o[-3000:]))
        san = " ".join(x for x in cflags.split() if x.startswith("-f"))
        sh(("%s -g1 %s %s %s -o %s %s -lpthread -lm" % (cc, san, xl, " ".join(glob.glob(objd + "/*.o")), exe + ".tmp", lib)).split(), env=clean_env())
        os.rename(exe + ".tmp", exe)
        shutil.rmtree(objd, ignore_errors=True)
        return exe


def build_all(flavors, rdiff=()):
    """Builds several flavors at once; returns {flavor: executable} (and {"rdiff-<flavor>": directory})."""
    b, out, err = Builder(), {}, []

    def one(f, libs):
        try:
            if libs:
                out["rdiff-" + f] = b.lib(f, True)
            else:
                out[f] = b.harness(f)
        except Exception as e:
            err.append(e)
    # flavors sharing a library are built one after another
    groups = {}
    for f in flavors:
        groups.setdefault(HARN[f][0], []).append((f, False))
    for f in rdiff:
        groups.setdefault(f, []).append((f, True))

    def grp(l):
        for x in l:
            one(*x)
    ts = [threading.Thread(target=grp, args=(l,)) for l in groups.values()]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    b.done()
    if err:
        raise err[0] if isinstance(err[0], HarnessError) else HarnessError(repr(err[0]))
    return out


def mine_dict(path):
    """Integer constants of the code under test, as interesting sizes and values."""
    vals = set()
    for p in tree_files():
        if not re.search(r"\.(c|h|in)$", p):
            continue
        try:
            t = open(p, errors="replace").read()
        except OSError:
            continue
        t = re.sub(r"/\*.*?\*/|//[^\n]*", " ", t, flags=re.S)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?:[uUlL]*)(?![\w.])", t):
            try:
                v = int(m.group(1), 16 if m.group(1)[:2].lower() == "0x" else 10)
            except ValueError:
                continue
            if 2 < v < 1 << 63:
                vals.add(v)
        for m in re.finditer(r"(\d+)\s*([*]|<<)\s*(\d+)", t):
            a, b = int(m.group(1)), int(m.group(3))
            v = a * b if m.group(2) == "*" else (a << b if b < 62 else 0)
            if 2 < v < 1 << 63:
                vals.add(v)
    # per-file noise is bounded; small values matter most for sizes
    vals = sorted(vals)
    small = [v for v in vals if v <= 4000000]
    with open(path, "w") as f:
        f.write("\n".join(str(v) for v in small + vals) + "\n")
    return len(vals)


class Shard:
    def __init__(self, exe, fl, prop, seed, start, step, count, seconds, tier, tmp, idx, dictf, hang=90, gb=6):
        self.exe, self.fl, self.prop, self.seed, self.start, self.step, self.count = exe, fl, prop, seed, start, step, count
        self.seconds, self.tier, self.tmp, self.idx, self.dictf = seconds, tier, tmp, idx, dictf
        self.out = os.path.join(tmp, "out-%d" % idx)
        self.status = os.path.join(tmp, "st-%d" % idx)
        self.err = os.path.join(tmp, "err-%d" % idx)
        self.san = os.path.join(tmp, "san-%d" % idx)
        self.p = None
        self.hang, self.gb = hang, gb
        self.args, self.xenv, self.variant, self.dg = [], {}, fl, {}

    def cmd(self, start=None, count=None):
        c = [self.exe, "--prop", self.prop, "--seed", str(self.seed), "--start", str(self.start if start is None else start), "--step", str(self.step),
             "--count", str(self.count if count is None else count), "--tier", self.tier, "--dict", self.dictf] + self.args
        if start is None:
            c += ["--status", self.status, "--out", self.out, "--seconds", str(self.seconds)]
        return c

    def env(self):
        e = clean_env()
        for k, v in SAN_ENV.items():
            e[k] = v + ":log_path=" + self.san
        e["TMPDIR"] = self.tmp
        e.update(self.xenv)
        if self.fl == "cov":
            e["GCOV_PREFIX"] = ""
        return e

    def begin(self):
        self.p = subprocess.Popen(self.cmd(), stdout=subprocess.DEVNULL, stderr=open(self.err, "wb"), env=self.env(), start_new_session=True, cwd=self.tmp, preexec_fn=limits(self.fl, self.gb))
        self.t0 = time.time()
        self.last, self.lastt = -1, self.t0

    def cur(self):
        try:
            return int.from_bytes(open(self.status, "rb").read(8), "little")
        except OSError:
            return 0

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def again(self, case):
        """Runs one case alone; (exit status or None if it does not end, what it printed)."""
        p = subprocess.Popen(self.cmd(case, 1), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=self.env(), cwd=self.tmp, start_new_session=True, preexec_fn=limits(self.fl, self.gb))
        try:
            o = p.communicate(timeout=2 * self.hang)[0].decode(errors="replace")
            return p.returncode, o
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return None, ""

    def again_with_history(self, case):
        """Runs the shard's cases up to and with this one, as before; True if it gets stuck again."""
        st = self.status + "-h"
        c = self.cmd(self.start, (case - self.start) // self.step + 1) + ["--status", st]
        p = subprocess.Popen(c, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=self.env(), cwd=self.tmp, start_new_session=True, preexec_fn=limits(self.fl, self.gb))
        last, lastt, t0 = -1, time.time(), time.time()
        while p.poll() is None:
            time.sleep(0.1)
            try:
                n = int.from_bytes(open(st, "rb").read(8), "little")
            except OSError:
                n = 0
            if n != last:
                last, lastt = n, time.time()
            stuck = time.time() - lastt > self.hang
            if stuck or time.time() - t0 > 400:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return stuck
        return False

    def reports(self):
        t = ""
        for f in sorted(glob.glob(self.san + ".*")):
            t += open(f, errors="replace").read()
        try:
            t += open(self.err, errors="replace").read()[-6000:]
        except OSError:
            pass
        return t


def summarize_report(t):
    for pat in (r"ERROR: AddressSanitizer: [^\n]*", r"runtime error: [^\n]*", r"WARNING: ThreadSanitizer: [^\n]*", r"WARNING: MemorySanitizer: [^\n]*", r"ERROR: LeakSanitizer: [^\n]*", r"ERROR: libFuzzer: [^\n]*", r"[^\n]*Assertion [^\n]*", r"[^\n]*internal error[^\n]*", r"\*\*\*[^\n]*"):
        m = re.search(pat, t)
        if m:
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*?/(?:src|repo)[^\n]*?([\w.]+:\d+)", t)
            return m.group(0).strip()[:300] + (" at " + ", ".join("%s %s" % x for x in fr[:3]) if fr else "")
    return t.strip()[-300:]


def limits(fl, gb):
    """Keeps runaway allocation in the code under test from taking the machine down."""
    def f():
        if fl in ("plain", "dbg", "wrap", "wrapdbg", "cov"):
            resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run_shards(shards, log):
    """Runs all shards at once (up to NCPU at a time). Returns (violations, aggregates)."""
    viols, agg = [], {"cases": 0, "nontriv": 0, "ev": {}, "evmax": {}, "samples": [], "sets": {}, "hashes": set()}
    live = []
    try:
        return _run_shards(list(shards), live, viols, agg, log)
    finally:
        for s in live:
            s.kill()


def _run_shards(pend, live, viols, agg, log):
    herr = []
    while pend or live:
        while pend and len(live) < NCPU:
            s = pend.pop(0)
            s.begin()
            live.append(s)
        time.sleep(0.05)
        for s in list(live):
            rc = s.p.poll()
            if rc is None:
                c = s.cur()
                if c != s.last:
                    s.last, s.lastt = c, time.time()
                elif time.time() - s.lastt > s.hang:
                    s.kill()
                    live.remove(s)
                    case = max(c - 1, 0)
                    log("shard %d stuck in case %d, running it again alone" % (s.idx, case))
                    rc, rep = s.again(case)
                    hist = rc is not None and s.again_with_history(case)
                    if rc is None or hist:
                        viols.append(dict(prop=s.prop, key="hang", case=case, detail="the case does not finish within %d seconds" % s.hang + (", each time the cases before it ran in the same process" if hist else ""), shard=s, report=""))
                        for o in live:
                            o.kill()
                            collect(o, agg, viols)
                        live.clear()
                        return viols, agg
                    log("it ended with %s this time" % rc)
                    collect(s, agg, viols)
                continue
            live.remove(s)
            rep = s.reports()
            collect(s, agg, viols)
            if rc == 3:
                herr.append("harness error in %s case %d: %s" % (s.prop, s.cur() - 1, rep[-800:]))
                continue
            if rc in (0, 1):
                continue
            case = max(s.cur() - 1, 0)
            if rc == -9:
                log("shard %d was killed in case %d, running the case again" % (s.idx, case))
                rc, rep2 = s.again(case)
                if rc == 0:
                    continue
                if rc == -9 or rc is None:
                    raise HarnessError("killed twice (out of memory?) in %s case %d" % (s.prop, case))
                rep += rep2
            what = "sanitizer report" if rc == 77 else "killed by signal %d" % -rc if rc < 0 else "exit status %d" % rc
            key = "crash" if rc != 77 else "sanitizer"
            # A leak is reported when the process ends: the case is then not known.
            viols.append(dict(prop=s.prop, key=key, case=case, detail="%s: %s" % (what, summarize_report(rep)), shard=s, report=rep))
    if herr and not viols:
        raise HarnessError(herr[0])
    return viols, agg


def collect(s, agg, viols):
    try:
        f = open(s.out, errors="replace")
    except OSError:
        return
    for l in f:
        if not l.endswith("\n"):
            continue            # cut off when the process was ended
        t = l.rstrip("\n").split("\t")
        if t[0] == "VIOL" and len(t) >= 5:
            viols.append(dict(prop=t[1], key=t[2], case=int(t[3]), detail=t[4], shard=s, report=""))
        elif len(t) < 2 or (len(t) < 3 and t[0] != "SAMPLE" and t[0] != "H"):
            continue
        elif t[0] == "DONE":
            agg["cases"] += int(t[1])
            agg["nontriv"] += int(t[2])
        elif t[0] == "EV":
            agg["ev"][t[1]] = agg["ev"].get(t[1], 0) + int(t[2])
        elif t[0] == "EVMAX":
            agg["evmax"][t[1]] = max(agg["evmax"].get(t[1], 0), int(t[2]))
        elif t[0] == "SAMPLE" and len(agg["samples"]) < 12:
            agg["samples"].append(t[1])
        elif t[0] == "SET":
            agg["sets"].setdefault(t[1], set()).add(t[2])
        elif t[0] == "DG":
            s.dg[int(t[1])] = t[2]
        elif t[0] == "H":
            agg["hashes"].add(t[1])
