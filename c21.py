"""C21: the rdiff command, observed from outside: exit status, messages, files before and after.
Everything happens in scratch directories; unprivileged parts run as uid 65534."""
import concurrent.futures, hashlib, math, os, random, re, resource, shutil, signal, struct, subprocess, sys, tempfile, threading, time
import vlib

MAGIC = {("md4", "rollsum"): 0x72730136, ("blake2", "rollsum"): 0x72730137, ("md4", "rabinkarp"): 0x72730146, ("blake2", "rabinkarp"): 0x72730147}
M32 = 0xffffffff


# ---- reference: sums, signature, delta ----
def md4(d):
    def rol(x, s):
        x &= M32
        return (x << s | x >> (32 - s)) & M32
    a0, b0, c0, d0 = 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476
    m = d + b"\x80" + b"\0" * ((55 - len(d)) % 64) + struct.pack("<Q", len(d) * 8)
    for o in range(0, len(m), 64):
        X = struct.unpack("<16I", m[o:o + 64])
        a, b, c, e = a0, b0, c0, d0
        for i in range(48):
            if i < 16:
                f, k, s = (b & c) | (~b & M32 & e), X[i], (3, 7, 11, 19)[i & 3]
            elif i < 32:
                f, k, s = ((b & c) | (b & e) | (c & e)) + 0x5a827999, X[(i & 3) << 2 | (i - 16) >> 2], (3, 5, 9, 13)[i & 3]
            else:
                f, k, s = (b ^ c ^ e) + 0x6ed9eba1, X[(0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15)[i - 32]], (3, 9, 11, 15)[i & 3]
            a, e, c, b = e, c, b, rol(a + f + k, s)
        a0, b0, c0, d0 = (a0 + a) & M32, (b0 + b) & M32, (c0 + c) & M32, (d0 + e) & M32
    return struct.pack("<4I", a0, b0, c0, d0)


def weak(magic, d):
    if magic & 0xf0 == 0x40:
        h = 1
        for x in d:
            h = (h * 0x08104225 + x) & M32
        return h
    s1 = s2 = 0
    for x in d:
        s1 += x + 31
        s2 += s1
    return (s2 & 0xffff) << 16 | s1 & 0xffff


def ref_sig(data, magic, bl, sl):
    out = [struct.pack(">III", magic, bl, sl)]
    for i in range(0, len(data), bl):
        b = data[i:i + bl]
        out.append(struct.pack(">I", weak(magic, b)) + (hashlib.blake2b(b, digest_size=32).digest() if magic & 0xf == 7 else md4(b))[:sl])
    return b"".join(out)


def ref_patch(basis, d):
    """(contents or None if the delta is not valid)"""
    out, i = [], 4
    if d[:4] != b"rs\x026":
        return None
    W = (1, 2, 4, 8)
    while True:
        if i >= len(d):
            return None
        op = d[i]
        i += 1
        if op == 0:
            return b"".join(out)
        if op >= 0x55:
            return None
        if op <= 0x44:
            n = op
            if op > 0x40:
                w = W[op - 0x41]
                if i + w > len(d):
                    return None
                n = int.from_bytes(d[i:i + w], "big")
                i += w
            if n == 0 or i + n > len(d):
                return None
            out.append(d[i:i + n])
            i += n
        else:
            a, b = W[(op - 0x45) // 4], W[(op - 0x45) % 4]
            if i + a + b > len(d):
                return None
            p, n = int.from_bytes(d[i:i + a], "big"), int.from_bytes(d[i + a:i + a + b], "big")
            i += a + b
            if n == 0 or p + n > len(basis):
                return None
            out.append(basis[p:p + n])


def delta_counts(d):
    """lit cmds, bytes, cmdbytes, copy cmds, bytes, cmdbytes of a valid delta"""
    i, W, c = 4, (1, 2, 4, 8), [0] * 6
    while d[i]:
        op = d[i]
        i += 1
        if op <= 0x44:
            w = W[op - 0x41] if op > 0x40 else 0
            n = int.from_bytes(d[i:i + w], "big") if w else op
            i += w + n
            c[0], c[1], c[2] = c[0] + 1, c[1] + n, c[2] + 1 + w
        else:
            a, b = W[(op - 0x45) // 4], W[(op - 0x45) % 4]
            n = int.from_bytes(d[i + a:i + a + b], "big")
            i += a + b
            c[3], c[4], c[5] = c[3] + 1, c[4] + n, c[5] + 1 + a + b
    return c


def rec_params(size, bl, sl, mx):
    """the documented defaults: what 0 (recommended, maximum) and -1 (minimum) mean for an input of that size (None: unknown)"""
    if not bl:
        bl = 2048 if size is None else 256 if size <= 65536 else math.isqrt(size) & ~127
    if sl == 0:
        sl = mx
    elif sl == -1:
        sl = 12 if size is None else min(mx, 2 + ((size + (1 << 24)).bit_length() - 1 + (size // bl + 1).bit_length() - 1 + 7) // 8)
    return bl, sl


def ref_sig_ok(s):
    if len(s) < 12:
        return False
    m, bl, sl = struct.unpack(">III", s[:12])
    mx = {0x72730136: 16, 0x72730137: 32, 0x72730146: 16, 0x72730147: 32}.get(m)
    return mx is not None and 0 < bl < 1 << 31 and 0 < sl <= mx and (len(s) - 12) % (4 + sl) == 0


class Viol(Exception):
    def __init__(self, key, detail, report=""):
        Exception.__init__(self, detail)
        self.key, self.detail, self.report = key, detail, report


class Case:
    def __init__(self, env, num, seed, kind):
        self.env, self.num, self.kind = env, num, kind
        self.r = random.Random("%d/%d/%s" % (seed, num, kind))
        self.d = tempfile.mkdtemp(prefix="c%d-" % num, dir=env.tmp)
        self.hist = []
        self.runs = 0
        self.sig = set()
        self.desc = ""

    # -- helpers
    def path(self, n):
        return os.path.join(self.d, n)

    def put(self, n, data):
        with open(self.path(n), "wb") as f:
            f.write(data)
        return self.path(n)

    def get(self, n):
        with open(self.path(n), "rb") as f:
            return f.read()

    def rdiff(self, args, stdin=b"", stdout=None, fsize=None, user=False, flavor=None, stdin_file=None, pre=None, timeout=60, wrap=()):
        fl = flavor or self.r.choice(self.env.flavors)
        cmd = list(wrap) + [self.env.bin[fl]] + list(args)
        env = vlib.clean_env()
        env["ASAN_OPTIONS"] = "exitcode=77:detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3000"
        env["UBSAN_OPTIONS"] = "exitcode=77:print_stacktrace=1"

        def pe():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if fl != "asann":
                resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
            if fsize is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
            if pre:
                pre()
        kw = {}
        if user:
            kw = dict(user=65534, group=65534, extra_groups=[])
        for attempt in range(2):
            p = subprocess.Popen(cmd, stdin=stdin_file if stdin_file is not None else subprocess.PIPE, stdout=stdout if stdout is not None else subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.d, env=env, preexec_fn=pe, start_new_session=True, **kw)
            try:
                o, e = p.communicate(stdin if stdin_file is None else None, timeout=timeout)
                break
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                if attempt or stdout is not None:
                    raise Viol("hang", "%s does not end" % self.show(cmd))
        rc, e = p.returncode, e.decode(errors="replace")
        self.hist.append("%s -> %d%s" % (self.show(cmd), rc, " (" + e.strip().splitlines()[-1][:160] + ")" if e.strip() else ""))
        self.runs += 1
        self.env.ev("rdiff_runs")
        if not wrap and (rc < 0 or rc == 77 or "AddressSanitizer" in e or "runtime error:" in e):
            if rc != -signal.SIGPIPE:
                raise Viol("crash", "%s ended with %d: %s" % (self.show(cmd), rc, vlib.summarize_report(e)), e)
        self.env.ev("exit_zero" if rc == 0 else "exit_nonzero")
        self.env.codes.add(rc)
        return rc, o or b"", e

    def show(self, cmd):
        return " ".join(x if x and len(x) < 120 else repr(x) for x in (c.replace(self.d + "/", "").replace(self.env.tmp + "/", "") for c in cmd))

    def bad(self, key, detail):
        raise Viol(key, "%s; %s" % (detail, " | ".join(self.hist[-4:])))

    def failed(self, what, res, message=True):
        rc, _, e = res
        if rc == 0:
            self.bad("success-reported", "%s, but the exit status is 0" % what)
        if message and not e.strip():
            self.bad("no-message", "%s: exit status %d but no message" % (what, rc))
        self.env.ev("failures_reported")

    def fine(self, what, res):
        if res[0]:
            self.bad("failure-reported", "%s should succeed but exits with %d" % (what, res[0]))

    def contents(self):
        r = self.r
        n = r.choice((0, 1, 5, 100, 255, 256, 257, 2048, 4096, 10000, 30000, r.randrange(20000)))
        basis = r.randbytes(n) if r.random() < .6 else bytes([r.randrange(256)]) * n if r.random() < .5 else (b"line %d\n" * 4000)[:n]
        b = bytearray(basis)
        for _ in range(r.randrange(5)):
            k = r.random()
            i = r.randrange(len(b) + 1)
            if k < .4:
                b[i:i] = r.randbytes(r.choice((1, 3, 70, 300, 5000)))
            elif k < .6:
                del b[i:i + r.randrange(1, 500)]
            elif k < .8:
                b = b[i:] + b[:i]
            else:
                b[i:i + 10] = r.randbytes(10)
        if r.random() < .1:
            b = bytearray(r.randbytes(r.randrange(9000)))
        return basis, bytes(b)

    def sig_opts(self):
        r = self.r
        h, ro = r.choice(("blake2", "md4", None)), r.choice(("rabinkarp", "rollsum", None))
        a = []
        if h:
            a += r.choice((["-H", h], ["--hash=" + h], ["--hash", h]))
        if ro:
            a += r.choice((["-R", ro], ["--rollsum=" + ro]))
        mx = 16 if h == "md4" else 32
        bl = r.choice((None, None, 0, 1, 7, 64, 256, 1000, 2048, r.randrange(1, 5000)))
        sl = r.choice((None, None, 0, 8, mx, r.randrange(8, mx + 1), -1))
        if bl is not None:
            a += r.choice((["-b", str(bl)], ["--block-size=%d" % bl]))
        if sl is not None:
            a += ["--sum-size=%d" % sl] if sl < 0 or r.random() < .5 else ["-S", str(sl)]
        return a, MAGIC[(h or "blake2", ro or "rabinkarp")], bl or 0, sl or 0, mx

    def io_opts(self):
        r, a = self.r, []
        if r.random() < .3:
            a += r.choice((["-I", str(r.choice((1, 2, 13, 100, 70000, 200000)))], ["--input-size=%d" % r.randrange(1, 9000)]))
        if r.random() < .3:
            a += r.choice((["-O", str(r.choice((1, 2, 13, 100, 70000, 200000)))], ["--output-size=%d" % r.randrange(1, 9000)]))
        if r.random() < .15:
            a += [r.choice(("-s", "--statistics", "--stats"))]
        if r.random() < .08:
            a += [r.choice(("-v", "--verbose"))]
        return a

    def action(self, name):
        return name if self.r.random() < .6 else name[:self.r.randrange(1, len(name) + 1)]

    def unchanged(self, snap):
        for n, (data, st) in snap.items():
            s = os.lstat(self.path(n))
            if self.get(n) != data or (s.st_mtime_ns, s.st_mode, s.st_size, s.st_ino) != st:
                self.bad("input-modified", "input file %s was changed" % n)
        self.env.ev("inputs_found_unchanged", len(snap))

    def snap(self, *names):
        o = {}
        for n in names:
            s = os.lstat(self.path(n))
            o[n] = (self.get(n), (s.st_mtime_ns, s.st_mode, s.st_size, s.st_ino))
        return o

    def check_sig(self, data, sig, magic, bl, sl, mx, regular=True):
        if len(sig) < 12:
            self.bad("wrong-signature", "signature of %d bytes" % len(sig))
        m, b, s = struct.unpack(">III", sig[:12])
        if m != magic or (bl and b != bl) or (sl > 0 and s != sl) or (sl == 0 and s != mx) or not 0 < s <= mx or b == 0:
            self.bad("wrong-signature", "options ask for magic %x block %d sum %d, header has %x %d %d" % (magic, bl, sl, m, b, s))
        if len(data) < 6000 or self.r.random() < .1:
            if sig != ref_sig(data, m, b, s):
                self.bad("wrong-signature", "signature of %d bytes differs from the reference" % len(data))
            self.env.ev("signatures_compared_with_reference")

    # a step with its inputs and output as files, standard input/output or pipes
    def step(self, act, opts, inputs, names, must, extra=()):
        """inputs: data per positional input; returns output bytes"""
        r = self.r
        outname = names[-1]
        pos, stdin, how = [], b"", []
        used_stdin = False
        for i, (n, data) in enumerate(zip(names[:-1], inputs)):
            last = i == len(inputs) - 1
            can = not used_stdin and not (act == "patch" and i == 0)      # patch seeks in its basis
            k = r.random()
            if can and k < .3:
                stdin, used_stdin = data, True
                pos.append("-")
                how.append("stdin")
            else:
                pos.append(self.path(n) if r.random() < .5 else n)
                how.append("file")
        to_file = r.random() < .6
        if to_file:
            if os.path.exists(self.path(outname)):
                os.unlink(self.path(outname))
            args = pos + [self.path(outname)]
        else:
            args = pos + (["-"] if r.random() < .5 else [])
            if args and args[-1] == "-" and args is not None and len(args) == len(pos) and how[-1] == "stdin" and len(pos) > 1 and r.random() < .5:
                args = args[:-1]            # trailing standard input may simply be left out
        force = ["-f"] if r.random() < .1 else []
        o = list(opts) + force
        line = o + [self.action(act)] + args if r.random() < .6 else [self.action(act)] + args + o
        files = [n for n, h in zip(names[:-1], how) if h == "file"]
        sn = self.snap(*files)
        sf = None
        if used_stdin and r.random() < .5:    # standard input from a regular file
            sf = open(self.put("stdin.tmp", stdin), "rb")
        elif not used_stdin:
            sf = open(os.devnull, "rb")
        pre = None
        if not used_stdin and to_file and r.random() < .1:      # no standard input (and output) at all
            fds = r.choice(((0,), (0, 1), (1,)))
            pre = lambda: [os.close(x) for x in fds]
        res = self.rdiff(line, stdin, stdin_file=sf, pre=pre)
        if sf:
            sf.close()
        self.unchanged(sn)
        self.sig.add((act, tuple(how), to_file, len(o)))
        if must:
            self.fine(act, res)
        if res[0]:
            return None, res
        if to_file:
            if res[1]:
                self.bad("stray-output", "%d bytes on standard output although the output goes to a file" % len(res[1]))
            return self.get(outname), res
        return res[1], res

    # -- kinds
    def k_good(self):
        basis, new = self.contents()
        so, magic, bl, sl, mx = self.sig_opts()
        self.put("basis", basis)
        self.put("new", new)
        sig, _ = self.step("signature", so + self.io_opts(), [basis], ["basis", "sig"], True)
        self.check_sig(basis, sig, magic, bl, sl, mx)
        self.put("sig", sig)
        delta, _ = self.step("delta", self.io_opts(), [sig, new], ["sig", "new", "delta"], True)
        weak_sum = struct.unpack(">I", sig[8:12])[0] < 8
        got = ref_patch(basis, delta)
        if got is None or (got != new and not weak_sum):
            self.bad("wrong-delta", "the delta does not describe the new file")
        self.put("delta", delta)
        out, _ = self.step("patch", self.io_opts(), [basis, delta], ["basis", "delta", "out"], True)
        if out != got:
            self.bad("wrong-output", "patch wrote %d bytes, the delta describes %d" % (len(out), len(got)))
        # the same through other routes
        d2, _ = self.step("delta", self.io_opts(), [sig, new], ["sig", "new", "delta2"], True)
        if len(sig) > 12 and d2 != delta:
            self.bad("routes-differ", "delta through another route has %d bytes, before %d" % (len(d2), len(delta)))
        self.env.ev("pipelines_completed")
        self.desc = "%d -> %d bytes, %s" % (len(basis), len(new), " ".join(so))

    # -- C29
    def noise(self):
        """options that must not change the output; (options, statistics asked for, verbose)"""
        r, a = self.r, []
        if r.random() < .4:
            n = str(r.choice((0, 1, 2, 13, 100, 65536, r.randrange(1, 300000))))
            a.append(r.choice((["-I", n], ["-I" + n], ["--input-size=" + n], ["--input-size", n])))
        if r.random() < .4:
            n = str(r.choice((0, 1, 2, 13, 100, 65536, r.randrange(1, 300000))))
            a.append(r.choice((["-O", n], ["-O" + n], ["--output-size=" + n], ["--output-size", n])))
        st, vb = r.random() < .6, r.random() < .1
        if st:
            a.append([r.choice(("-s", "--statistics", "--stats"))])
        if vb:
            a.append([r.choice(("-v", "--verbose"))])
        return a, st, vb

    def orun(self, act, opts, pos, out, noise):
        """pos: (name, data, route) of the inputs; returns output and standard error"""
        r = self.r
        no, st, vb = noise
        args, stdin, sf = [], b"", None
        for n, data, route in pos:
            if route == "file":
                args.append(n)
            else:
                args.append("-")
                if route == "pipe":
                    stdin = data
                else:
                    sf = open(self.path(n), "rb")
        to = r.choice(("file", "file", "-", ""))
        if os.path.exists(self.path(out)):
            os.unlink(self.path(out))
        if to == "file":
            args.append(out)
        elif to == "-":
            args.append("-")
        elif args and args[-1] == "-" and len(args) > (act != "signature") and r.random() < .5:
            args.pop()              # trailing standard input left out as well
        groups = [[self.action(act)] + args] if r.random() < .4 else [[x] for x in [self.action(act)] + args]
        o = opts + no + ([["-f"]] if r.random() < .1 else [])
        r.shuffle(o)
        # options anywhere, arguments in their order; the same option twice keeps its order
        line, k = [], r.random()
        if k < .4:
            line = sum(o, []) + sum(groups, [])
        elif k < .6:
            line = sum(groups, []) + sum(o, [])
        else:
            g, o2 = list(groups), list(o)
            while g or o2:
                line += g.pop(0) if g and (not o2 or r.random() < .5) else o2.pop(0)
        line, self.early = getattr(self, "early", []) + line, []
        res = self.rdiff(line, stdin, stdin_file=sf)
        if sf:
            sf.close()
        self.fine(act, res)
        self.sig.add((act, k < .4, to, tuple(p[2] for p in pos), st, len(o)))
        if to == "file" and res[1]:
            self.bad("stray-output", "%d bytes on standard output although the output goes to a file" % len(res[1]))
        has = [l for l in res[2].splitlines() if "statistics:" in l and "speed[" in l]
        if not st and has:
            self.bad("unasked-messages", "messages though neither statistics nor verbosity was asked for: %s" % res[2][:200])
        if st and not any((" %s statistics: " % act) in l for l in has):
            self.bad("no-statistics", "statistics were asked for and not shown: %s" % res[2][:300])
        return (self.get(out) if to == "file" else res[1]), [l for l in has if (" %s statistics: " % act) in l], res

    def numbers(self, lines, name, want):
        m = re.search(re.escape(name) + r"\[([^\]]*)\]", lines[-1]) if lines else None
        got = [int(x) for x in re.findall(r"-?\d+", m.group(1))] if m else []
        if lines and (got[:len(want)] != want if any(want) else any(got[:len(want)])):
            self.bad("wrong-statistics", "statistics say %s, the data %s: %s" % (got, want, lines[-1]))
        if lines:
            self.env.ev("statistics_compared")

    def k_options(self):
        r = self.r
        if r.random() < .06:
            return self.k_help()
        basis, new = self.contents()
        if r.random() < .25:
            basis = r.randbytes(r.choice((65536, 65537, 66000, 70000, 262143, 262144, r.randrange(60000, 400000))))
            new = basis[:50000] + r.randbytes(100) + basis[51000:]
        self.put("basis", basis)
        self.put("new", new)
        h, ro = r.choice(("blake2", "md4", None)), r.choice(("rabinkarp", "rollsum", None))
        mx = 16 if h == "md4" else 32
        bl = r.choice((None, None, 0, 1, 7, 64, 256, 1000, 2048, 65536, r.randrange(1, 5000)))
        if r.random() < .12:    # far longer than the files
            bl = r.choice(((1 << 16) + 1, 1 << 20, (1 << 20) + 1, 3 << 20, (1 << 24) + 5, (1 << 28) + 1, (1 << 29) + 1, (1 << 31) - 1, r.randrange(1 << 16, 1 << 26)))
        if bl and len(basis) // bl > 20000:
            bl = 64
        sl = r.choice((None, None, 0, 1, 8, mx, r.randrange(1, mx + 1), -1, -1))
        magic = MAGIC[(h or "blake2", ro or "rabinkarp")]

        def opts():
            o = []
            if h:
                o.append(r.choice((["-H", h], ["-H" + h], ["--hash=" + h], ["--hash", h])))
            if ro:
                o.append(r.choice((["-R", ro], ["-R" + ro], ["--rollsum=" + ro], ["--rollsum", ro])))
            if bl is not None:
                b = str(bl)
                o.append(r.choice((["-b", b], ["-b" + b], ["--block-size=" + b], ["--block-size", b])))
            if sl is not None:
                b = str(sl)
                o.append(r.choice((["-S" + b], ["--sum-size=" + b]) if sl < 0 else (["-S", b], ["-S" + b], ["--sum-size=" + b], ["--sum-size", b])))
            if r.random() < .3:     # given twice, the first time: the last one counts
                e = []
                for x in r.sample(("H", "R", "b", "S"), r.randrange(1, 4)):
                    if x == "H" and h:
                        e.append(["-H", r.choice(("md4", "blake2"))])
                    elif x == "R" and ro:
                        e.append(["--rollsum=" + r.choice(("rollsum", "rabinkarp"))])
                    elif x == "b" and bl is not None:
                        e.append(["-b", str(r.randrange(0, 9999))])
                    elif x == "S" and sl is not None:
                        e.append(["-S%d" % r.randrange(-1, mx + 1)])
                self.early = sum(e, [])
            return o
        sigs = {}
        sn = self.snap("basis", "new")
        for _ in range(2):
            route = r.choice(("file", "file", "stdin-file", "pipe"))
            n = self.noise()
            sig, lines, res = self.orun("signature", opts(), [("basis", basis, route)], "sig", n)
            b, s = rec_params(None if route == "pipe" else len(basis), bl or 0, sl or 0, mx)
            if sig[:12] != struct.pack(">III", magic, b, s):
                self.bad("wrong-parameters", "asked for hash %s rollsum %s block %s sum %s on %d bytes by %s: header %s, expected %x %d %d" % (h, ro, bl, sl, len(basis), route, sig[:12].hex(), magic, b, s))
            nb = -(-len(basis) // b)
            if len(sig) != 12 + nb * (4 + s):
                self.bad("wrong-signature", "signature of %d bytes for %d blocks" % (len(sig), nb))
            if len(basis) < 6000 and sig != ref_sig(basis, magic, b, s):
                self.bad("wrong-signature", "signature of %d bytes differs from the reference" % len(basis))
            if sigs.setdefault((b, s), sig) != sig:
                self.bad("options-change-output", "signatures with the same parameters differ")
            self.numbers(lines, "signature", [nb, b] if nb else [])
            self.env.ev("signatures_with_expected_parameters")
        self.put("sig", sig)
        deltas = []
        for _ in range(2):
            rt = r.choice((("file", "file"), ("file", "pipe"), ("pipe", "file"), ("file", "stdin-file"), ("stdin-file", "file")))
            delta, lines, res = self.orun("delta", [], [("sig", sig, rt[0]), ("new", new, rt[1])], "delta", self.noise())
            got = ref_patch(basis, delta)
            if got is None or (got != new and s >= 8):
                self.bad("wrong-delta", "the delta does not describe the new file")
            if deltas and len(sig) > 12 and deltas[0] != delta:
                self.bad("options-change-output", "deltas differ between routes and options")
            deltas.append(delta)
            c = delta_counts(delta)
            self.numbers(lines, "literal", c[:3])
            self.numbers(lines, "copy", c[3:])
        self.put("delta", delta)
        for _ in range(2):
            rt = r.choice(("file", "pipe", "stdin-file"))
            out, lines, res = self.orun("patch", [], [("basis", basis, "file"), ("delta", delta, rt)], "out", self.noise())
            if out != got:
                self.bad("wrong-output", "patch wrote %d bytes, the delta describes %d" % (len(out), len(got)))
            self.numbers(lines, "literal", c[:3])
            self.numbers(lines, "copy", c[3:])
        self.unchanged(sn)
        self.env.ev("option_pipelines_completed")
        self.desc = "%d -> %d bytes, hash %s rollsum %s block %s sum %s" % (len(basis), len(new), h, ro, bl, sl)

    def k_help(self):
        r = self.r
        basis = r.randbytes(100)
        self.put("basis", basis)
        self.put("keep", b"kept")
        rest = r.choice(([], ["signature", "basis", "out"], ["-f", "signature", "basis", "keep"]))
        o = r.choice(("-?", "--help", "-h", "-V", "--version"))
        line = [o] + rest if r.random() < .5 else rest + [o]
        res = self.rdiff(line)
        self.fine(o, res)
        t = res[1].decode(errors="replace")
        if o in ("-V", "--version"):
            if not re.match(r"rdiff \(librsync \d+\.\d+", t) or ("%d bit files" % 64) not in t:
                self.bad("version-text", "version says %r" % t[:200])
        else:
            for w in ("signature [", "delta SIGNATURE", "patch BASIS", "--block-size", "--sum-size", "--hash", "--rollsum", "--input-size", "--output-size", "--statistics", "--force", "--verbose", "--version", "--help"):
                if w not in t:
                    self.bad("help-text", "the help text does not mention %s" % w)
        if sorted(os.listdir(self.d)) != ["basis", "keep"] or self.get("keep") != b"kept" or self.get("basis") != basis:
            self.bad("help-touches-files", "%s touched files" % " ".join(line))
        self.sig.add((o, len(rest)))
        self.env.ev("help_and_version_shown")

    def files(self):
        basis, new = self.contents()
        if len(basis) < 300:
            basis = self.r.randbytes(3000)
        if len(new) < 300:
            new = basis[:500] + self.r.randbytes(2500) + basis[900:]
        sig = ref_sig(basis[:4000], 0x72730137, 256, 32)
        basis = basis[:4000]
        self.put("basis", basis)
        self.put("new", new)
        self.put("sig", sig)
        lit = self.r.randbytes(self.r.randrange(1, 200))
        delta = b"rs\x026" + bytes([0x45 + 5]) + struct.pack(">HH", 3, 250) + bytes([0x41]) + bytes([len(lit)]) + lit
        for _ in range(self.r.randrange(12)):
            p = self.r.randrange(len(basis) - 1)
            delta += bytes([0x50]) + struct.pack(">IQ", p, self.r.randrange(1, len(basis) - p + 1)) if self.r.random() < .5 else bytes([20]) + self.r.randbytes(20)
        delta += b"\0"
        self.put("delta", delta)
        return basis, new, sig, delta

    def ops(self, out):
        return [(["signature", "-b", "64", "basis"] + out, ["basis"]), (["delta", "sig", "new"] + out, ["sig", "new"]), (["patch", "basis", "delta"] + out, ["basis", "delta"])]

    def want(self, i, out):
        """is `out` the complete right output of operation i?"""
        basis, new, sig, delta = self.F
        if i == 0:
            return out == ref_sig(basis, 0x72730147, 64, 32)
        if i == 1:
            return ref_patch(basis, out) == new
        return out == ref_patch(basis, delta)

    def k_writefault(self):
        self.F = self.files()
        r = self.r
        i = self.num % 3
        mode = r.choice(("full", "fullname", "fsize", "fsize", "fsize", "fsize-stdout", "closed-pipe", "nodir", "isdir", "closed", "rofd"))
        io = self.io_opts()
        ops = self.ops([])
        if mode == "full":
            with open("/dev/full", "wb") as f:
                self.failed("standard output is full", self.rdiff(io + ops[i][0], stdout=f))
        elif mode == "fullname":
            self.failed("output device is full", self.rdiff(io + ["-f"] + self.ops(["/dev/full"])[i][0]))
        elif mode.startswith("fsize"):
            rc, o, _ = self.rdiff(io + ops[i][0])
            if rc:
                self.bad("failure-reported", "operation should succeed")
            lim = r.choice((0, len(o) - 1, r.randrange(len(o)), len(o), len(o) + 1, r.randrange(0, min(50, len(o)))))
            if mode == "fsize":
                res = self.rdiff(io + self.ops(["out"])[i][0], fsize=lim)
                got = self.get("out") if os.path.exists(self.path("out")) else b""
            else:
                with open(self.path("out"), "wb") as f:
                    res = self.rdiff(io + ops[i][0], stdout=f, fsize=lim)
                got = self.get("out")
            if lim < len(o):
                self.failed("only %d of %d output bytes can be written" % (lim, len(o)), res)
            elif res[0] == 0 and not self.want(i, got):
                self.bad("wrong-output", "output differs")
            if o[:len(got)] != got:
                self.bad("wrong-output", "what was written is not a prefix of the output")
            self.env.ev("write_limits_hit")
        elif mode == "closed-pipe":
            a, b = os.pipe()
            os.close(a)
            res = self.rdiff(io + ops[i][0], stdout=b, pre=lambda: signal.signal(signal.SIGPIPE, signal.SIG_IGN))
            os.close(b)
            self.failed("output pipe is closed", res)
        elif mode == "nodir":
            self.failed("output directory does not exist", self.rdiff(io + self.ops(["no/such/out"])[i][0]))
        elif mode == "isdir":
            os.mkdir(self.path("dir"))
            self.failed("output is a directory", self.rdiff(io + r.choice(([], ["-f"])) + self.ops(["dir"])[i][0]))
        elif mode == "closed":
            self.failed("standard output is closed", self.rdiff(io + ops[i][0], pre=lambda: os.close(1)))
        else:
            with open(self.path("basis"), "rb") as f:
                self.failed("standard output is not open for writing", self.rdiff(io + ops[i][0], stdout=f))
        self.sig.add((i, mode))
        self.env.ev("write_faults")
        self.desc = "%s: %s" % (ops[i][0][0], mode)

    def k_readfault(self):
        self.F = self.files()
        r = self.r
        i = self.num % 3
        ops = self.ops(["out"])
        line, ins = ops[i]
        victim = r.choice(ins)
        mode = r.choice(("missing", "dir", "mem", "unreadable", "wronly-stdin", "emptyname"))
        line = list(line)
        k = line.index(victim, 1)
        io = self.io_opts()
        if mode == "missing":
            line[k] = "missing"
            res = self.rdiff(io + line)
        elif mode == "emptyname":
            line[k] = ""
            res = self.rdiff(io + line)
        elif mode == "dir":
            os.mkdir(self.path("somedir"))
            line[k] = "somedir"
            res = self.rdiff(io + line)
        elif mode == "mem":           # reading its start fails with an I/O error
            line[k] = "/proc/self/mem"
            res = self.rdiff(io + line, flavor="plain")
        elif mode == "unreadable":
            if not self.env.can_setuid:
                return self.skip()
            os.chmod(self.d, 0o777)
            for n in os.listdir(self.d):
                os.chown(self.path(n), 65534, 65534)
            os.chmod(self.path(victim), 0o200)
            res = self.rdiff(io + line, user=True)
        else:
            line[k] = "-"
            with open(self.path("wo"), "wb") as f:
                res = self.rdiff(io + line, stdin_file=f)
        self.failed("input %s is %s" % (victim, mode), res)
        self.sig.add((i, victim, mode))
        self.env.ev("read_faults")
        self.desc = "%s: input %s %s" % (line[0], victim, mode)

    def skip(self):
        self.env.ev("skipped")

    def k_exists(self):
        self.F = self.files()
        r = self.r
        i = self.num % 3
        line, _ = self.ops(["out"])[i]
        mode = r.choice(("plain", "empty", "symlink", "unreadable", "readonly", "force", "force-long", "dangling", "fifo"))
        old = b"" if mode == "empty" else r.randbytes(r.choice((1, 50, 100000)))
        io = self.io_opts()
        if mode == "dangling":          # nothing there to overwrite: created
            os.symlink("target", self.path("out"))
            res = self.rdiff(io + line)
            if res[0] == 0 and not self.want(i, self.get("out")):
                self.bad("wrong-output", "output through a dangling link is wrong")
            return
        if mode == "fifo":
            if r.random() < .5:
                return self.skip()
            os.mkfifo(self.path("out"))
            fd = os.open(self.path("out"), os.O_RDWR | os.O_NONBLOCK)
            try:
                res = self.rdiff(io + line)
                self.failed("output exists (a fifo) and is not forced", res)
            finally:
                os.close(fd)
            return
        name = "out"
        if mode == "symlink":
            self.put("real", old)
            os.symlink("real", self.path("out"))
            name = "real"
        else:
            self.put("out", old)
        user = False
        if mode in ("unreadable", "readonly"):
            if not self.env.can_setuid:
                return self.skip()
            os.chmod(self.d, 0o777)
            for n in os.listdir(self.d):
                os.chown(self.path(n), 65534, 65534)
            os.chmod(self.path("out"), 0o200 if mode == "unreadable" else 0o400)
            user = True
        if mode.startswith("force"):
            res = self.rdiff(io + [r.choice(("-f", "--force"))] + line)
            self.fine("forced overwriting", res)
            if not self.want(i, self.get("out")):
                self.bad("wrong-output", "forced output is wrong")
            self.env.ev("forced_overwrites")
        else:
            res = self.rdiff(io + line, user=user)
            if self.get(name) != old:
                self.bad("overwritten", "existing file (%s, %d bytes) was overwritten without --force, exit status %d" % (mode, len(old), res[0]))
            self.failed("output exists (%s) and is not forced" % mode, res)
            self.env.ev("existing_files_kept")
        self.sig.add((i, mode))
        self.desc = "%s: existing output, %s" % (line[0], mode)

    def k_args(self):
        self.F = self.files()
        r = self.r
        ok = lambda i: self.ops([])[i][0]
        ops = [ok(0), ok(1), ok(2)]
        num = lambda: r.choice(("-1", "-2147483648", "2147483648", "99999999999999999999", "x", "12x", "1e3", "-5", "-100"))
        L = [
            [], ["bogus"] + ops[0][1:], ["signaturex", "basis"], ["sigx", "basis"], ["deltas", "sig", "new"], ["patchy", "basis", "delta"], ["-"],
            ["--nosuch"] + ops[0], ["-x"] + ops[0], ["delta"], ["patch"], ops[0] + ["o1", "o2"], ops[1] + ["o1", "o2"], ops[2] + ["o1", "o2"],
            ["-H", "md5"] + ops[0], ["-H", ""] + ops[0], ["--hash=blake"] + ops[0], ["--hash=BLAKE2"] + ops[0], ["-R", "adler"] + ops[0], ["--rollsum=rabin"] + ops[0], ["-R", ""] + ops[0],
            ["-b", num(), "signature", "basis"], ["--block-size=" + num(), "signature", "basis"], ["-I", num()] + ops[0], ["-O", num()] + ops[1], ["-O" + num()] + ops[2],
            ["-S", r.choice(("-2", "-3", "x", "33", "1000", "99999999999", "2147483647")), "signature", "basis"], ["-H", "md4", "-S", r.choice(("17", "32", "33")), "signature", "basis"],
            ["-z"] + ops[1], ["-i"] + ops[1], ["--gzip"] + ops[1], ["--bzip2"] + ops[1], ["-b"], ["signature", "basis", "-b"], ["--sum-size"], ["-H"],
        ]
        # names that are nearly right
        near = lambda n: r.choice((n + r.choice("xX0 -"), n[:-1], n[1:], " " + n, n + "\n", n[:r.randrange(1, len(n))], n.swapcase(), n[:-1] + chr(ord(n[-1]) + 1)))
        L += [["-H", near(r.choice(("md4", "blake2")))] + ops[0], ["--hash=" + near("md4")] + ops[0], ["-R" + near(r.choice(("rollsum", "rabinkarp")))] + ops[0], ["--rollsum", near("rollsum")] + ops[0],
              [r.choice(("signature ", "signature1", "xsignature", "Signature", "SIGNATURE", "signaturE", " signature", "signature\n", "ignature"))] + ops[0][1:]]
        k = (self.num // 1) % len(L)
        line = L[k]
        sn = self.snap("basis", "sig", "new", "delta")
        res = self.rdiff(line, r.choice((b"", b"abc")))
        self.unchanged(sn)
        self.failed("bad arguments", res)
        self.sig.add((k, tuple(line)))
        self.env.ev("bad_arguments_rejected")
        # information options
        o = r.choice((["--help"], ["-?"], ["-h"], ["-V"], ["--version"]))
        res = self.rdiff(o)
        self.fine("information option", res)
        if not res[1]:
            self.bad("no-information", "%s prints nothing" % o[0])
        self.desc = "bad arguments: %s" % " ".join(line)

    def k_damage(self):
        basis, new, sig, delta = self.F = self.files()
        r = self.r
        i = 1 + self.num % 2
        src = bytearray(sig if i == 1 else delta)
        how = r.choice(("cut", "cut", "cut", "flip", "flip", "field", "append", "empty", "swap", "junk"))
        if how == "cut":
            del src[r.randrange(len(src)):]
        elif how == "flip":
            src[r.randrange(min(len(src), 14 if i == 1 else 400))] ^= r.randrange(1, 256)
        elif how == "field":
            o = r.choice((0, 4, 8)) if i == 1 else r.randrange(4, len(src))
            v = r.choice((b"\0\0\0\0", b"\xff\xff\xff\xff", b"\x80\0\0\0", b"\x7f\xff\xff\xff", b"rs\x01\x36", b"rs\x02\x36", b"\0\0\0\x21", b"\x55\x55\x55\x55"))
            src[o:o + 4] = v[:max(0, len(src) - o)]
        elif how == "append":
            src += r.randbytes(r.randrange(1, 40))
        elif how == "empty":
            src = bytearray()
        elif how == "swap":
            src = bytearray(delta if i == 1 else sig)
        else:
            src = bytearray(r.randbytes(r.randrange(1, 100)))
        src = bytes(src)
        valid = ref_sig_ok(src) if i == 1 else ref_patch(basis, src)
        self.put("sig" if i == 1 else "delta", src)
        if i == 1 and valid and struct.unpack(">I", src[4:8])[0] > 1 << 24:
            return self.skip()          # the scan window would be as large as the block
        if i == 1:
            out, res = self.step("delta", self.io_opts(), [src, new], ["sig", "new", "out"], False)
        else:
            out, res = self.step("patch", self.io_opts(), [basis, src], ["basis", "delta", "out"], False)
        if i == 2 and valid is not None:
            self.fine("a delta that is still valid", res)
            if out != valid:
                self.bad("wrong-output", "patch wrote %d bytes, the delta describes %d" % (len(out), len(valid)))
        elif i == 1 and valid:
            self.fine("a signature that is still valid", res)
        else:
            self.failed("%s is damaged (%s, %d bytes)" % ("signature" if i == 1 else "delta", how, len(src)), res)
            self.env.ev("damaged_inputs_rejected")
        self.sig.add((i, how, len(src), bool(valid)))
        self.desc = "%s %s -> exit %d" % (how, "signature" if i == 1 else "delta", res[0])

    def k_syscall(self):
        """Every system call on the files made to fail in turn: status 0 only with the right output."""
        if not self.env.strace:
            return self.skip()
        self.F = self.files()
        r = self.r
        i = self.num % 3
        line, ins = self.ops(["out"])[i]
        victim = r.choice(ins + ["out"])
        call = r.choice(("write", "write", "close") if victim == "out" else ("read", "read", "read", "lseek"))
        err = r.choice(("EIO", "ENOSPC")) if victim == "out" else "EIO"
        small = ["-I", str(r.choice((64, 300, 5000))), "-O", str(r.choice((64, 300, 5000)))] if r.random() < .7 else []
        when = r.choice(("1", "2", "3", "4", "5", "1+", "2+", "3+"))
        log = self.path("strace.log")
        out = self.path("out")
        if os.path.exists(out):
            os.unlink(out)
        if call == "close" and when[0] != "1":
            when = "1"
        res = self.rdiff(small + line, stdin_file=subprocess.DEVNULL, flavor="plain", wrap=["strace", "-f", "-o", log, "-P", self.path(victim), "-e", "trace=" + call, "-e", "inject=%s:error=%s:when=%s" % (call, err, when)])
        if res[0] < 0 or res[0] >= 128:
            self.bad("crash", "ended by a signal (%d)" % res[0])
        inj = open(log, errors="replace").read().count("(INJECTED)") if os.path.exists(log) else 0
        got = self.get("out") if os.path.exists(out) else b""
        if res[0] == 0 and not self.want(i, got):
            self.bad("success-reported", "%s of %s failed with %s (%s) and the output is wrong, but the exit status is 0" % (call, victim, err, when))
        if inj and victim == "out":
            self.failed("%s of the output failed" % call, res)
        if not inj and res[0]:
            self.bad("failure-reported", "no call failed, but the exit status is %d" % res[0])
        self.env.ev("system_call_failures_injected", inj)
        self.sig.add((i, victim, call, when, err, tuple(small)))
        self.desc = "%s: %s of %s fails with %s at %s -> exit %d" % (line[0], call, victim, err, when, res[0])

    def k_extreme(self):
        r = self.r
        basis, new = self.contents()
        self.put("basis", basis)
        self.put("new", new)
        bl = r.choice((1, 2, 2147483647, 2147483646, 1 << 30, 65536, 1 << 20))
        h = r.choice(("md4", "blake2"))
        sl = r.choice((1, 16 if h == "md4" else 32, -1, 0, 2))
        res = self.rdiff(["-b", str(bl), "--sum-size=%d" % sl, "-H", h, "signature", "basis", "sig"])
        self.fine("signature with extreme options", res)
        sig = self.get("sig")
        self.check_sig(basis, sig, MAGIC[(h, "rabinkarp")], bl, sl, 16 if h == "md4" else 32)
        if bl <= 1 << 20:
            self.fine("delta with extreme options", self.rdiff(["-I", str(r.choice((1, 1 << 20, 4 << 20))), "-O", str(r.choice((1, 1 << 20))), "delta", "sig", "new", "delta"]))
            d = self.get("delta")
            v = ref_patch(basis, d)
            if v is None or (sl != 1 and sl != 2 and sl != -1 and v != new):
                self.bad("wrong-delta", "the delta does not describe the new file")
            self.fine("patch", self.rdiff(["patch", "basis", "delta", "out"]))
            if self.get("out") != v:
                self.bad("wrong-output", "patch output differs")
        self.sig.add((bl, h, sl, len(basis)))
        self.env.ev("extreme_options")
        self.desc = "block %d, sum %d, %s" % (bl, sl, h)


KINDS = ["good", "good", "good", "writefault", "writefault", "readfault", "exists", "args", "damage", "damage", "syscall", "syscall", "extreme"]
KINDS29 = ["options"]


class Env:
    def __init__(self, tmp, dirs):
        self.tmp = tmp
        self.events, self.codes, self.lock = {}, set(), threading.Lock()
        self.bin = {}
        for fl, d in dirs.items():
            src = next((os.path.join(dp, "rdiff") for dp, _, fs in os.walk(d) if "rdiff" in fs), None)
            if not src:
                raise vlib.HarnessError("rdiff was not built")
            self.bin[fl] = os.path.join(tmp, "rdiff-" + fl)
            shutil.copy(src, self.bin[fl])
            os.chmod(self.bin[fl], 0o755)
        self.flavors = sorted(self.bin)
        os.chmod(tmp, 0o755)
        self.can_setuid = self.probe([self.bin["plain"], "--version"], user=65534, group=65534, extra_groups=[])
        self.strace = self.probe(["strace", "-f", "-o", os.path.join(tmp, "probe"), "-P", "/dev/null", "-e", "trace=read", "-e", "inject=read:error=EIO:when=1", "true"])

    def probe(self, cmd, **kw):
        try:
            return subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30, **kw).returncode == 0
        except (OSError, subprocess.SubprocessError):
            return False

    def ev(self, k, n=1):
        with self.lock:
            self.events[k] = self.events.get(k, 0) + n


def one(env, num, seed, kind, prop="C21"):
    c = Case(env, num, seed, kind)
    os.chmod(c.d, 0o755)
    try:
        getattr(c, "k_" + kind)()
        return None, c
    except Viol as v:
        return dict(prop=prop, key=v.key, case=num, detail=v.detail, shard=None, flavor="rdiff", report=v.report, script=kind), c
    finally:
        shutil.rmtree(c.d, ignore_errors=True)


def run(tier, seed, log, only=None, prop="C21"):
    dirs = vlib.build_all([], ["asann", "plain", "dbg"])
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    agg = {"cases": 0, "nontriv": 0, "ev": {}, "evmax": {}, "samples": [], "sets": {}, "hashes": set()}
    viols = []
    try:
        env = Env(tmp, {k[6:]: d for k, d in dirs.items()})
        total = 2200 if tier == "quick" else 40000
        kinds = KINDS if prop == "C21" else KINDS29
        if prop == "C29":
            total = 1600 if tier == "quick" else 30000
        jobs = [(n, kinds[n % len(kinds)]) for n in range(total)] if only is None else only
        # kinds cycle with a period coprime to the sub-cycles: number cases within the kind
        cnt, todo = {}, []
        if only is None:
            for _, k in jobs:
                cnt[k] = cnt.get(k, -1) + 1
                todo.append((cnt[k], k))
        else:
            todo = only
        with concurrent.futures.ThreadPoolExecutor(vlib.NCPU) as ex:
            for f in [ex.submit(one, env, n, seed, k, prop) for n, k in todo]:
                try:
                    v, c = f.result()
                except concurrent.futures.CancelledError:
                    continue
                agg["cases"] += 1
                if v:
                    viols.append(v)
                    if len(viols) >= 3:
                        ex.shutdown(wait=False, cancel_futures=True)
                        break
                if c.sig:
                    agg["nontriv"] += 1
                    agg["hashes"].add(hash((c.kind, tuple(sorted(map(repr, c.sig))))))
                agg["sets"].setdefault("kinds_of_run", set()).add(c.kind)
                if c.desc and len([s for s in agg["samples"] if s.startswith(c.kind)]) < 1 and len(agg["samples"]) < 12:
                    agg["samples"].append("%s #%d: %s; %s" % (c.kind, c.num, c.desc, " | ".join(c.hist[:3])[:400]))
        agg["ev"] = dict(env.events)
        agg["sets"]["exit_statuses"] = {str(x) for x in env.codes}
        if not env.strace:
            log("strace cannot be used here: no injected system call failures")
        return viols, agg
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(r):
    v, _ = run(r["tier"], r["seed"], print, [(r["case"], r["script"])], r["property"])
    for x in v:
        print(x["key"], x["detail"])
        print("VIOLATION property=%s replay=-" % r["property"])
    return 1 if v else 0
