#!/usr/bin/env python3
"""check.py <ID> [--replay FILE]   decide one property (VERIF_TIER, VERIF_SEED)
   check.py --setup                build every flavor once
Exit 0: held on everything observed; 1 with a VIOLATION line: broken; 2: the check itself failed."""
import json, os, re, shutil, subprocess, sys, tempfile, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import HarnessError

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
EVID = os.path.join(vlib.VERIF, "evidence")

# property -> [(harness flavor, cases in all, shards)] ; thorough: cases multiplied
PLAN = {
    "C01": [("plain", 32000, 8), ("asan", 3200, 8)],
    "C02": [("plain", 12000, 8), ("asan", 800, 8)],
    "C03": [("plain", 16000, 8), ("asan", 1600, 8)],
    "C04": [("plain", 32000, 8), ("asan", 2400, 8)],
    "C05": [("plain", 64000, 8), ("asan", 6400, 8)],
    "C06": [("plain", 20000, 8), ("asan", 1600, 8)],
    "C07": [("plain", 48000, 8), ("asan", 3200, 8)],
    "C08": [("plain", 120000, 8), ("asan", 12000, 8)],
    "C09": [("plain", 160000, 8), ("asan", 24000, 8)],
    "C10": [("asans", 3200, 8), ("asanns", 3200, 8), ("msan", 1600, 8)],
    "C11": [("plain", 12000, 8), ("dbg", 2000, 8)],
    "C12": [("plain", 64000, 8), ("asan", 6400, 8)],
    "C13": [("plain", 10000, 8), ("asan", 800, 8)],
    "C14": [("plain", 24000, 8), ("asan", 2400, 8)],
    "C15": [("wrap", 3200, 8), ("wrapasan", 480, 8)],
    "C16": [("wrap", 160, 8), ("wrapdbg", 40, 8)],
    "C17": [("tsan", 64, 16), ("plain", 240, 4)],
    "C18": [("plain", 24000, 8), ("asan", 1600, 8)],
    "C19": [("plain", 80000, 8), ("asan", 8000, 8)],
    "C20": [("plain", 400, 8), ("asann", 120, 8)],
    "C22": [("wrap", 480, 8), ("wrapasan", 96, 8)],
    "C23": [("plain", 8000, 8), ("dbg", 4000, 8), ("asan", 800, 8)],
    "C24": [("plain", 8000, 8), ("asan", 16000, 8)],
    "C25": [("plain", 100000, 8), ("asan", 16000, 8)],
    "C26": [("plain", 24000, 8), ("asan", 1600, 8)],
    "C27": [("plain", 24000, 8), ("asan", 4000, 8)],
    "C30": [("plain", 16000, 8), ("asan", 1600, 8)],
    "C31": [("plain", 1600, 4)],
    "C28": [("plain", 8000, 8), ("dbg", 8000, 8), ("o0", 8000, 8), ("o3", 8000, 8), ("asann", 2000, 8), ("asan", 1000, 8)],
}
FACTOR = {"C16": 8, "C17": 12, "C20": 8, "C15": 20, "C22": 20}         # thorough
FUZZ = {"C07", "C08", "C09", "C10", "C12", "C01", "C02", "C13", "C25"}  # thorough: coverage-guided phase
MEM_GB = {"C20": 16, "C16": 8}
MUST = json.load(open(os.path.join(vlib.VERIF, "must_see.json")))


def log(*a):
    print("[%s]" % time.strftime("%H:%M:%S"), *a, flush=True)


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(vlib.VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    except OSError:
        pass
    return out


def shards_for(prop, exes, tmp, dictf):
    out = []
    tier = TIER
    secs = 200 if tier == "quick" else 1500
    mult = 1 if tier == "quick" else FACTOR.get(prop, 30)
    scale = float(os.environ.get("VERIF_SCALE", "1"))       # for trials only
    for j, (fl, total, n) in enumerate(PLAN[prop]):
        total = int(total * mult * scale)
        base = j * 27720000             # other cases under each instrumentation
        hang = 90 if prop != "C20" else 200
        if prop == "C20" and fl == "plain":
            # the heavy cases 0..14 each in a process of its own, started first
            for k in range(15):
                out.append(vlib.Shard(exes[fl], fl, prop, SEED, k, 1, 1, secs, tier, tmp, len(out), dictf, hang, 40 if k == 13 else MEM_GB[prop]))
        if prop == "C17":
            per = max(total // n, 1)
            for k in range(n * (1 if tier == "quick" else 4)):
                out.append(vlib.Shard(exes[fl], fl, prop, SEED, base + k, n * 4, per if tier == "quick" else per // 4 + 1, secs, tier, tmp, len(out), dictf, hang, 8))
            continue
        off = base + (15 if prop == "C20" else 0)
        for k in range(n):
            out.append(vlib.Shard(exes[fl], fl, prop, SEED, off + k, n, max(total // n, 1), secs, tier, tmp, len(out), dictf, hang, MEM_GB.get(prop, 6)))
    return out


# C28: the same cases in different builds, environments, histories: (flavor, reversed order, environment)
VARIANTS = [("plain", 0, {}), ("plain", 1, {"MALLOC_PERTURB_": "85", "MALLOC_MMAP_THRESHOLD_": "3000", "TZ": "Asia/Tokyo", "LC_ALL": "POSIX"}), ("dbg", 1, {"MALLOC_PERTURB_": "170", "TZ": "UTC"}),
            ("o0", 0, {"MALLOC_PERTURB_": "255", "LANG": "tr_TR.UTF-8", "TZ": "America/New_York"}), ("o3", 1, {"MALLOC_TOP_PAD_": "1", "MALLOC_PERTURB_": "1", "POSIXLY_CORRECT": "1", "COLUMNS": "10"}),
            ("asann", 1, {}), ("asan", 0, {})]


def variant_shards(prop, exes, tmp, dictf):
    out = []
    mult = (1 if TIER == "quick" else FACTOR.get(prop, 20)) * float(os.environ.get("VERIF_SCALE", "1"))
    for k, (fl, rev, env) in enumerate(VARIANTS):
        total, n = next((t, n) for f, t, n in PLAN[prop] if f == fl)
        for i in range(n):
            s = vlib.Shard(exes[fl], fl, prop, SEED, i, n, max(int(total * mult) // n, 1), 0, TIER, tmp, len(out), dictf)
            s.args, s.xenv, s.variant = ["--digests"] + (["--reverse"] if rev else []), env, "%s%s %s" % (fl, " in reverse order" if rev else "", env or "")
            out.append(s)
    return out


def compare_digests(shards, agg):
    """Offline comparison of the recorded digests: every variant that ran a case must have seen the same results."""
    seen, viols, comp = {}, [], 0
    for s in shards:
        for c, h in s.dg.items():
            if c not in seen:
                seen[c] = (h, s)
                continue
            comp += 1
            if seen[c][0] != h and len(viols) < 20:
                viols.append(dict(prop=s.prop, key="results-differ", case=c, shard=s, report="", detail="results of the same operations differ between {%s} and {%s}" % (seen[c][1].variant.strip(), s.variant.strip()), pair=[seen[c][1].fl, s.fl]))
    agg["ev"]["digests_compared"] = comp
    agg["ev"]["variants"] = len({s.variant for s in shards if s.dg})
    return viols


def fuzz_phase(prop, exe, tmp, agg, seconds=240):
    """libFuzzer drives the case generator's random choices by coverage. Timeouts and memory limits are inconclusive."""
    corp = os.path.join(tmp, "corpus")
    os.makedirs(corp, exist_ok=True)
    import random
    rnd = random.Random(SEED)
    for i in range(64):
        with open(os.path.join(corp, "s%d" % i), "wb") as f:
            f.write(bytes([i, 0, 0, 0]) + rnd.randbytes(rnd.choice((100, 400, 2000, 6000))))
    procs, viols = [], []
    for w in range(vlib.NCPU):
        env = vlib.clean_env()
        env.update(vlib.SAN_ENV)
        env["ASAN_OPTIONS"] = vlib.SAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
        env["H_PROP"], env["H_OUT"] = prop, os.path.join(tmp, "fz-out-%d" % w)
        art = os.path.join(tmp, "art-%d-" % w)
        cmd = [exe, corp, "-max_len=8192", "-runs=400000", "-max_total_time=%d" % seconds, "-timeout=120", "-rss_limit_mb=3500", "-seed=%d" % (SEED * 100 + w + 1),
               "-artifact_prefix=" + art, "-print_final_stats=1", "-detect_leaks=0", "-reload=1", "-use_value_profile=1"]
        procs.append((w, art, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, "fz-err-%d" % w), "wb"), env=env, cwd=tmp, start_new_session=True)))
    execs = 0
    for w, art, p in procs:
        try:
            p.wait(timeout=seconds + 400)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        t = open(os.path.join(tmp, "fz-err-%d" % w), errors="replace").read()
        m = re.search(r"number_of_executed_units: (\d+)", t)
        execs += int(m.group(1)) if m else 0
        m = re.findall(r"cov: (\d+) ft: (\d+)", t)
        if m:
            agg["evmax"]["fuzz_coverage_edges"] = max(agg["evmax"].get("fuzz_coverage_edges", 0), int(m[-1][0]))
            agg["evmax"]["fuzz_features"] = max(agg["evmax"].get("fuzz_features", 0), int(m[-1][1]))
        fo = os.path.join(tmp, "fz-out-%d" % w)
        lines = [l.rstrip("\n").split("\t") for l in open(fo, errors="replace")] if os.path.exists(fo) else []
        vl = [l for l in lines if l[0] == "VIOL"]
        crash = [f for f in os.listdir(tmp) if f.startswith(os.path.basename(art) + "crash-")]
        if vl or crash:
            keep = os.path.join(EVID, "replay")
            os.makedirs(keep, exist_ok=True)
            kept = None
            if crash:
                kept = os.path.join(keep, "%s-fuzz-%s" % (prop, crash[0][-12:]))
                shutil.copy(os.path.join(tmp, crash[0]), kept)
            viols.append(dict(prop=prop, key=vl[0][2] if vl else "sanitizer", case=-1, detail=("libFuzzer: " + (vl[0][4] if vl else vlib.summarize_report(t[-20000:]))), shard=None, report=t[-8000:], artifact=kept))
    agg["ev"]["fuzz_executions"] = execs
    agg["ev"]["fuzz_corpus_files"] = len(os.listdir(corp))
    agg["cases"] += execs
    return viols


def write_evidence(prop, viols, agg, wall, extra=None):
    info = MUST[prop]
    cov = {"evaluations": agg["cases"], "distinct_nontrivial": len(agg["hashes"]), "rule": info["rule"], "samples": agg["samples"][:8],
           "observed_events": dict(sorted(agg["ev"].items())), "observed_maxima": dict(sorted(agg["evmax"].items())),
           "distinct_values_seen": {k: len(v) for k, v in sorted(agg["sets"].items())}}
    if extra:
        cov.update(extra)
    e = {"property": prop, "tier": TIER, "seed": SEED, "level": info["level"], "coverage": cov, "assumptions": info["assumptions"], "wall_s": round(wall, 1), "violations": len(viols)}
    os.makedirs(EVID, exist_ok=True)
    t = os.path.join(EVID, prop + ".json")
    with open(t + ".tmp", "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")
    os.replace(t + ".tmp", t)


def report(prop, viols, agg, t0, extra=None):
    known = known_findings(prop)
    seen, real = [], []
    for v in viols:
        k = next((x for x in known if x[0] == v["key"] and x[1].search(v["detail"])), None)
        if k:
            if k not in seen:
                seen.append(k)
        else:
            real.append(v)
    for k in seen:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    write_evidence(prop, real, agg, time.time() - t0, extra)
    if real:
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        done = set()
        for v in real:
            if v["key"] in done or len(done) >= 5:
                continue
            done.add(v["key"])
            s = v.get("shard")
            r = {"property": prop, "key": v["key"], "detail": v["detail"], "tier": TIER, "seed": SEED, "case": v["case"], "flavor": s.fl if s else v.get("flavor"),
                 "artifact": v.get("artifact"), "script": v.get("script"), "report": v["report"][-6000:],
                 "replay": "python3 %s %s --replay <this file>" % (os.path.join(vlib.VERIF, "check.py"), prop)}
            path = os.path.join(rd, "%s-%s-%s.json" % (prop, re.sub(r"\W+", "_", v["key"])[:40], v["case"]))
            with open(path, "w") as f:
                json.dump(r, f, indent=1)
            log("%s: case %s [%s] %s" % (prop, v["case"], v["key"], v["detail"][:500]))
            if v["report"]:
                print(v["report"][:3000])
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    # Three-valued: nothing observed is not "held".
    for k, least in info_min(prop).items():
        have = agg["ev"].get(k, agg["evmax"].get(k, 0))
        if have < least:
            log("inconclusive: only %d %s observed, at least %d expected" % (have, k, least))
            return 2
    log("%s held: %d cases, %d distinct non-trivial, %s" % (prop, agg["cases"], len(agg["hashes"]), ", ".join("%s=%s" % x for x in sorted(agg["ev"].items()))))
    return 0


def info_min(prop):
    return MUST[prop].get("min_events", {})


def run(prop):
    t0 = time.time()
    if prop in ("C21", "C29"):
        import c21
        viols, agg = c21.run(TIER, SEED, log, None, prop)
        return report(prop, viols, agg, t0)
    fls = [f for f, _, _ in PLAN[prop]]
    fz = TIER == "thorough" and prop in FUZZ
    exes = vlib.build_all(fls + (["fuzz"] if fz else []))
    log("built %s in %.1f s" % (", ".join(fls), time.time() - t0))
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        dictf = os.path.join(tmp, "dict")
        nd = vlib.mine_dict(dictf)
        shards = variant_shards(prop, exes, tmp, dictf) if prop == "C28" else shards_for(prop, exes, tmp, dictf)
        viols, agg = vlib.run_shards(shards, log)
        if prop == "C28" and not viols:
            viols = compare_digests(shards, agg)
        agg["ev"]["constants_used_as_sizes"] = nd
        if fz and not viols:
            viols += fuzz_phase(prop, exes["fuzz"], tmp, agg)
        return report(prop, viols, agg, t0, {"instrumentation": fls + (["libFuzzer+asan+ubsan"] if fz else [])})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(prop, path):
    r = json.load(open(path))
    if prop in ("C21", "C29"):
        import c21
        return c21.replay(r)
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        dictf = os.path.join(tmp, "dict")
        vlib.mine_dict(dictf)
        if r.get("artifact"):
            exe = vlib.build_all(["fuzz"])["fuzz"]
            env = dict(vlib.clean_env(), H_PROP=prop, **vlib.SAN_ENV)
            return 1 if subprocess.run([exe, r["artifact"]], env=env, cwd=tmp).returncode else 0
        if r["key"] == "results-differ":
            exes = vlib.build_all([f for f, _, _ in PLAN[prop]])
            sh = [s for s in variant_shards(prop, exes, tmp, dictf) if r["case"] % s.step == s.start]
            for s in sh:        # with the history the case had
                s.count = min(s.count, r["case"] // s.step + 1) if "--reverse" not in s.args else s.count
                s.seed, s.tier = r["seed"], r["tier"]
            vlib.run_shards(sh, log)
            bad = [v for v in compare_digests(sh, {"ev": {}}) if v["case"] == r["case"]]
            for v in bad:
                print(v["detail"])
                print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1 if bad else 0
        exe = vlib.build_all([r["flavor"]])[r["flavor"]]
        env = dict(vlib.clean_env(), TMPDIR=tmp, **vlib.SAN_ENV)
        rc = subprocess.run([exe, "--prop", prop, "--seed", str(r["seed"]), "--start", str(r["case"]), "--count", "1", "--tier", r["tier"], "--dict", dictf], env=env, cwd=tmp).returncode
        if rc:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if rc else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a == ["--setup"]:
            vlib.build_all(["plain", "dbg", "asan", "asann", "asans", "asanns", "tsan", "msan", "o0", "o3", "wrap", "wrapdbg", "wrapasan"], ["asann"])
            return 0
        if len(a) >= 1 and (a[0] in PLAN or a[0] in ("C21", "C29")):
            if len(a) == 3 and a[1] == "--replay":
                return replay(a[0], a[2])
            return run(a[0])
    except HarnessError as e:
        log("ERROR of the check:", e)
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        log("ERROR of the check")
        return 2
    print(__doc__)
    return 2


sys.exit(main())
