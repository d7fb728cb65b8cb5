#!/usr/bin/env python3
"""Runs the monitors of one property:  check.py C07 [--tier quick|thorough] [--seed N]
   Replays a reported case:            check.py --replay work/replay/<file>.json
   Builds all flavours:                check.py --build
Exit status: 0 held on everything explored, 1 violated (VIOLATION line), 2 no answer."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CAL_REPO", "/repo")
JOBS = min(8, os.cpu_count() or 1)
T0 = time.time()

SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=aligned_alloc"
# name: (library flags, PAGE_SIZE, link flags)
FLAVOURS = {
    "asan":  ("-O1 -g " + SAN, 4096, SAN),          # asserts, ASan, UBSan
    "fast":  ("-O2 -g -DNDEBUG", 4096, ""),         # release code
    "small": ("-O1 -g", 512, ""),                   # asserts, tiny pages
    "vg":    ("-O1 -g -DNDEBUG", 4096, ""),         # for valgrind memcheck
}
HARNESS = "-O1 -g1 -std=c++17"
BASE = {"asan": 0, "small": 1000000, "fast": 2000000, "vg": 3000000}

# cases per property and flavour: quick, thorough
PLAN = json.load(open(os.path.join(HERE, "plan.json")))


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sources():
    c = sorted(glob.glob(REPO + "/src/*.c"))
    h = sorted(glob.glob(REPO + "/src/*.h") + glob.glob(REPO + "/src/*.hh"))
    v = sorted(glob.glob(HERE + "/src/*"))
    return c, h, v


def tree_hash():
    m = hashlib.sha256()
    c, h, v = sources()
    for f in c + h + v + [os.path.abspath(__file__)]:
        m.update(f.encode())
        m.update(open(f, "rb").read())
    return m.hexdigest()[:16]


def run_all(cmds, cwd):
    def one(cmd):
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return cmd, p.returncode, p.stdout
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for cmd, rc, txt in ex.map(one, cmds):
            if rc != 0:
                log("BUILD FAILED:", cmd)
                log(txt[-4000:])
                sys.exit(2)


def build(which, cpp):
    """which: flavours needed. cpp: True for the C++ interface monitor."""
    d = os.path.join(HERE, "build", tree_hash())
    os.makedirs(d, exist_ok=True)
    for old in glob.glob(os.path.join(HERE, "build", "*")):
        if old != d and os.path.basename(old) != "tmp":
            shutil.rmtree(old, ignore_errors=True)
    name = "cppmon" if cpp else "mon"
    todo = [f for f in which if not os.path.exists(os.path.join(d, f, name))]
    if not todo:
        return d
    c, _, _ = sources()
    cmds, links = [], []
    common = "-w -DCAL_VERIF -I%s/src" % REPO
    if not cpp and not os.path.exists(d + "/mon.o"):
        cmds.append("g++ %s %s -DPAGE_SIZE=4096 -c %s/src/mon.cpp -o mon.o" % (HARNESS, common, HERE))
    for f in todo:
        flags, ps, lf = FLAVOURS[f]
        os.makedirs(os.path.join(d, f), exist_ok=True)
        tag = "-DASAN_BUILD" if f == "asan" else ""
        if cpp:
            cmds.insert(0, "g++ %s -std=c++17 -fno-access-control %s -DPAGE_SIZE=%d -c %s/src/cppmon.cpp -o %s/cppmon.oo" % (flags.replace("-O2", "-O1").replace("-g ", "-g1 "), common, ps, HERE, f))
        cmds.append("g++ %s %s %s -DPAGE_SIZE=%d -c %s/src/rt.cpp -o %s/rt.oo" % (HARNESS, tag, common, ps, HERE, f))
        for s in c:
            o = "%s/%s.o" % (f, os.path.basename(s)[:-2])
            if not os.path.exists(os.path.join(d, o)):
                cmds.append("gcc %s %s -DPAGE_SIZE=%d -c %s -o %s" % (flags, common, ps, s, o))
        main = "%s/cppmon.oo" % f if cpp else "mon.o"
        objs = " ".join("%s/%s.o" % (f, os.path.basename(s)[:-2]) for s in c)
        links.append("g++ %s %s %s %s/rt.oo %s -lm -o %s/%s.tmp && mv %s/%s.tmp %s/%s" % (lf, WRAP, objs, f, main, f, name, f, name, f, name))
    run_all(cmds, d)
    run_all(links, d)
    return d


def child_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:hard_rss_limit_mb=3000:exitcode=77:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    e["LC_ALL"] = "C"
    return e


def limits(flavour):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if flavour in ("fast", "small"):
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    return f


class Finding:
    def __init__(self, flavour, start, case, kind, msg, detail):
        self.flavour, self.start, self.case, self.kind, self.msg, self.detail = flavour, start, case, kind, msg, detail

    def key(self):
        return "%s %s" % (self.kind, self.msg)


class Chunk:
    """Result of one process."""
    def __init__(self):
        self.ends, self.stats, self.finding, self.hang, self.done, self.err = [], {}, None, None, False, ""
        self.killed = False


def command(d, binary, flavour, prop, seed, a, b, limit, verbose=False):
    cmd = [os.path.join(d, flavour, binary), "--prop", prop, "--seed", str(seed), "--from", str(a), "--to", str(b), "--limit", str(limit)]
    if verbose:
        cmd.append("--verbose")
    if flavour == "vg":
        cmd = ["env", "CALMON_FIXED=1", "valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=20"] + cmd + ["--nojunk"]
    return cmd


RUNNING = set()


def run_chunk(d, binary, flavour, prop, seed, a, b, limit, wall):
    r = Chunk()
    wd = os.path.join(HERE, "work")
    os.makedirs(wd, exist_ok=True)
    cmd = command(d, binary, flavour, prop, seed, a, b, limit)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         env=child_env(), cwd=wd, preexec_fn=limits(flavour), start_new_session=True)
    RUNNING.add(p)
    try:
        out, err = p.communicate(timeout=wall)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        r.killed = True
    RUNNING.discard(p)
    cur, trace = None, []
    for line in out.splitlines():
        if line.startswith("BEGIN "):
            cur, trace = int(line[6:]), []
        elif line.startswith("END "):
            f = line.split(" ", 4)
            if len(f) >= 4:
                r.ends.append((int(f[1]), int(f[2]), f[3], f[4] if len(f) > 4 else ""))
            cur = None
        elif line.startswith("STAT "):
            f = line.split()
            r.stats[f[1]] = r.stats.get(f[1], 0) + int(f[2])
        elif line.startswith("TRACE "):
            trace.append(line[6:])
        elif line.startswith("VIOL "):
            m = re.match(r"VIOL case=(-?\d+) kind=(\S+) (.*)", line)
            r.finding = Finding(flavour, a, int(m.group(1)), m.group(2), m.group(3), trace)
        elif line.startswith("HANG "):
            r.hang = (cur, line)
        elif line == "DONE":
            r.done = True
    r.err = err[-6000:]
    if r.killed:
        r.finding = None
        return r
    if not r.done and not r.finding and not r.hang:
        if cur is None or p.returncode == -9:
            r.killed = True     # died outside of a case, or killed from outside
            r.err += "\nexit status %s" % p.returncode
        else:
            m = re.search(r"(ERROR: AddressSanitizer: .*|runtime error: .*|==\d+== (?:Invalid|Conditional|Use of|Jump|Process|Syscall).*)", err)
            kind = "sanitizer" if m else "crash"
            msg = m.group(1) if m else "exit status %s" % p.returncode
            msg = re.sub(r"==\d+== ?", "", msg)
            msg = re.sub(r"0x[0-9a-f]+", "ADDR", msg)
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)|(?:at|by) 0x[0-9A-F]+: (\S+) \(([^)]*)\)", err)
            where = [(x[0] or x[2]) for x in fr][:6]
            r.finding = Finding(flavour, a, cur, kind, msg + " in " + " < ".join(where), trace + err.splitlines()[:80])
    return r


def known_findings(prop):
    res = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


def check(prop, tier, seed):
    binary = "cppmon" if prop == "C14" else "mon"
    plan = PLAN[prop][tier]
    flavours = list(plan)
    d = build(flavours, prop == "C14")
    tbuild = time.time() - T0
    known = known_findings(prop)
    deadline = T0 + (600 if tier == "quick" else 840)
    chunks = []
    for f in flavours:
        n = plan[f]
        size = max(1, min(-(-n // 16), {"asan": 150, "small": 400, "fast": 1500, "vg": 20}[f]))
        chunks += [(f, BASE[f] + a, BASE[f] + min(a + size, n)) for a in range(0, n, size)]
    # interleave the flavours
    key = {}
    for i, c in enumerate(chunks):
        key[c] = (c[1] - BASE[c[0]]) / plan[c[0]]
    chunks.sort(key=lambda c: key[c])
    stop = threading.Event()
    lock = threading.Lock()
    tot = dict(evals=0, nontriv=0, inconclusive=0, notrun=0)
    sigs, samples, stats, per = set(), [], {}, {f: 0 for f in flavours}
    findings, suppressed, errors = [], {}, []

    def work(c):
        f, a, b = c
        while a < b and not stop.is_set():
            if time.time() > deadline:
                with lock:
                    tot["notrun"] += b - a
                return
            lim = (30 if prop == "C24" else 50) if f != "vg" else 120
            r = run_chunk(d, binary, f, prop, seed, a, b, lim, max(30, deadline + 40 - time.time()))
            last = a
            with lock:
                for (n, nt, sig, sample) in r.ends:
                    tot["evals"] += 1
                    per[f] += 1
                    last = n + 1
                    if nt:
                        tot["nontriv"] += 1
                        if sig not in sigs:
                            sigs.add(sig)
                            if len(samples) < 6 and len(sigs) % 7 == 1:
                                samples.append({"flavour": f, "case": n, "what": sample})
                for k, v in r.stats.items():
                    stats[k] = stats.get(k, 0) + v
            if r.done or stop.is_set() and not r.finding:
                return
            if r.killed:
                if time.time() > deadline:
                    with lock:
                        tot["notrun"] += b - last
                    return
                r2 = run_chunk(d, binary, f, prop, seed, last, last + 1, lim, 300)
                if r2.finding:
                    r.finding = r2.finding
                elif stop.is_set():
                    return
                elif not r2.done and not r2.hang:
                    with lock:
                        errors.append("case %d (%s) died: %s" % (last, f, r2.err[-500:]))
                    stop.set()
                    return
                else:
                    a = last + 1 if r2.done else last
                    if r2.done:
                        with lock:
                            tot["evals"] += 1
                    if not r2.hang:
                        continue
                    r.hang = r2.hang
            if r.hang and not r.finding:
                cur = r.hang[0]
                r2 = run_chunk(d, binary, f, prop, seed, cur, cur + 1, 4*lim, 700)
                if r2.hang:
                    r.finding = Finding(f, cur, cur, "hang", re.sub(r"case=\d+ ", "", r2.hang[1]) + " (%d s of CPU time)" % (4*lim), [])
                elif r2.finding:
                    r.finding = r2.finding
                else:
                    with lock:
                        tot["inconclusive"] += 1
                    a = cur + 1
                    continue
            fi = r.finding
            for rx, what in known:
                if rx.search(fi.key()):
                    with lock:
                        suppressed[what] = suppressed.get(what, 0) + 1
                    break
            else:
                with lock:
                    findings.append(fi)
                stop.set()
                for p in list(RUNNING):    # the first finding decides
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                return
            a = fi.case + 1

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for fut in [ex.submit(work, c) for c in chunks]:
            fut.result()

    for rx, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["evals"],
            "distinct_nontrivial": len(sigs),
            "rule": "Each evaluation is one generated history against the real library, every step judged by the reference model. "
                    "Counted as distinct and non-trivial: different signature of the operations and functions seen, and the property-specific event occurred (see DESIGN.md, 'non-trivial').",
            "samples": samples or ["none"],
            "evaluations_per_build": per,
            "nontrivial_evaluations": tot["nontriv"],
            "events": dict(sorted(stats.items())),
            "cases_not_run_deadline": tot["notrun"],
            "cases_inconclusive": tot["inconclusive"],
            "build_s": round(tbuild, 1),
        },
        "wall_s": round(time.time() - T0, 1),
        "violations": len(findings),
        "assumptions": [
            "functions are compared as truth tables over at most 10 variables (further variables exist without being in the support, except for C08's and C17's large diagrams and C24's functions given by tables over counts)",
            "documented preconditions are respected by the workloads, see DESIGN.md",
            "observation hooks in src/calVerif.c only read, except CalVerifScribbleFreeNodes, which writes memory of free nodes",
        ],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1)
        fo.write("\n")
    log("%s %s seed=%d: %d evaluations %s, %d distinct non-trivial, %.0f s (build %.0f s)" % (prop, tier, seed, tot["evals"], per, len(sigs), time.time() - T0, tbuild))
    if findings:
        findings.sort(key=lambda f: f.case)
        fi = findings[0]
        # does it happen on its own?
        alone = Chunk()
        if fi.kind == "hang":
            alone.hang = True    # was met again on its own
        else:
            alone = run_chunk(d, binary, fi.flavour, prop, seed, fi.case, fi.case + 1, 240, 200)
        start = fi.case if (alone.finding or alone.hang) else fi.start
        rd = os.path.join(HERE, "work", "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%s-%d-%d.json" % (prop, fi.flavour, seed, fi.case))
        json.dump({"property": prop, "flavour": fi.flavour, "seed": seed, "from": start, "to": fi.case + 1, "kind": fi.kind, "message": fi.msg,
                   "reproduced_alone": bool(alone.finding or alone.hang), "trace": fi.detail[-200:],
                   "command": "python3 check.py --replay " + rp}, open(rp, "w"), indent=1)
        for t in fi.detail[-60:]:
            log("   ", t)
        print("case %d (%s): %s: %s" % (fi.case, fi.flavour, fi.kind, fi.msg))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errors:
        for e in errors:
            log("NO ANSWER:", e)
        return 2
    if not sigs:
        log("NO ANSWER: nothing was observed")
        return 2
    return 0


def replay(path):
    r = json.load(open(path))
    d = build([r["flavour"]], r["property"] == "C14")
    binary = "cppmon" if r["property"] == "C14" else "mon"
    cmd = command(d, binary, r["flavour"], r["property"], r["seed"], r["from"], r["to"], 600, True)
    print(" ".join(cmd), flush=True)
    p = subprocess.run(cmd, env=child_env(), preexec_fn=limits(r["flavour"]))
    return 0 if p.returncode == 0 else 1


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        build(["asan", "fast", "small", "vg"], False)
        if os.path.exists(HERE + "/src/cppmon.cpp"):
            build(["asan", "fast", "small"], True)
        return 0
    if a and a[0] == "--replay":
        return replay(a[1])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for i, x in enumerate(a):
        if x == "--tier":
            tier = a[i + 1]
        if x == "--seed":
            seed = int(a[i + 1])
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return check(prop, tier, seed)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
