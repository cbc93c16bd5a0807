#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] | --setup

Decides one property by running the real code, built from /repo's working tree, under the monitors of /verif/harness.
Exit 0: held on everything observed.  Exit 1 + "VIOLATION property=ID replay=PATH": violated.  Exit 2: no answer."""
import argparse, array, collections, concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build                                   # noqa: E402
from plan import PLAN, RULES                   # noqa: E402

T0 = time.time()
NPROC = max(1, min(8, os.cpu_count() or 1))
SANENV = {
    "ASAN_OPTIONS": "exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:strict_string_checks=1:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1",
}


class Run:
    """one process: a component in a configuration, a mode, a range of cases"""
    def __init__(self, comp, cfg, mode, start=0, count=1, arg=None, mem=0.3, trace=False, wd=None, stack=None, thorough=False, sub=None):
        self.sub = sub
        self.comp, self.cfg, self.mode, self.start, self.count, self.arg = comp, cfg, mode, start, count, arg
        self.mem, self.trace, self.wd, self.stack, self.thorough = mem, trace, wd, stack, thorough
        self.dict = None
        self.viols, self.stat, self.inconclusive, self.err, self.secs, self.tracefile, self.done = [], None, [], None, 0, None, False

    def name(self):
        return "%s/%s/%s[%d+%d]" % (self.comp, self.cfg, self.mode + ("+" + self.sub if self.sub else ""), self.start, self.count)


def command(b, r, seed, only=None, log=None, wd=None):
    fam = build.CFG[r.cfg][2]
    cmd = [b.exe(r.comp, r.cfg), "--seed", str(seed), "--mode", r.mode, "--start", str(r.start), "--count", str(r.count)]
    if only is not None:
        cmd += ["--only", str(only)]
    if r.sub:
        cmd += ["--sub", r.sub]
    if r.arg is not None:
        cmd += ["--arg", str(r.arg)]
    if r.thorough:
        cmd += ["--thorough"]
    if r.cfg == "O3" or fam == "arm":
        cmd += ["--aligned"]
    if r.dict:
        cmd += ["--dict", r.dict]
    if r.tracefile:
        cmd += ["--trace", r.tracefile]
    cmd += ["--watchdog", str(wd or r.wd or {"plain": 60, "arm": 200, "asan": 200, "tsan": 300, "vg": 600}[fam])]
    if fam == "vg":
        cmd = ["valgrind", "-q", "--error-exitcode=0", "--track-origins=no", "--leak-check=no", "--num-callers=12", "--log-file=" + log, "--main-stacksize=33554432", "--max-stackframe=16777216"] + cmd
    elif fam == "tsan":
        cmd = ["setarch", "-R"] + cmd
    elif fam == "arm":
        cmd = ["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"] + cmd
    return cmd


def limits(r):
    def f():
        import resource
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if r.stack:
            resource.setrlimit(resource.RLIMIT_STACK, (r.stack, r.stack))
    return f


SANLINE = re.compile(r"(runtime error: .*|ERROR: AddressSanitizer: \S+.*|WARNING: ThreadSanitizer: .*|ERROR: ThreadSanitizer: .*|AddressSanitizer:DEADLYSIGNAL)")


def san_key(err):
    """a stable name for a sanitizer report: its kind and the innermost function of the code under test"""
    m = re.search(r"runtime error: ([a-z -]+)", err)
    if m:
        kind = "ubsan-" + re.sub(r"[^a-z]+", "-", m.group(1).strip())[:40].strip("-")
    else:
        m = re.search(r"(Address|Thread)Sanitizer: ([A-Za-z-]+(?: race)?)", err)
        kind = (m.group(1)[0].lower() + "san-" + m.group(2).replace(" ", "-")) if m else "sanitizer"
    m = re.search(r"#\d+ (?:0x[0-9a-f]+ in )?(\w+)[^\n]* " + re.escape(build.REPO), err)
    return "san:%s%s" % (kind, ":" + m.group(1) if m else "")


def execute(b, r, seed, tmp, until, only=None, wd=None):
    """-> (rc, stderr, valgrind log); until() is the time to stop at, which may move closer while the process runs"""
    log = os.path.join(tmp, "vg.%d.%d" % (os.getpid(), threading.get_ident() % 100000007)) if build.CFG[r.cfg][2] == "vg" else None
    env = dict(os.environ, **SANENV)
    least = time.time() + 5
    p = subprocess.Popen(command(b, r, seed, only, log, wd), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=tmp, preexec_fn=limits(r))
    while True:
        try:
            err = p.communicate(timeout=max(0.1, min(5, max(least, until()) - time.time())))[1]
            break
        except subprocess.TimeoutExpired:
            if time.time() >= max(least, until()):
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                return "deadline", "", ""
    v = ""
    if log and os.path.exists(log):
        v = open(log, errors="replace").read()
        os.unlink(log)
    return p.returncode, err.decode(errors="replace"), v


def parse(r, rc, err, vlog):
    """-> (events, crash)   events: (key, idx, desc, msg);  crash: (key, idx, desc, msg) or None"""
    ev, crash = [], None
    for line in err.split("\n"):
        if line.startswith("@VIOL\t"):
            f = line.split("\t", 4)
            if len(f) == 5:
                ev.append((f[1], int(f[2]), f[3], f[4]))
        elif line.startswith("@STAT\t"):
            st = json.loads(line[6:])
            if r.stat is None:
                r.stat = st
            else:   # several processes spoke (key generation children): keep the one that did the work, the last
                r.stat = st
        elif line.startswith("@HERR\t"):
            r.err = line[6:]
        elif line.startswith("@CRASH\t"):
            f = (line + "\t\t\t").split("\t")
            crash = ("hang" if f[1] == "CPU-LIMIT" else "san" if f[1] == "sanitizer" else "crash:" + f[1], int(f[2] or -1), f[3], "")
    rep = SANLINE.search(err)
    if rep:
        i = rep.start()
        crash = (san_key(err[i:]), crash[1] if crash else -1, crash[2] if crash else "", err[i:i + 1500].strip())
    elif crash and crash[0] == "san":
        crash = ("san:report", crash[1], crash[2], err[-1500:])
    elif rc == "deadline":
        pass
    elif crash is None and isinstance(rc, int) and rc < 0:
        crash = ("crash:signal%d" % -rc, -1, "", err[-300:])
    if vlog:
        cur = []
        for line in vlog.split("\n"):
            m = re.search(r"@ERRCASE\t(-?\d+)\t(.*)", line)
            if m:
                txt = "\n".join(cur)
                if "ninitialised" in txt:
                    # only where the code under test (or something it called) is on the stack before the driver
                    fn = [f for f in re.findall(r"(?:at|by) 0x[0-9A-F]+: (\w+)", txt)]
                    ev.append(("undef:memcheck" + (":" + fn[0] if fn else ""), int(m.group(1)), m.group(2)[:1000], txt[:1500]))
                elif re.search(r"Invalid (read|write)|Source and destination|Argument .* fishy|Mismatched|Invalid free", txt):
                    ev.append(("memcheck:" + re.search(r"(Invalid \w+|Source and dest|fishy|Mismatched)", txt).group(1).replace(" ", "-"), int(m.group(1)), m.group(2)[:1000], txt[:1500]))
                cur = []
            else:
                cur.append(re.sub(r"^(==\d+==|\*\*\d+\*\*) ?", "", line))
    return ev, crash


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.spec = PLAN[pid]
        self.deadline = T0 + (780 if tier == "quick" else 3300)
        self.dicts, self.found_constants, self.edges = {}, {}, {}
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.lock = threading.Condition()
        self.mem_used, self.mem_max = 0.0, 20.0
        self.found = []           # (run, key, idx, desc, msg)
        self.notes = []
        self.hung = False         # a confirmed hang: the other runs would only burn their limits too

    def accepts(self, key):
        return any(key.startswith(p) for p in self.spec["accept"])

    def go(self, r):
        """run one process to the end of its range, past crashes that are not this property's business"""
        with self.lock:
            while self.mem_used and self.mem_used + r.mem > self.mem_max:
                self.lock.wait()
            self.mem_used += r.mem
        t = time.time()
        try:
            self.go2(r)
        except Exception as e:
            r.err = "%s: %s" % (type(e).__name__, e)
        finally:
            if any((r.comp, v[0]) not in [l[:2] for l in self.listed()] for v in r.viols):
                # the verdict is clear: the other runs get a little longer to add to it
                self.deadline = min(self.deadline, time.time() + (60 if self.tier == "quick" else 300))
            r.secs = time.time() - t
            with self.lock:
                self.mem_used -= r.mem
                self.lock.notify_all()

    def go2(self, r):
        end, crashes = r.start + r.count, 0
        if r.trace:
            r.tracefile = os.path.join(self.tmp, "tr.%s.%s.%s.%s.%d" % (r.comp, r.cfg, r.mode, r.sub, r.start))
        stats = []
        while r.start < end and crashes < 6:
            if time.time() > self.deadline:
                r.inconclusive.append("not started: out of time")
                return
            if self.hung:
                r.inconclusive.append("not started: another run hangs")
                return
            r.count = end - r.start
            r.stat = None
            rc, err, vlog = execute(self.b, r, self.seed, self.tmp, lambda: self.deadline)
            if rc == "deadline":
                r.inconclusive.append("stopped: out of time")
                return
            ev, crash = parse(r, rc, err, vlog)
            for e in ev:
                if self.accepts(e[0]):
                    r.viols.append(e)
            if r.err:
                return
            if crash is None:
                if r.stat is None:
                    # rerun once before giving up (a killed process, for instance)
                    rc, err, vlog = execute(self.b, r, self.seed, self.tmp, lambda: self.deadline)
                    ev, crash = parse(r, rc, err, vlog)
                    if r.stat is None and crash is None:
                        r.err = "%s ended with %s and no summary: %s" % (r.name(), rc, err[-400:])
                        return
                if crash is None:
                    stats.append(r.stat)
                    break
            key, idx, desc, msg = crash
            if key == "hang":
                rc, err, vlog = execute(self.b, r, self.seed, self.tmp, lambda: self.deadline, only=idx, wd=max(30, min(2 * (r.wd or 60), int(self.deadline - time.time()) - 30)))
                _, again = parse(r, rc, err, vlog)
                if again is None or again[0] != "hang":
                    r.inconclusive.append("case %d hit the CPU limit once" % idx)
                    crash = None
            if crash is not None:
                if self.accepts(key) or (key.split(":")[0] in ("crash", "hang", "san") and self.spec.get("crash", True)):
                    self.hung = self.hung or key == "hang"
                    r.viols.append((key, idx, desc, msg or "the library call %s" % ("did not return within the CPU limit" if key == "hang" else "crashed with " + key)))
                    break
                r.inconclusive.append("case %d: %s" % (idx, key))
            crashes += 1
            if idx < r.start or r.tracefile:
                break
            r.start = idx + 1
        r.stat = stats[-1] if stats else None
        r.done = True

    # ---------------------------------------------------------------- builds agree
    def compare(self, runs):
        groups, n, pairs = collections.defaultdict(dict), 0, collections.Counter()
        for r in runs:
            if r.trace and r.tracefile and os.path.exists(r.tracefile):
                g = self.spec["groups"].get(r.comp, r.comp)
                lines = [l.rstrip("\n").split(" ", 3) for l in open(r.tracefile, errors="replace")]
                groups[(g, r.mode, r.sub, r.start)][(r.comp, r.cfg)] = (r, lines)
        seen = set()
        for (g, _mode, _sub, start), m in groups.items():
            keys = sorted(m)
            base = keys[0]
            # majority digest per case decides which build is named as the odd one
            for i in range(max(len(v[1]) for v in m.values())):
                vals = {k: (tuple(v[1][i][:3]) if i < len(v[1]) else None) for k, v in m.items()}
                have = {k: v for k, v in vals.items() if v is not None}
                if len(have) < 2:
                    continue
                n += len(have) - 1
                seen.add((g,) + next(iter(have.values())))
                pairs[g] += len(have) - 1
                if len(set(have.values())) > 1:
                    top = collections.Counter(have.values()).most_common(1)[0][0]
                    odd = [k for k in keys if k in have and have[k] != top]
                    same = [k for k in keys if k in have and have[k] == top]
                    r, lines = m[odd[0]]
                    desc = lines[i][3] if len(lines[i]) > 3 else ""
                    self.found.append((r, "build:%s" % odd[0][0], int(lines[i][0]), desc,
                                       "the same calls give other outputs in %s than in %s" % (", ".join("/".join(k) for k in odd), ", ".join("/".join(k) for k in same))))
                    break
            _ = base
        return n, len(seen), pairs

    # ---------------------------------------------------------------- constants of the code
    def harvest(self, runs):
        """A first, short pass in the configuration that reports every constant the code compares with; the workloads of
        the other runs then also draw lengths, words and bytes from these.  One list per driver: sessions have to be the
        same in all builds that are compared.  Missing it costs reach, never a verdict."""
        jobs = collections.OrderedDict()
        for r in runs:
            if not build.C[r.comp].arm and r.comp not in self.b.dropped:
                for m in (r.mode, r.sub):
                    if m and m not in ("window", "windows", "large", "edge", "long", "many", "leak", "thr", "inter", "det", "quiet", "trace"):
                        jobs.setdefault((r.comp, m), r)
                jobs.setdefault((r.comp, "conf"), r)
        self.found_constants, self.edges = collections.defaultdict(set), {}

        def one(job):
            comp, mode = job
            if not self.b.exe(comp, "cmp"):
                return
            out = os.path.join(self.tmp, "cmp.%s.%s" % (comp, mode))
            cmd = [self.b.exe(comp, "cmp"), "--seed", str(self.seed), "--mode", mode, "--count", "40", "--watchdog", "20", "--dictout", out]
            if self.dicts.get(build.C[comp].driver):
                cmd += ["--dict", self.dicts[build.C[comp].driver]]
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=self.tmp, preexec_fn=limits(jobs[job]))
            try:
                p.wait(timeout=8)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            if os.path.exists(out) and os.path.getsize(out):
                v = array.array("Q", open(out, "rb").read())
                self.found_constants[build.C[comp].driver].update(v[2:])
                e = self.edges.setdefault(comp, [0, 0])
                e[0], e[1] = v[0], max(e[1], v[1])
                os.unlink(out)

        for _ in range(2):
            with cf.ThreadPoolExecutor(NPROC) as pool:
                list(pool.map(one, jobs))
            for d, s in self.found_constants.items():
                self.dicts[d] = self.dictfile(d, s)
        for r in runs:
            r.dict = self.dicts.get(build.C[r.comp].driver)

    def dictfile(self, d, s):
        # values that any code compares with (small numbers, powers of two) once, the others more often
        vals = []
        for v in sorted(x for x in s if x > 1)[:300]:
            vals += [v] * (1 if v < 65 or v & (v - 1) == 0 or v > 1 << 60 else 4)
        if not vals:
            return None
        path = os.path.join(self.tmp, "dict." + d)
        with open(path, "w") as f:
            f.write("\n".join(map(str, vals)) + "\n")
        return path

    # ---------------------------------------------------------------- everything
    def main(self):
        runs = []
        for j in self.spec["jobs"](self.tier == "thorough"):
            r = Run(**j)
            if r.wd and self.tier == "quick":
                r.wd = min(r.wd, 240)          # leaves room to confirm a hang within the deadline
            runs.append(r)
        self.b = build.Builder(self.tmp, NPROC)
        for r in runs:
            self.b.request(r.comp, r.cfg)
            if not build.C[r.comp].arm:
                self.b.request(r.comp, "cmp")
        tb = time.time()
        self.b.finish()
        tb = time.time() - tb
        self.harvest(runs)
        if self.b.core_only:
            runs = [r for r in runs if not (r.comp in self.b.core_only and r.mode in ("helpers",))]
            self.notes.append("built without optional helper calls: " + ", ".join(sorted(self.b.core_only)))
        if self.b.dropped:
            runs = [r for r in runs if r.comp not in self.b.dropped]
            self.notes.append("did not build and was left out: " + ", ".join(sorted(self.b.dropped)))
        order = sorted(runs, key=lambda r: (-r.mem, -(r.wd or 0)))
        with cf.ThreadPoolExecutor(NPROC) as pool:
            list(pool.map(self.go, order))
        errs = [r for r in runs if r.err]
        for r in runs:
            for v in r.viols:
                self.found.append((r,) + tuple(v))
        cmpn = None
        if self.spec.get("groups") is not None:
            cmpn = self.compare(runs)
        known, new = self.match()
        self.evidence(runs, tb, known, new, cmpn)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if new:
            self.report(new)
            return 1
        if errs:
            for r in errs[:5]:
                print("ERROR: %s: %s" % (r.name(), r.err), file=sys.stderr)
            return 2
        bad = self.gaps(runs)
        if bad:
            print("ERROR: nothing observed for " + ", ".join(bad), file=sys.stderr)
            return 2
        tot = sum((r.stat or {}).get("evaluations", 0) for r in runs)
        print("OK property=%s: %d evaluations in %d processes, %.1f s" % (self.pid, tot + (cmpn[0] if cmpn else 0), len(runs), time.time() - T0))
        return 0

    def gaps(self, runs):
        """components for which no run observed anything"""
        seen, want = set(), set()
        for r in runs:
            want.add(r.comp)
            if r.stat and r.stat["evaluations"] > 0:
                seen.add(r.comp)
            elif r.inconclusive and r.stat is None and all("out of time" not in x for x in r.inconclusive):
                pass
        return sorted(want - seen)

    def listed(self):
        lines = []
        p = os.path.join(HERE, "known-findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"finding: property=(\S+) component=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == self.pid:
                    lines.append(m.groups()[1:])
        return lines

    def match(self):
        known, new, seen = [], [], set()
        lines = self.listed()
        for f in self.found:
            r, key = f[0], f[1]
            hit = [l for l in lines if l[0] == r.comp and l[1] == key]
            if hit:
                if hit[0] not in seen:
                    seen.add(hit[0])
                    known.append("%s (component %s, %s)" % (hit[0][2].strip(), hit[0][0], key))
            else:
                new.append(f)
        return known, new

    def report(self, new):
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        done = set()
        for r, key, idx, desc, msg in new:
            sig = (r.comp, key)
            if sig in done:
                continue
            done.add(sig)
            if len(done) > 8:
                break
            name = re.sub(r"[^A-Za-z0-9_.-]+", "_", "%s-%s-%s-%s" % (self.pid, r.comp, r.cfg, key))[:120] + ".json"
            path = os.path.join(d, name)
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, component=r.comp, directory=build.C[r.comp].dir, config=r.cfg, flags=build.C[r.comp].flags, mode=r.mode, seed=self.seed, case=idx,
                               arg=r.arg, sub=r.sub, stack=r.stack, thorough=r.thorough, key=key, operations=desc, message=msg, constants=open(r.dict).read().split() if r.dict else [],
                               replay="python3 check.py %s --replay %s" % (self.pid, os.path.relpath(path, HERE))), f, indent=1)
            print("  %s/%s %s case %s: %s | %s" % (r.comp, r.cfg, key, idx, desc[:200], msg[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(path, HERE)))

    def evidence(self, runs, tb, known, new, cmpn):
        ev = sum((r.stat or {}).get("evaluations", 0) for r in runs)
        best = {}
        counters = collections.Counter()
        samples, comps, incon = [], collections.defaultdict(collections.Counter), []
        for r in runs:
            s = r.stat
            for x in r.inconclusive:
                incon.append(r.name() + ": " + x)
            if not s:
                continue
            k = (r.comp, r.mode, r.sub, r.start, r.arg)
            best[k] = max(best.get(k, 0), s["distinct"])
            for a, v in s["counters"].items():
                counters[a] += v
            comps[r.comp][r.cfg + ":" + r.mode + ("+" + r.sub if r.sub else "")] += s["evaluations"]
            for x in s["samples"][:1]:
                if len(samples) < 24 and r.comp + "|" + r.mode not in [z.split(": ", 1)[0] for z in samples]:
                    samples.append("%s|%s: %s" % (r.comp, r.mode, x[:300]))
        cov = dict(evaluations=ev, distinct_nontrivial=sum(best.values()), rule=RULES[self.pid], samples=samples or ["none"],
                   observed=dict(sorted(counters.items())), evaluations_per_component={c: dict(sorted(v.items())) for c, v in sorted(comps.items())},
                   processes=len(runs), processes_completed=sum(1 for r in runs if r.done), inconclusive=incon[:50], known_findings=known, notes=self.notes,
                   cpu_and_run_s=round(sum(r.secs for r in runs), 1), build_s=round(tb, 1))
        cov["constants_of_the_code_drawn_upon"] = {d: len(x) for d, x in sorted(self.found_constants.items())}
        cov["edges_reached_of_total_in_the_first_pass"] = {c: "%d/%d" % (e[1], e[0]) for c, e in sorted(self.edges.items())}
        if cmpn:
            cov["evaluations"], cov["distinct_nontrivial"] = cmpn[0], cmpn[1]
            cov["sessions_compared_per_group"] = dict(cmpn[2])
            cov["sessions_run"] = ev
        out = dict(property=self.pid, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                   assumptions=self.spec.get("assumptions", []), wall_s=round(time.time() - T0, 2), violations=len(new))
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(out, f, indent=1)

    def replay(self, path):
        w = json.load(open(path))
        r = Run(w["component"], w["config"], w["mode"], max(0, w["case"]), 1, w.get("arg"), sub=w.get("sub"), stack=w.get("stack"), thorough=w.get("thorough", False))
        self.seed = w["seed"]
        self.b = build.Builder(self.tmp, NPROC)
        if w.get("constants"):
            r.dict = os.path.join(self.tmp, "dict")
            with open(r.dict, "w") as f:
                f.write("\n".join(w["constants"]) + "\n")
        others = []
        if w["key"].startswith("build:"):
            g = self.spec["groups"].get(r.comp, r.comp)
            r.trace = True
            others = [Run(j["comp"], j["cfg"], r.mode, r.start, 1, trace=True, wd=600, sub=r.sub) for j in self.spec["jobs"](False) if j["mode"] == r.mode and j.get("sub") == r.sub and j.get("trace") and self.spec["groups"].get(j["comp"], j["comp"]) == g and (j["comp"], j["cfg"]) != (r.comp, r.cfg)]
        for x in [r] + others:
            x.dict = r.dict
            self.b.request(x.comp, x.cfg)
        self.b.finish()
        self.spec = dict(self.spec, accept=[""])
        for x in [r] + others:
            self.go(x)
        self.found = [(r,) + tuple(v) for v in r.viols]
        if others:
            self.compare([r] + others)
        for f in self.found:
            print("%s case %s: %s | %s" % f[1:])
        if any(f[1] == w["key"] for f in self.found):
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("not reproduced" if not r.err else "ERROR " + r.err)
        return 0 if not r.err else 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=None)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        for t in ("g++", "clang++", "aarch64-linux-gnu-g++", "qemu-aarch64", "valgrind", "setarch"):
            if not shutil.which(t):
                print("missing tool: " + t)
                return 1
        d = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            b = build.Builder(d, NPROC)
            b.request("hex", "O1")
            b.finish()
            return subprocess.run([b.exe("hex", "O1"), "--count", "5"], stderr=subprocess.DEVNULL).returncode
        finally:
            shutil.rmtree(d, ignore_errors=True)
    if a.id not in PLAN:
        print("unknown property", a.id, file=sys.stderr)
        return 2
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    c = Check(a.id, "thorough" if tier == "thorough" else "quick", int(os.environ.get("VERIF_SEED") or 1))
    try:
        return c.replay(a.replay) if a.replay else c.main()
    except build.BuildError as e:
        print("ERROR: " + str(e), file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
