#!/usr/bin/env python3
"""Driver: builds the harness from /repo's working tree, runs one property's monitors over a
fixed number of generated cases, attributes crashes/hangs to the case that caused them, matches
violations against known_findings.txt and writes evidence/<id>.json.

usage: check.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N] [--explore]
exit: 0 held / 1 violation (VIOLATION line) / 2 machinery failed or nothing was observed
"""
import json, os, re, subprocess, sys, time, shutil, tempfile, threading, queue, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import PLAN  # per-property budgets, modes, required observations

ASAN = ("abort_on_error=0:exitcode=66:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=0:"
        "max_malloc_fill_size=1048576:malloc_fill_byte=%d:handle_abort=1:detect_container_overflow=1:max_allocation_size_mb=2048:hard_rss_limit_mb=3500")
UBSAN = "print_stacktrace=1:halt_on_error=1:exitcode=67"
MEMCHECK = ["valgrind", "-q", "--error-exitcode=66", "--exit-on-first-error=yes", "--num-callers=20"]
TSAN = "halt_on_error=1:exitcode=68:report_signal_unsafe=0:second_deadlock_stack=0:history_size=4"


def build(mode):
    t = time.time()
    p = subprocess.run([os.path.join(HERE, "harness", "build.sh"), mode], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        print("ERROR: harness build (%s) failed" % mode)
        sys.exit(2)
    return os.path.join(os.environ.get("VERIF_BUILD", os.path.join(HERE, "build")), mode, "vh"), time.time() - t


def norm_frames(text):
    """key of a sanitizer report: kind plus the innermost repository function."""
    kind = "crash"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        kind = "asan-" + m.group(1)
    elif re.search(r"runtime error: (.*)", text):
        s = re.search(r"runtime error: (.*)", text).group(1)
        kind = "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|[0-9.+e-]+|'[^']*'", "", s.lower())).strip("-")[:40]
    elif "ThreadSanitizer: data race" in text:
        kind = "tsan-race"
    elif "ThreadSanitizer" in text:
        kind = "tsan"
    elif "terminate called" in text:
        m = re.search(r"instance of '([^']+)'", text)
        kind = "exception-" + (m.group(1) if m else "unknown")
    elif "Exit program on first error" in text:
        m = re.search(r"^==\d+== (Conditional jump|Use of uninitialised|Invalid read|Invalid write|Invalid free|Mismatched free|Syscall param|Source and destination|Argument|\S+ \S+)", text, re.M)
        kind = "memcheck-" + re.sub(r"[^a-z]+", "-", m.group(1).lower() if m else "error").strip("-")
        for m in re.finditer(r"^==\d+==\s+(?:at|by) 0x[0-9A-F]+: (\S.*?) \((\S+?):\d+\)$", text, re.M):
            if not m.group(2).startswith(("vh", "p_")) and re.search(r"sym_lib|HDAGG|amd|mm_|group", m.group(1)):
                return kind, re.sub(r"\(.*", "", m.group(1)).split("::")[-1]
    fn = ""
    for m in re.finditer(r"^\s*#\d+ (?:0x[0-9a-f]+ in )?(\S.*?) (/\S+:\d+)(?::\d+)?(?: .*)?$", text, re.M):
        if re.search(r"/(src|utils|include|example)/", m.group(2)) and "/libsanitizer/" not in m.group(2) and "/harness/" not in m.group(2):
            fn = re.sub(r"\(.*", "", m.group(1))
            break
    return kind, fn.split("::")[-1]


def asleep(pid):
    """(whether every thread of the process sleeps, CPU ticks used so far)"""
    ticks, all_s = 0, True
    for t in os.listdir("/proc/%d/task" % pid):
        f = open("/proc/%d/task/%s/stat" % (pid, t)).read().rsplit(")", 1)[1].split()
        all_s = all_s and f[0] == "S"
        ticks += int(f[11]) + int(f[12])
    return all_s, ticks


def run_worker(cmd, timeout, threads, **kw):
    """Exit code of the worker, or "deadlock" when all its threads slept for 40 looks in a row using no CPU worth mentioning."""
    p = subprocess.Popen(cmd, **kw)
    t0, quiet, base = time.time(), 0, 0
    try:
        while True:
            try:
                return p.wait(1 if threads else timeout)
            except subprocess.TimeoutExpired:
                if time.time() - t0 >= timeout:
                    raise
            try:
                s, ticks = asleep(p.pid)
            except (OSError, IndexError, ValueError):
                continue
            if s and quiet and ticks - base <= 10:
                quiet += 1
            else:
                quiet, base = (1 if s else 0), ticks
            if quiet >= 40:
                return "deadlock"
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()


class Run:
    def __init__(self, pid, plan, tier, seed, verbose=False):
        self.pid, self.plan, self.tier, self.seed = pid, plan, tier, seed
        self.recs, self.bad, self.inconclusive = {}, [], []
        self.lock = threading.Lock()
        self.stop = False
        self.t0 = time.time()
        self.found = False  # a violation that is not a known finding was seen
        self.broken = []    # failures of the machinery itself
        self.kf = [k for p, k, d in known() if p == pid]
        self.work = tempfile.mkdtemp(prefix="vh_%s_" % pid)

    def env(self, fill, extra=None):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = ASAN % fill
        e["UBSAN_OPTIONS"] = UBSAN
        e["TSAN_OPTIONS"] = TSAN
        e["LC_ALL"] = "C"
        if extra:
            e.update(extra)
        return e

    def is_known(self, key):
        return any(re.fullmatch(k, key) for k in self.kf)

    def late(self):  # enough was found and it takes long: report it
        return self.found and time.time() - self.t0 > (150 if self.tier == "quick" else 1800)

    def chunk(self, vh, sub, mode, a, b, tid, env, wrap=(), slow=False):
        cpu = self.plan.get("cpu", 30) * (4 if wrap else 1)
        if slow:
            cpu = 400 if wrap else max(180, 2 * cpu)
        n_restart = 0
        while a < b:
            log = os.path.join(self.work, "log.%s.%d" % (tid, a))
            err = os.path.join(self.work, "err.%s.%d" % (tid, a))
            wd = os.path.join(self.work, "w.%s" % tid)
            os.makedirs(wd, exist_ok=True)
            for f in (log, err):
                if os.path.exists(f):
                    os.unlink(f)
            with open(err, "wb") as ef:
                try:
                    p = run_worker([*wrap, vh, sub, "--seed", str(self.seed), "--from", str(a), "--to", str(b), "--tier", self.tier,
                                        "--log", log, "--work", wd, "--cpu", str(cpu)], stdout=subprocess.DEVNULL, stderr=ef,
                                   stdin=subprocess.DEVNULL, env=env, cwd=wd, timeout=3000, threads=mode in ("omp", "tsan", "mt"))
                    rc = p
                except subprocess.TimeoutExpired:
                    rc = "timeout"
            cur, stage, done, hang = None, "", False, False
            if os.path.exists(log):
                for line in open(log, errors="replace"):
                    if line.startswith("B "):
                        cur = int(line[2:])
                        stage = ""
                    elif line.startswith("S "):
                        stage = line[2:].strip()
                    elif line.startswith("H"):
                        hang = True
                    elif line.startswith("DONE"):
                        done = True
                    elif line.startswith("E "):
                        try:
                            r = json.loads(line[2:])
                        except Exception:
                            continue
                        with self.lock:
                            self.recs[(sub, mode, r["i"])] = r
                            if any(not self.is_known(k) for k, m in r["v"]):
                                self.found = True
                        cur = None
            text = open(err, errors="replace").read()
            for f in (log, err):
                try:
                    os.unlink(f)
                except OSError:
                    pass
            if done:
                return
            if cur is not None and rc == "deadlock":  # all threads asleep for good: no second try, it may depend on the order
                with self.lock:
                    self.bad.append(dict(sub=sub, mode=mode, i=cur, key="%s:deadlock" % (stage or "case"), msg="every thread waits for another one in %s" % stage, hang=True))
                    self.found = self.stop = True
                return
            if cur is None or rc == "timeout":
                with self.lock:
                    self.inconclusive.append("%s/%s chunk %d-%d rc=%s %s" % (sub, mode, a, b, rc, text[-300:]))
                return
            if hang and self.found:  # there is a violation to report already
                self.stop = True
                return
            if hang and not slow:  # not believed before the case has had much more time
                self.chunk(vh, sub, mode, cur, cur + 1, tid + "_re", env, wrap, slow=True)
                with self.lock:
                    if any(x["hang"] for x in self.bad):
                        self.stop = True
                if self.stop:
                    return
                a = cur + 1
                continue
            if hang:
                key = "%s:hang" % (stage or "case")
                msg = "no termination within %d s CPU in %s" % (cpu, stage)
            else:
                kind, fn = norm_frames(text)
                key = "%s:%s%s" % (stage or "case", kind, "@" + fn if fn else "")
                msg = text[:3000]
            with self.lock:
                self.bad.append(dict(sub=sub, mode=mode, i=cur, key=key, msg=msg, hang=hang))
                nbad = len(self.bad)
                if not self.is_known(key):
                    self.found = True
            a = cur + 1
            n_restart += 1
            if n_restart > 40 or nbad > 60 or self.late():
                self.stop = True
                return

    def run(self, vh, sub, mode, cases, offset=0, env_extra=None, jobs=8, wrap=()):
        csz = max(1, min(200, (cases + jobs * 4 - 1) // (jobs * 4)))
        q = queue.Queue()
        k = offset
        while k < offset + cases:
            q.put((k, min(k + csz, offset + cases)))
            k += csz
        fills = [0xbe, 0x00, 0x7f, 0xff]

        def worker(t):
            while not self.stop and not self.late():
                try:
                    a, b = q.get_nowait()
                except queue.Empty:
                    return
                env = self.env(fills[(a // csz) % 4], env_extra)
                for again in range(3):
                    try:
                        self.chunk(vh, sub, mode, a, b, "%s_%s_%d" % (sub, mode, t), env, wrap)
                        break
                    except Exception as e:
                        err = e
                        time.sleep(3)
                else:
                    e = err
                    self.broken.append("%s %s cases %d to %d: %r" % (sub, mode, a, b, e))
                    self.stop = True
        th = [threading.Thread(target=worker, args=(t,)) for t in range(jobs)]
        [t.start() for t in th]
        [t.join() for t in th]

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def known():
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            line = line.rstrip("\n")
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


def main():
    av = sys.argv[1:]
    pid = av[0]
    opt = lambda k, d=None: av[av.index(k) + 1] if k in av else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
    explore = "--explore" in av
    plan = PLAN[pid]
    t0 = time.time()
    replay = opt("--replay")
    if replay:
        r = json.load(open(replay))
        vh, _ = build(r["mode"].split("+")[0])
        R = Run(pid, plan, r["tier"], r["seed"])
        rc = run_worker([*(MEMCHECK if "+" in r["mode"] else ()), vh, r["sub"], "--seed", str(r["seed"]), "--from", str(r["case"]), "--to", str(r["case"] + 1), "--tier", r["tier"],
                         "--work", R.work, "--verbose"], 3000, r["mode"] in ("omp", "tsan", "mt"), env=R.env(0xbe, r.get("env")), stdout=subprocess.DEVNULL, cwd=R.work)
        R.close()
        print("replay exit", rc)
        return 0
    R = Run(pid, plan, tier, seed)
    runs = []
    try:
        for step in plan["steps"]:
            vh, bt = build(step["mode"])
            n = int(opt("--cases", step[tier]))
            ts = time.time()
            mode = step["mode"] + ("+memcheck" if step.get("memcheck") else "")
            R.run(vh, step["sub"], mode, n, offset=step.get("offset", 0), env_extra=step.get("env"), jobs=step.get("jobs", 8), wrap=MEMCHECK if step.get("memcheck") else ())
            runs.append(dict(sub=step["sub"], mode=mode, cases=n, build_s=round(bt, 1), run_s=round(time.time() - ts, 1)))
    finally:
        R.close()
    if R.broken and not R.found:  # the machinery itself failed: no verdict
        print("\n".join(R.broken[:5]))
        print("%s: no answer, the cases could not be run" % pid)
        return 2
    # ---- collect violations
    viol = {}
    for b in R.bad:
        viol.setdefault(b["key"], []).append((b["sub"], b["mode"], b["i"], b["msg"], ""))
    for (sub, mode, i), r in sorted(R.recs.items()):
        for k, m in r["v"]:
            viol.setdefault(k, []).append((sub, mode, i, m, r.get("d", "")))
    kf = [(k, d) for p, k, d in known() if p == pid]
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    bad_keys, known_seen = [], {}
    for key, lst in sorted(viol.items()):
        m = [d for k, d in kf if re.fullmatch(k, key)]
        if m:
            known_seen[key] = (m[0], len(lst))
            continue
        sub, mode, i, msg, desc = lst[0]
        rp = os.path.join(rdir, "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:80]))
        json.dump(dict(property=pid, sub=sub, mode=mode, tier=tier, seed=seed, case=i, key=key, message=msg, input=desc,
                       occurrences=len(lst), env=next((s.get("env") for s in plan["steps"] if s["sub"] == sub and mode.startswith(s["mode"]) and bool(s.get("memcheck")) == ("+" in mode)), None), replay="python3 check.py %s --replay %s" % (pid, rp)), open(rp, "w"), indent=1)
        bad_keys.append((key, rp, len(lst), msg, sub, mode, i))
    cnt = {}
    hashes, nt = set(), set()
    for key, r in R.recs.items():
        hashes.add((key[0], r["h"]))
        if r["nt"]:
            nt.add((key[0], r["h"]))
        for k, v in r["c"].items():
            cnt[k] = cnt.get(k, 0) + v
    samples = [dict(case="%s/%s/%d" % k, input=r["d"][:1500]) for k, r in sorted(R.recs.items()) if r.get("d")][:3]
    total = sum(s["cases"] for s in runs)
    for key, (d, n) in sorted(known_seen.items()):
        print("KNOWN-FINDING: property=%s %s [%s, %d cases]" % (pid, d, key, n))
    short = [k for k in plan.get("require", []) if cnt.get(k, 0) <= 0]
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=len(R.recs) + len(R.bad), distinct_nontrivial=len(nt), rule=plan["rule"], samples=samples,
                            distinct_cases=len(hashes), observed={k: v for k, v in sorted(cnt.items())}, runs=runs,
                            known_findings_seen=sorted(known_seen), inconclusive=R.inconclusive[:20], exhaustive=False),
              assumptions=plan.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(bad_keys))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases (%d distinct non-trivial), %d violations, %d inconclusive, %.1fs" %
          (pid, tier, seed, ev["coverage"]["evaluations"], len(nt), len(bad_keys), len(R.inconclusive), time.time() - t0))
    if explore:
        for key, rp, n, msg, sub, mode, i in bad_keys:
            print("  %-60s x%d first %s/%s/%d: %s" % (key, n, sub, mode, i, msg[:200].replace("\n", " ")))
        for k, v in sorted(cnt.items()):
            print("   ", k, v)
    if bad_keys:
        for key, rp, n, msg, *_ in bad_keys[:10]:
            print("  %s (%d cases): %s" % (key, n, msg[:300].replace("\n", " | ")))
        for key, rp, *_ in bad_keys[:10]:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if short or len(R.recs) == 0 or R.inconclusive:
        print("ERROR: inconclusive (%s) missing observations %s" % ("; ".join(R.inconclusive[:3]), short))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
