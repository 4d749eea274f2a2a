#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: runs the monitored workloads of a property against /repo's working tree.

Exit 0: the property held on everything that was observed. Exit 1: it did not (a VIOLATION line names the replay file).
Exit 2: no verdict (the build failed, too little was observed, or a time-out could not be attributed).
check.py build: builds everything that the checks need.   check.py replay FILE: runs the case of a replay file again."""
import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
CORES = min(8, os.cpu_count() or 8)
sys.path.insert(0, os.path.join(HERE, "tools"))
from config import CONF, ASSUMPTIONS          # noqa: E402

CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}
CASE_CPU = 60       # Seconds of CPU time that a single case may take; they usually need milliseconds.
CASE_IDLE = 45      # Seconds that a single case may be blocked without using any CPU time.


class Inconclusive(Exception):
    pass


def errors_of(out):
    """The errors of a build, without its warnings."""
    blocks = [b for b in re.split(r"\n(?=\S)", "\n" + out) if b.lstrip().startswith("error")]
    return "\n".join(blocks)[:3000] + "\n...\n" + out[-1000:] if blocks else out[-4000:]


class BuildFailed(Exception):
    pass


# ------------------------------------------------------------------------------------------- builds

def repo_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(base, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()


BUILDS = {
    # name: (crate folder, target folder, toolchain args, extra args, environment, binary or None)
    "dev":     ("harness", TARGET, [], [], {}, "debug/harness"),
    "release": ("harness", TARGET, [], ["--release"], {}, "release/harness"),
    "asan":    ("harness", os.path.join(TARGET, "asan"), ["+nightly"], ["--target", "x86_64-unknown-linux-gnu"],
                {"RUSTFLAGS": "-Zsanitizer=address -Cforce-frame-pointers=yes"}, "x86_64-unknown-linux-gnu/debug/harness"),
    "asan-o":  ("harness", os.path.join(TARGET, "asan"), ["+nightly"], ["--release", "--target", "x86_64-unknown-linux-gnu"],
                {"RUSTFLAGS": "-Zsanitizer=address -Cforce-frame-pointers=yes"}, "x86_64-unknown-linux-gnu/release/harness"),
    "msan":    ("harness", os.path.join(TARGET, "msan"), ["+nightly"], ["-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"],
                {"RUSTFLAGS": "-Zsanitizer=memory -Zsanitizer-memory-track-origins"}, "x86_64-unknown-linux-gnu/debug/harness"),
    "tsan":    ("harness", os.path.join(TARGET, "tsan"), ["+nightly"], ["-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"],
                {"RUSTFLAGS": "-Zsanitizer=thread"}, "x86_64-unknown-linux-gnu/debug/harness"),
    "macros":  ("macros", os.path.join(TARGET, "macros"), [], [], {}, "debug/macros"),
    "miri":    ("miri", os.path.join(TARGET, "miri"), ["+nightly"], [], {}, None),
}


def run_build(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def miri_env():
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "miri")
    return env


SANITIZED = {
    "asan":   {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:halt_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=64"},
    "asan-o": {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:halt_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=64"},
    "msan":   {"MSAN_OPTIONS": "exit_code=99:halt_on_error=1:poison_in_free=1:allocator_may_return_null=1"},
    "tsan":   {"TSAN_OPTIONS": "exitcode=99:halt_on_error=1:second_deadlock_stack=1:allocator_may_return_null=1"},
}


def declarations(seed, variant, classes, scenes):
    """The random declarations for the macros' workload; the file is only written when it changes."""
    out = os.path.join(TARGET, "macros", f"declarations-{seed}-{variant}.rs")
    fresh = out + f".{os.getpid()}"
    subprocess.run([sys.executable, os.path.join(HERE, "tools", "gen_macros.py"), str(seed * 1000 + variant), str(classes), str(scenes), fresh], check=True)
    if os.path.exists(out) and open(out).read() == open(fresh).read():
        os.remove(fresh)
    else:
        os.replace(fresh, out)
    return out


def build(name, seed=1, opts=None):
    """Builds a workload from /repo's current tree and returns the path of its program."""
    crate, target, chain, extra, more, binary = BUILDS[name]
    cwd = os.path.join(HERE, crate)
    os.makedirs(target, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", **more)
    with open(os.path.join(TARGET, name + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(target, name + ".repo-hash")
        now = repo_hash()
        before = open(stamp).read() if os.path.exists(stamp) else None
        if name == "macros":
            env["MACROS_FILE"] = declarations(seed, (opts or {}).get("variant", 0), (opts or {}).get("classes", 100), (opts or {}).get("scenes", 80))
        sub = "build" if binary else "miri"
        if before is not None and before != now:
            # Never rely on modification times to notice that the library changed.
            os.remove(stamp)
            run_build(["cargo"] + chain + ["clean", "--offline", "-p", "node_tree", "-p", "node_tree_derive"] + extra, cwd, env)
        if binary:
            rc, out = run_build(["cargo"] + chain + [sub, "--offline"] + extra, cwd, env)
            if rc != 0:
                raise BuildFailed(errors_of(out))
        with open(stamp, "w") as f:
            f.write(now)
    return os.path.join(target, binary) if binary else None


# ------------------------------------------------------------------------------------------- workers

def limits(memory):
    def apply():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if memory:
            resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
    return apply


class Worker:
    def __init__(self, stage, cmd, out, progress, env, memory, scratch):
        self.stage, self.cmd, self.out, self.progress = stage, cmd, out, progress
        self.err = out + ".err"
        full = dict(os.environ, HARNESS_SCRATCH=scratch, RUST_BACKTRACE="0", **env)
        self.p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(self.err, "wb"), stdin=subprocess.DEVNULL,
                                  env=full, preexec_fn=limits(memory), cwd=scratch)

    def case(self):
        try:
            return int(open(self.progress).read())
        except (OSError, ValueError):
            return None

    def errors(self, n=6000):
        with open(self.err, "rb") as f:
            return f.read().decode("utf-8", "replace")[-n:]

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()


def cpu_seconds(pid):
    """CPU time used so far by a process that this script started."""
    try:
        fields = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return None


def isolate(prop, stage, cmd, case, work, env, memory, scale=1):
    """Runs one case alone. Returns (kind, text): ok, report, crash, busy, blocked or unclear."""
    out, prog = os.path.join(work, "alone.json"), os.path.join(work, "alone.progress")
    for f in (out, prog):
        if os.path.exists(f):
            os.remove(f)
    w = Worker(stage, cmd + ["--from", str(case), "--count", "1", "--out", out, "--progress", prog], out, prog, env, memory, scratch_of(work, "alone"))
    begin, last_cpu, last_change = time.time(), 0.0, time.time()
    while w.p.poll() is None:
        time.sleep(0.1)
        cpu = cpu_seconds(w.p.pid)
        if cpu is not None and cpu > last_cpu + 0.02:
            last_cpu, last_change = cpu, time.time()
        if last_cpu > CASE_CPU * scale:
            w.kill()
            return "busy", f"the case alone used more than {CASE_CPU * scale} s of CPU time without ending"
        if time.time() - last_change > CASE_IDLE * scale:
            w.kill()
            return "blocked", f"the case alone is blocked: it used no CPU time for {CASE_IDLE * scale} s"
        if time.time() - begin > 300:
            w.kill()
            return "unclear", "the case alone did not end in 300 s, without using much CPU time"
    rc = w.p.returncode
    if rc == 0 and os.path.exists(out):
        return "ok", json.load(open(out))
    if rc < 0 and -rc in CRASH or rc == 99:
        return "crash", crash_text(rc, w)
    return "unclear", f"exit {rc}: {w.errors()}"


def crash_text(rc, w):
    name = "a sanitizer report" if rc == 99 else signal.Signals(-rc).name
    return f"the workload crashed with {name}\n{w.errors()}"


def scratch_of(work, name):
    d = os.path.join(work, "scratch-" + name)
    os.makedirs(d, exist_ok=True)
    return d


def run_stage(prop, tier, seed, name, opts, work, deadline, result):
    """Runs the shards of a stage and adds what they observed to the result."""
    binary = build(name, seed, opts)
    env, memory, scale = {}, opts.get("memory", 4 << 30), 1
    if name in SANITIZED:
        env, memory, scale = SANITIZED[name], None, 4
    shards = opts.get("shards", CORES)
    total, secs = opts["count"], min(opts.get("secs", 60), max(5, deadline - time.time()))
    base = [binary, prop, "--seed", str(seed), "--tier", tier]
    begin = time.time()
    workers = []
    for i in range(shards):
        out = os.path.join(work, f"{name}-{i}.json")
        prog = os.path.join(work, f"{name}-{i}.progress")
        count = len(range(i, total, shards))
        if count == 0:
            continue
        cmd = base + ["--from", str(i), "--stride", str(shards), "--count", str(count), "--secs", str(int(secs)), "--out", out, "--progress", prog]
        workers.append(Worker(name, cmd, out, prog, env, memory, scratch_of(work, f"{name}-{i}")))
    alive, done = list(workers), []
    state = {w: (None, 0.0, time.time()) for w in workers}
    while alive:
        time.sleep(0.05)
        for w in list(alive):
            rc = w.p.poll()
            if rc is None:
                # A case that takes longer than 20 s of CPU time, or is idle for that long, is looked at on its own.
                case, (old, cpu0, t0) = w.case(), state[w]
                if case != old:
                    state[w] = (case, cpu_seconds(w.p.pid) or 0.0, time.time())
                elif time.time() - t0 > 40 * scale and case is not None:
                    w.kill()
                    alive.remove(w)
                    kind, text = isolate(prop, name, base, case, work, env, memory, scale)
                    if kind in ("busy", "blocked"):
                        result.violate([prop], name, case, "the workload does not end: " + text, "")
                        return [x.kill() for x in alive]
                    if kind == "crash":
                        result.violate([prop], name, case, text, "")
                        return [x.kill() for x in alive]
                    if kind == "ok":
                        result.add(name, text)
                        result.unclear.append(f"{name} case {case} was slow in its shard but not alone")
                    else:
                        result.unclear.append(f"{name} case {case}: {text}")
                continue
            alive.remove(w)
            done.append(w)
            if rc == 0 and os.path.exists(w.out):
                try:
                    result.add(name, json.load(open(w.out)))
                except ValueError as e:
                    result.unclear.append(f"{name}: unreadable report: {e}")
            elif rc < 0 and -rc in CRASH or rc == 99:
                case = w.case()
                text = crash_text(rc, w)
                if case is None:
                    result.unclear.append(f"{name}: {text}")
                else:
                    kind, again = isolate(prop, name, base, case, work, env, memory, scale)
                    note = "" if kind == "crash" else f" (alone: {kind})"
                    result.violate([prop], name, case, (again if kind == "crash" else text) + note, "")
                    return [x.kill() for x in alive]
            else:
                result.unclear.append(f"{name}: worker ended with {rc}: {w.errors(1500)}")
    result.stages.append(dict(stage=name, shards=len(workers), wall_s=round(time.time() - begin, 2)))


def run_miri(prop, tier, seed, opts, work, deadline, result):
    """Runs the small workload under Miri, which stops at the first undefined behaviour or data race."""
    build("miri")
    begin = time.time()
    env = miri_env()
    flags = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks"
    runs = []
    todo = [(mode, s) for mode in opts["modes"] for s in range(opts["seeds"])]
    # The first run builds; the others then only interpret.
    crate = os.path.join(HERE, "miri")
    rc, out = run_build(["cargo", "+nightly", "miri", "run", "--offline", "--", "noop", "0"], crate, dict(env, MIRIFLAGS=flags))
    if rc != 0:
        if "Undefined Behavior" in out or "Data race" in out:
            result.violate([prop], "miri", 0, out[-4000:], "")
            return
        raise BuildFailed(errors_of(out))
    while (todo or runs) and not result.violations:
        while todo and len(runs) < CORES and time.time() < deadline:
            mode, s = todo.pop(0)
            log = open(os.path.join(work, f"miri-{mode}-{s}.log"), "w+b")
            e = dict(env, MIRIFLAGS=f"{flags} -Zmiri-seed={seed * 1000 + s}")
            p = subprocess.Popen(["cargo", "+nightly", "miri", "run", "-q", "--offline", "--", mode, str(seed * 1000 + s)], cwd=crate, env=e,
                                 stdout=log, stderr=subprocess.STDOUT, preexec_fn=os.setsid)
            runs.append((p, mode, s, log, time.time()))
        if time.time() >= deadline:
            todo = []
        time.sleep(0.1)
        for r in list(runs):
            p, mode, s, log, t0 = r
            rc = p.poll()
            if rc is None:
                if time.time() - t0 > 400:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    runs.remove(r)
                    result.unclear.append(f"miri {mode} {s} did not end in 400 s")
                continue
            runs.remove(r)
            log.seek(0)
            text = log.read().decode("utf-8", "replace")
            if rc == 0 and "OBSERVED" in text:
                for line in text.splitlines():
                    if line.startswith("OBSERVED "):
                        result.add("miri", json.loads(line[9:]))
            elif "Undefined Behavior" in text or "Data race" in text or "MISMATCH" in text or "deadlock" in text:
                result.violate([prop], "miri", seed * 1000 + s, f"Miri, workload {mode}: " + text[:3500], "")
            elif "unsupported operation" in text:
                result.unclear.append(f"miri {mode} {s}: {text[-1500:]}")
            elif "panicked at" in text:
                result.violate([prop], "miri", seed * 1000 + s, f"Miri, workload {mode}: " + text[:3500], "")
            else:
                result.unclear.append(f"miri {mode} {s}: exit {rc}: {text[-1500:]}")
    for p, *_ in runs:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    result.stages.append(dict(stage="miri", wall_s=round(time.time() - begin, 2)))


# ------------------------------------------------------------------------------------------- results

class Result:
    def __init__(self, prop):
        self.prop = prop
        self.evaluations, self.distinct, self.counters, self.samples = 0, set(), {}, []
        self.violations, self.foreign, self.unclear, self.stages = [], 0, [], []

    def add(self, stage, report):
        self.evaluations += report["evaluations"]
        self.distinct.update(report["distinct"])
        for k, v in report["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.samples += report["samples"][:max(0, 3 - len(self.samples))]
        for v in report["violations"]:
            if self.prop in v["tags"]:
                self.violate(v["tags"], stage, v["case"], v["msg"], v["trace"])
            else:
                self.foreign += 1

    def violate(self, tags, stage, case, msg, trace):
        self.violations.append(dict(tags=tags, stage=stage, case=case, msg=msg, trace=trace))


def known_findings(prop):
    """Lines `known: property=ID match=/REGEX/ text`; `fixed:` lines suppress nothing."""
    found = []
    path = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", line)
            if m and m.group(1) == prop:
                found.append((re.compile(m.group(2), re.S), m.group(3).strip()))
    return found


def check(prop, tier):
    conf = CONF[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    begin = time.time()
    plan = conf[tier]
    deadline = begin + (600 if tier == "quick" else 3600)
    work = os.path.join(TARGET, "run", f"{prop}-{os.getpid()}")
    os.makedirs(work)
    result = Result(prop)
    fatal = None
    try:
        for name, opts in plan:
            if name == "miri":
                run_miri(prop, tier, seed, opts, work, deadline, result)
            else:
                run_stage(prop, tier, seed, name, opts, work, deadline, result)
            if result.violations:
                break
    except BuildFailed as e:
        if conf.get("build_is_verdict") == name and "could not compile `macros`" in str(e) and "signal: " not in str(e):
            result.violate([prop], name, 0, "the declarations of the workload, which are all valid, no longer compile:\n" + str(e), "")
        else:
            fatal = "the workload does not build:\n" + str(e)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    known, fresh = known_findings(prop), []
    seen = set()
    for v in result.violations:
        hit = next((text for rx, text in known if rx.search(v["msg"])), None)
        if hit is None:
            fresh.append(v)
        else:
            seen.add(hit)
    for _, text in known:
        print(f"KNOWN-FINDING: property={prop} {text}" + ("" if text in seen else " (not met in this run)"))

    thin = [f"{k} = {result.counters.get(k, 0)} < {n}" for k, n in conf.get("needs", {}).items() if result.counters.get(k, 0) < n]
    if len(result.distinct) < 2:
        thin.append(f"distinct cases = {len(result.distinct)}")
    coverage = dict(evaluations=result.evaluations, distinct_nontrivial=len(result.distinct), rule=conf["rule"], samples=result.samples,
                    observed=dict(sorted(result.counters.items())), stages=result.stages, outside_violations=result.foreign, inconclusive=result.unclear[:10])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=coverage, assumptions=ASSUMPTIONS + conf.get("assumptions", []),
                       wall_s=round(time.time() - begin, 2), violations=len(fresh)), f, indent=1)
        f.write("\n")

    if fresh:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        v = min(fresh, key=lambda v: len(v["trace"]) or 1 << 30)
        path = os.path.join(HERE, "replay", f"{prop}-seed{seed}-{v['stage']}-{v['case']}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, **v), f, indent=1)
        print(f"{len(fresh)} violation(s); the shortest: {v['msg'][:1500]}")
        if v["trace"]:
            print("...\n" + v["trace"][-1500:])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if fatal:
        print(f"NO VERDICT property={prop}: {fatal}")
        return 2
    if thin:
        print(f"NO VERDICT property={prop}: too little was observed: {'; '.join(thin)} {result.unclear[:3]}")
        return 2
    hard = [u for u in result.unclear if "slow in its shard" not in u]
    if hard:
        print(f"NO VERDICT property={prop}: {hard[0]}")
        return 2
    print(f"held property={prop} tier={tier} seed={seed}: {result.evaluations} evaluations, {len(result.distinct)} distinct, {time.time() - begin:.1f} s")
    return 0


def replay(path):
    r = json.load(open(path))
    if r["stage"] in ("miri", "macros"):
        print(r["msg"])
        return 0
    binary = build(r["stage"])
    work = os.path.join(TARGET, "run", f"replay-{os.getpid()}")
    os.makedirs(work)
    kind, text = isolate(r["property"], r["stage"], [binary, r["property"], "--seed", str(r["seed"]), "--tier", r["tier"]], r["case"], work, SANITIZED.get(r["stage"], {}), None)
    shutil.rmtree(work, ignore_errors=True)
    if kind == "ok":
        for v in text["violations"]:
            print(v["tags"], v["msg"], "\n", v["trace"])
        return 1 if text["violations"] else 0
    print(kind, text)
    return 1


if __name__ == "__main__":
    what = sys.argv[1]
    if what == "build":
        for b in sys.argv[2:] or ["dev", "asan", "msan", "tsan", "macros", "miri"]:
            if os.path.exists(os.path.join(HERE, BUILDS[b][0])):
                print("building", b, flush=True)
                build(b)
        sys.exit(0)
    if what == "replay":
        sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(check(what, tier))
