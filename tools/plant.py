#!/usr/bin/env python3
"""plant.py ID...: goes through planted bugs as the final check would: the patch applies, changes original lines, builds, passes the
stable tests, its demonstration tells it from the clean tree, and its property's quick check reports it. For development only; no check uses it."""
import json, os, re, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "fd99fd8"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def original_lines(patch):
    """How many of the removed lines come from the original commit."""
    n, f, old = 0, None, 0
    for l in open(patch, encoding="utf-8"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        elif l.startswith("@@"):
            old = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            b = sh(f"git -C /repo blame -s --abbrev=10 -L {old},{old} HEAD -- {f}").stdout
            n += b.startswith("^") or b.startswith(BASE)
            old += 1
        elif not l.startswith("+"):
            old += 1
    return n


def tests():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode:
        return "does not build:\n" + b.stdout[-2500:]
    sh("bash /opt/vp/test.sh /tmp/plant-tests.json")
    stable, passed = json.load(open("/opt/vp/BASELINE.json"))["stable"], json.load(open("/tmp/plant-tests.json"))["passed"]
    missing = [t for t in stable if t not in passed]
    return "tests fail: " + ", ".join(missing) if missing else None


def plant(i, steps):
    d = os.path.join(ROOT, "seeded", i)
    patch, prop = os.path.join(d, "patch.diff"), json.load(open(os.path.join(d, "meta.json")))["property"]
    if sh("git -C /repo status --porcelain").stdout:
        sys.exit("/repo is not clean")
    res = dict(id=i, property=prop)
    try:
        if "demo" in steps:
            res["original_lines"] = original_lines(patch)
        a = sh(f"git -C /repo apply {patch}")
        if a.returncode:
            return dict(res, fail="does not apply: " + a.stdout)
        if "demo" in steps:
            bad = tests()
            if bad:
                return dict(res, fail=bad)
            demo = sh(f"timeout 300 bash {d}/demo.sh", cwd="/repo")
            if demo.returncode == 0:
                return dict(res, fail="the demonstration passes with the patch\n" + demo.stdout[-1500:])
            res["demo_with_patch"] = demo.returncode
            res["demo_says"] = demo.stdout[-300:]
        if "check" in steps:
            t = time.time()
            c = sh(f"python3 check.py {prop} quick", cwd=ROOT, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            res["caught"] = c.returncode == 1 and f"VIOLATION property={prop} " in c.stdout
            res["check_rc"], res["check_s"] = c.returncode, round(time.time() - t, 1)
            res["check_says"] = c.stdout[:300] if c.returncode == 1 else c.stdout[-600:]
    finally:
        sh("git -C /repo checkout -- .")
    if "demo" in steps:
        bad = sh("bash /opt/vp/build.sh").returncode
        demo = sh(f"timeout 300 bash {d}/demo.sh", cwd="/repo")
        if bad or demo.returncode:
            return dict(res, fail="the demonstration fails on the clean tree\n" + demo.stdout[-1500:])
        res["demo_clean"] = 0
    return res


if __name__ == "__main__":
    args = sys.argv[1:]
    steps = {"demo", "check"}
    if args[0] in ("--demo", "--check"):
        steps = {args.pop(0)[2:]}
    for i in args or sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        r = plant(i, steps)
        print(json.dumps(r, indent=1), flush=True)
        with open("/tmp/plant/results.jsonl", "a") as f:
            f.write(json.dumps(r) + "\n")
