"""Makes and confirms a planted bug: python3-vt tools/seed.py SPEC.py   (SPEC defines BUGS: list of dicts)
keys: id, property, edits [(file, old, new)], needs, breaks, demo (python text run with the real package; must fail with the bug)
Confirms in a scratch copy: applies, builds, tests pass, demo 0 before and nonzero after; changed lines are original ones."""
import json, os, shutil, subprocess, sys, runpy

ORIG = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^fix:", "--invert-grep", "-1"], capture_output=True, text=True).stdout.strip()
OUT = "/verif/seeded"
DEMO = '''#!/bin/bash
# exit 0: behaves as stated; nonzero: broken
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def make(b):
    work = "/tmp/seedwork/%s" % b["id"]
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs("/tmp/seedwork", exist_ok=True)
    sh(["cp", "-a", "/repo", work])
    for f, old, new in b["edits"]:
        p = os.path.join(work, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "edit of %s matches %d times: %r" % (f, s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))
    diff = sh(["git", "diff"], cwd=work).stdout
    for f, old, new in b["edits"]:
        orig = sh(["git", "-C", "/repo", "show", "%s:%s" % (ORIG, f)]).stdout.splitlines()
        new_l = set(new.splitlines())
        for l in old.splitlines():
            if l not in new_l and l.strip() and l not in orig:
                return "not an original line: %r" % l
    d = os.path.join(OUT, b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(b["demo"])
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r0 = sh(["bash", d + "/demo.sh"], cwd="/repo", timeout=300)
    if r0.returncode: return "demo fails on the unchanged tree: %s" % (r0.stdout + r0.stderr)[-600:]
    r1 = sh(["bash", d + "/demo.sh"], cwd=work, timeout=300)
    if not r1.returncode: return "demo passes with the bug"
    env = dict(os.environ, PYTHONPATH=work, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    t = sh(["/opt/venv/bin/python", "-m", "pytest", "test", "-q", "-p", "no:cacheprovider", "--timeout=300"], cwd=work, env=env)
    base = json.load(open("/opt/vp/BASELINE.json"))
    tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else "?"
    t0 = sh(["/opt/venv/bin/python", "-m", "pytest", "test", "-q", "-p", "no:cacheprovider", "--timeout=300"], cwd="/repo", env=dict(env, PYTHONPATH="/repo"))
    f0 = sorted(l for l in t0.stdout.splitlines() if l.startswith(("FAILED", "ERROR")))
    f1 = sorted(l for l in t.stdout.splitlines() if l.startswith(("FAILED", "ERROR")))
    if f0 != f1: return "tests differ: %s" % [x for x in f1 if x not in f0]
    return "ok (%s) demo: %s" % (tail, (r1.stdout + r1.stderr).strip().splitlines()[-1][:150])


def check(b, budget=None):
    work = "/tmp/seedwork/%s" % b["id"]
    env = dict(os.environ, VERIF_REPO=work)
    import time
    t = time.time()
    r = sh(["/verif/check.sh", b["property"], "quick"], env=env, cwd="/verif")
    v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "failing input", "obligation not"))]
    return "%d %.0fs %s" % (r.returncode, time.time() - t, " | ".join(x[:200] for x in v[:1] + v[-2:]))


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    for b in bugs:
        if only and b["id"] not in only: continue
        r = make(b)
        print(b["id"], r, flush=True)
        if r.startswith("ok"):
            print("    check %s: %s" % (b["property"], check(b)), flush=True)
        else:
            shutil.rmtree(os.path.join(OUT, b["id"]), ignore_errors=True)
        shutil.rmtree("/tmp/seedwork/%s" % b["id"], ignore_errors=True)
