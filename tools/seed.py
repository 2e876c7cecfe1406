#!/usr/bin/env python3
"""Makes planted bugs: applies an edit to a scratch copy of /repo, confirms that it builds, that the stable
tests pass and that the demonstration tells the two trees apart, then writes /verif/seeded/<id>.

usage: seed.py FILE.py     FILE.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (C++ source)
       seed.py --check [ID...]   runs the property's check against each planted bug (PE_REPO on the scratch copy)
"""
import json, os, shutil, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seedwt"
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
DEMO_SH = '''#!/bin/bash
# builds the demonstration against the library built in the current tree; exits 0 if the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -w -g -fsanitize=address -I src -o "$t/demo" "$d/demo.cpp" $LIBS lib/Debug/libpe_lib.a || exit 98
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def copy_tree():
    if not os.path.exists(WT):
        shutil.copytree("/repo", WT, symlinks=True, ignore=shutil.ignore_patterns("_build", "bin", "lib"))
    else:
        sh("git", "-C", WT, "checkout", "-q", "--", ".")
        r = sh("git", "-C", WT, "pull", "-q", "--ff-only", "/repo", "HEAD")
        if r.returncode:
            raise SystemExit("cannot update scratch copy: " + r.stderr)


def build():
    r = sh("cmake", "-S", WT + "/src", "-B", WT + "/_build", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_FLAGS_DEBUG=-g -Wno-error", "-Wno-dev", env=dict(os.environ, CC="gcc", CXX="g++"))
    if r.returncode:
        raise SystemExit(r.stderr)
    r = sh("ninja", "-C", WT + "/_build")
    return r.returncode == 0, r.stdout[-1500:]


def tests():
    src = open("/opt/vp/run_tests.py").read().replace("/repo/", WT + "/")
    r = sh(sys.executable, "-c", src)
    ok = {l[5:] for l in r.stdout.splitlines() if l.startswith("PASS ")} - {l[5:] for l in r.stdout.splitlines() if l.startswith("FAIL ")}
    return [t for t in BASE if t not in ok and not t.startswith("junit") and "[" in t or (t not in ok and t.startswith("tests_utils"))]


def demo(d):
    return sh("bash", d + "/demo.sh", cwd=WT)


def plant(path):
    g = {}
    exec(open(path).read(), g)
    d = os.path.join(V, "seeded", g["ID"])
    copy_tree()
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    open(d + "/demo.cpp", "w").write(g["DEMO"])
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    ok, o = build()
    r0 = demo(d)
    for f, old, new in g["EDITS"]:
        p = os.path.join(WT, "src/pe_lib", f)
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        if crlf:
            s = s.replace("\r\n", "\n")
        if s.count(old) != 1:
            raise SystemExit("%s: %d matches of %r" % (f, s.count(old), old))
        s = s.replace(old, new)
        if crlf:
            s = s.replace("\n", "\r\n")
        open(p, "w", newline="").write(s)
    open(d + "/patch.diff", "w", newline="").write(subprocess.run(["git", "-C", WT, "diff"], capture_output=True).stdout.decode("latin1"))
    ok, o = build()
    t = tests() if ok else ["build"]
    r1 = demo(d)
    sh("git", "-C", WT, "checkout", "-q", "--", ".")
    good = ok and not t and r0.returncode == 0 and r1.returncode not in (0, 98, 99)
    print("%s %s build=%s tests=%s demo clean=%d patched=%d %s" % ("OK " if good else "BAD", g["ID"], ok, t[:4], r0.returncode, r1.returncode, "" if good else (o if not ok else r0.stdout + r0.stderr[-600:] + r1.stdout)))
    if not good:
        shutil.rmtree(d)
    return good


def check(ids):
    for i in ids or sorted(os.listdir(V + "/seeded")):
        d = V + "/seeded/" + i
        m = json.load(open(d + "/meta.json"))
        copy_tree()
        r = sh("git", "-C", WT, "apply", d + "/patch.diff")
        if r.returncode:
            print("%-14s DOES NOT APPLY %s" % (i, r.stderr[:200]))
            continue
        res = []
        for p in [m["property"]] + m.get("also", []):
            if not os.path.exists(V + "/gen/%s.py" % p):
                res.append(p + ":no check")
                continue
            r = sh(sys.executable, V + "/check.py", p, env=dict(os.environ, PE_REPO=WT))
            res.append("%s:%s" % (p, "caught" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else "MISSED rc=%d %s" % (r.returncode, r.stderr[-300:])))
        sh("git", "-C", WT, "checkout", "-q", "--", ".")
        print("%-14s %s" % (i, " ".join(res)), flush=True)
        cp = V + "/tools/catches.json"
        c = json.load(open(cp)) if os.path.exists(cp) else {}
        c[i] = ", ".join(x.split(":")[0] for x in res if x.endswith(":caught")) or "MISSED"
        json.dump(c, open(cp, "w"), indent=0, sort_keys=True)


if __name__ == "__main__":
    if sys.argv[1] == "--check":
        check(sys.argv[2:])
    else:
        bad = [x for x in sys.argv[1:] if not plant(x)]
        sys.exit(1 if bad else 0)
