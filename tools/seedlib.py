"""Author-side helper: make /verif/seeded/<id> from (file, old, new) edits and a demo source; verify it.
    from seedlib import seed, verify"""
import json, os, subprocess, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("MATERSDK_REPO", "/repo")
CPP_SH = '''#!/bin/bash
# exit 0: behaves as stated; nonzero: broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w %s -I source -o "$t/demo" "$d/demo.cpp" %s || exit 98
cd "$t" && timeout 120 ./demo
'''
TORCH_SH = '''#!/bin/bash
# exit 0: behaves as stated; nonzero: broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
T=/opt/venv/lib/python3.12/site-packages/torch
A=$(/opt/venv/bin/python -c 'import torch; print(int(torch._C._GLIBCXX_USE_CXX11_ABI))')
F="-std=c++20 -O0 -w -D_GLIBCXX_USE_CXX11_ABI=$A -I source -I $T/include -I $T/include/torch/csrc/api/include"
i=0; for f in "$d/demo.cpp" %s; do i=$((i+1)); g++ $F -c -o "$t/$i.o" "$f" & p="$p $!"; done
for q in $p; do wait $q || exit 98; done
g++ -o "$t/demo" "$t"/*.o -L$T/lib -Wl,-rpath,$T/lib -Wl,--no-as-needed -ltorch -ltorch_cpu -lc10 || exit 97
cd "$t" && timeout 100 ./demo
'''
PY_SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg DEMO_TMP="$t" REPO="$PWD"
cd "$t" && timeout 200 /opt/venv/bin/python "$d/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def seed(id, prop, edits, demo, kind="py", needs="", breaks="", flags="-fno-unreachable-traps", srcs=""):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    assert sh("git", "-C", R, "status", "--porcelain").stdout == "", "repo not clean"
    try:
        for f, old, new in edits:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE).stdout
    finally:
        sh("git", "-C", R, "checkout", "--", ".")
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    if kind == "cpp":
        open(os.path.join(d, "demo.cpp"), "w").write(demo)
        open(os.path.join(d, "demo.sh"), "w").write(CPP_SH % (flags, srcs))
    elif kind == "torch":
        open(os.path.join(d, "demo.cpp"), "w").write(demo)
        open(os.path.join(d, "demo.sh"), "w").write(TORCH_SH % srcs)
    else:
        open(os.path.join(d, "demo.py"), "w").write(demo)
        open(os.path.join(d, "demo.sh"), "w").write(PY_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def demo_rc(id):
    t = tempfile.mkdtemp()
    try:
        shutil.copytree(os.path.join(V, "seeded", id), os.path.join(t, "x"), ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        p = sh("bash", os.path.join(t, "x", "demo.sh"), cwd=R)
        return p.returncode, p.stdout[-400:]
    finally:
        shutil.rmtree(t)


def verify(id, build=False, checks=None):
    d = os.path.join(V, "seeded", id)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    assert sh("git", "-C", R, "status", "--porcelain").stdout == "", "repo not clean"
    r0, o0 = demo_rc(id)
    try:
        a = sh("git", "-C", R, "apply", os.path.join(d, "patch.diff"))
        assert a.returncode == 0, a.stdout
        r1, o1 = demo_rc(id)
        b = t = "-"
        if build:
            b = sh("bash", "/opt/vp/build.sh").returncode
            sh("bash", "/opt/vp/test.sh", "/tmp/seed_test.json")
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            t = sorted(base - set(json.load(open("/tmp/seed_test.json"))["passed"]))
        res = {}
        for c in (checks or [prop]):
            p = sh("python3", "run.py", c, "--tier", "quick", cwd=V)
            res[c] = (p.returncode, [l for l in p.stdout.splitlines() if l.startswith("#")][:1])
    finally:
        sh("git", "-C", R, "checkout", "--", ".")
    good = r0 == 0 and r1 != 0 and b in ("-", 0) and t in ("-", [])
    print(("ok " if good else "BAD "), id, "demo clean/bug:", r0, r1, "build:", b, "lost tests:", t, "checks:", res)
    if not good:
        print("   clean:", o0, "\n   bug:", o1)
    sys.stdout.flush()


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
    for i in ids:
        verify(i, build="--build" in sys.argv)
