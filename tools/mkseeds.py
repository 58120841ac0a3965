"""Development helper (no check uses it): writes /verif/seeded/<id>/ from the
planted bugs below.  python3 tools/mkseeds.py [ID...]"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "5833a18"
L = "src/libcatnip/"
CPP = r'''#!/bin/bash
# builds demo.cpp against the library that was built in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++11 %s -I"$repo/src/libcatnip" "$here/demo.cpp" "$repo/_build/src/libcatnip/liblibcatnip.a" -o "$tmp/demo" || exit 3
cd "$tmp" && timeout 60 ./demo
'''
SH = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
calc=$PWD/_build/calc_J
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
[ -d "$here/data" ] && cp -r "$here/data/." "$tmp/"
cd "$tmp" || exit 3
result() { timeout 60 "$calc" "$@" 2>/dev/null | awk '$1 == "J_eff" { print $2 }'; }
same() { awk -v a="$1" -v b="$2" 'BEGIN { d = a - b; if (d < 0) d = -d; exit !(a != "" && d <= 2e-5 * (b < 0 ? -b : b)) }' || { echo "J_eff is '$1', expected $2"; exit 1; }; }
files="--pun_P pair.pun --pun_1 mon1.pun --pun_2 mon2.pun"
'''
HEAD = '''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
using namespace std;
static void must(bool ok, const char* what) { if (!ok) { fprintf(stderr, "FAILED: %s\\n", what); exit(1); } }
'''
S = {}


def seed(i, prop, needs, breaks, edits, demo, data=None, flags=""):
    S[i] = dict(property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo, data=data, flags=flags)


exec(open(os.path.join(V, "tools", "seeds.txt")).read())


def make(i):
    s = S[i]
    d = tempfile.mkdtemp(dir="/tmp")
    r = d + "/repo"
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        for e in s["edits"]:
            f, old, new = e[:3]
            nth = e[3] if len(e) > 3 else None
            t = open(r + "/" + f).read()
            n = t.count(old)
            if n == 0 or (nth is None and n != 1):
                raise SystemExit("%s: %d occurrences of %r" % (i, n, old))
            p = -1
            for _ in range(nth or 1):
                p = t.index(old, p + 1)
            blame = subprocess.check_output(["git", "blame", "-s", "-L", "%d,%d" % (t[:p].count("\n") + 1, t[:p + len(old)].rstrip("\n").count("\n") + 1), f], cwd=r, text=True)
            # the lines that really change
            if not any(l.startswith("^" + BASE[:6]) for l in blame.splitlines()):
                raise SystemExit("%s: no original line in\n%s" % (i, blame))
            t = t[:p] + new + t[p + len(old):]
            open(r + "/" + f, "w").write(t)
        diff = subprocess.check_output(["git", "diff"], cwd=r, text=True)
        lines = []
        out = V + "/seeded/" + i
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        # original lines among those removed
        orig = new = 0
        for m in re.finditer(r"^--- a/(\S+)", diff, re.M):
            f = m.group(1)
            body = diff[m.end():].split("\ndiff --git")[0]
            ln = 0
            for l in body.splitlines():
                h = re.match(r"@@ -(\d+)", l)
                if h:
                    ln = int(h.group(1)); continue
                if l.startswith("-") and not l.startswith("---"):
                    b = subprocess.check_output(["git", "blame", "-s", "-L", "%d,%d" % (ln, ln), "HEAD", "--", f], cwd=r, text=True)
                    if b.startswith("^" + BASE[:6]): orig += 1
                    else: new += 1
                if not l.startswith("+"): ln += 1
        if orig == 0: print(i, "WARNING: no original line removed (%d new ones)" % new)
        json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(out + "/meta.json", "w"), indent=1)
        if s["demo"].lstrip().startswith("#include"):
            open(out + "/demo.sh", "w").write(CPP % s["flags"])
            open(out + "/demo.cpp", "w").write(HEAD + s["demo"].lstrip())
        else:
            open(out + "/demo.sh", "w").write(SH + s["demo"].lstrip())
        if s["data"]:
            shutil.copytree(V + "/tools/seeddata/" + s["data"], out + "/data")
        print(i, "written, original lines changed:", orig)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    for i in (sys.argv[1:] or sorted(S)):
        make(i)
