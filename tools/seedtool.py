"""Development helper (no check uses it): verifies planted bugs in a scratch copy.
  python3 tools/seedtool.py verify ID...   builds, tests and demonstrates each
  python3 tools/seedtool.py catch ID...    runs the check of its property on it
"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = len(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd=None, env=None, t=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def copy(patch=None):
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp/seedwork")
    r = os.path.join(d, "tree")
    sh("git clone -q /repo %s" % r)
    if patch:
        rc, o = sh("git apply %s" % patch, cwd=r)
        if rc:
            raise SystemExit("patch does not apply: %s\n%s" % (patch, o))
    return d, r


def build(r):
    s = open("/opt/vp/build.sh").read().replace("/repo", r)
    open(r + "/../build.sh", "w").write(s)
    t = open("/opt/vp/test.sh").read().replace("/opt/vp/build.sh", r + "/../build.sh").replace("/repo", r)
    open(r + "/../test.sh", "w").write(t)
    return sh("bash ../test.sh ../out.json", cwd=r)


_clean = None


def verify(i):
    S = os.path.join(V, "seeded", i)
    out = []
    for patched in (False, True):
        d, r = copy(os.path.join(S, "patch.diff") if patched else None)
        try:
            rc, o = build(r)
            res = json.load(open(d + "/out.json"))
            if len(res["passed"]) < STABLE:
                out.append("tests: %s %s" % (res["failed"], o[-400:] if not res["passed"] else ""))
            demo = os.path.join(d, "demo")
            shutil.copytree(S, demo)
            for f in os.listdir(demo):
                if f.endswith((".diff", ".patch")) or f == "meta.json":
                    os.unlink(os.path.join(demo, f))
            rc, o = sh("bash %s/demo.sh" % demo, cwd=r, t=300)
            if (rc != 0) != patched:
                out.append("demo %s: rc %d\n%s" % ("patched" if patched else "clean", rc, o[-400:]))
        finally:
            shutil.rmtree(d)
    return i, out


def catch(i):
    S = os.path.join(V, "seeded", i)
    d, r = copy(os.path.join(S, "patch.diff"))
    try:
        prop = json.load(open(S + "/meta.json"))["property"]
        env = dict(os.environ, VERIF_REPO=r)
        ps = [prop] if "--all" not in sys.argv else ["C%02d" % k for k in range(1, 28)]
        out = []
        for p in ps:
            rc, o = sh("python3 check.py %s" % p, cwd=V, env=env)
            fails = sorted({l.split("scenario:")[1].strip() for l in o.splitlines() if "scenario:" in l})
            if rc or len(ps) == 1:
                out.append((p, rc, fails if rc == 1 else o.splitlines()[-1:]))
        return i, out
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
    os.makedirs("/tmp/seedwork", exist_ok=True)
    f = verify if sys.argv[1] == "verify" else catch
    with concurrent.futures.ThreadPoolExecutor(5 if f is verify else 2) as ex:
        for i, out in ex.map(f, ids):
            print(i, "OK" if f is verify and not out else out, flush=True)
