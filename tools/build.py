"""Builds what a check needs from /repo's current working tree, outside /repo.

The tree (CMakeLists.txt and src/) is copied to a scratch directory and
configured with /repo's own CMakeLists (so globbed sources, generated headers
and compile definitions are the repository's own); the sanitizers and the exit
hook come in through CMAKE_CXX_FLAGS_DEBUG, which the repository leaves alone.
"""
import hashlib, os, shutil, subprocess, sys, tempfile, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SAN = ("-g1 -O1 -fno-omit-frame-pointer -fsanitize=address,undefined "
       "-fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS")
MCFLAGS = SAN + " -include " + os.path.join(VERIF, "mc", "exit_hook.h")


class BuildError(Exception):
    pass


def run(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def env():
    e = dict(os.environ)
    for k in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS"):
        e.pop(k, None)
    e["CC"], e["CXX"] = "/usr/bin/gcc", "/usr/bin/g++"
    e["LANG"] = "C.UTF-8"
    return e


def tree_files():
    out = [os.path.join(REPO, "CMakeLists.txt")]
    for base in ("src/libcatnip", "src/tools"):
        for d, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs.sort()
            for f in sorted(files):
                if base == "src/libcatnip" and f == "calcJconfig.hpp":
                    continue            # generated by the build
                out.append(os.path.join(d, f))
    return sorted(out)


def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for f in tree_files():
        h.update(os.path.relpath(f, REPO).encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    for f in ("mc/exit_hook.h", "tools/build.py"):
        with open(os.path.join(VERIF, f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def _prune(keep):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("t-")]
    except OSError:
        return
    ds = sorted((d for d in ds if d != keep), key=lambda d: os.path.getmtime(d))
    for d in ds[:-12]:
        shutil.rmtree(d, ignore_errors=True)


def library(kind="mc", log_level=None):
    """kind: 'mc' (sanitized, exit hook), 'cli' (sanitized calc_J, no hook),
    'plain' (no sanitizer calc_J). Returns the build directory."""
    os.makedirs(BUILD, exist_ok=True)
    tag = "%s-%s" % (kind, "" if log_level is None else log_level)
    d = os.path.join(BUILD, "t-" + tree_hash(tag))
    lock = open(os.path.join(BUILD, "lock-" + tag), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(d, "done")):
            os.utime(d)
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, "tree", "src"))
        shutil.copy(os.path.join(REPO, "CMakeLists.txt"), os.path.join(d, "tree"))
        for base in ("libcatnip", "tools"):
            shutil.copytree(os.path.join(REPO, "src", base), os.path.join(d, "tree", "src", base))
        flags = {"mc": MCFLAGS, "cli": SAN, "plain": "-g1 -O1"}[kind]
        cfg = ["cmake", "-S", os.path.join(d, "tree"), "-B", os.path.join(d, "b"), "-G", "Ninja",
               "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
               "-DCMAKE_CXX_FLAGS_DEBUG=" + flags]
        if log_level is not None:
            cfg.append("-DLOG_LEVEL=%d" % log_level)
        run(cfg, env=env())
        run(["ninja", "-C", os.path.join(d, "b"), "libcatnip" if kind == "mc" else "calc_J"], env=env())
        open(os.path.join(d, "done"), "w").close()
        _prune(d)
        return d
    finally:
        lock.close()


def lib_archive(d):
    for r, _, fs in os.walk(os.path.join(d, "b")):
        for f in fs:
            if f.endswith(".a"):
                return os.path.join(r, f)
    raise BuildError("library archive not found")


def includes(d):
    b = os.path.join(d, "tree", "src", "libcatnip")
    return ["-I", os.path.join(VERIF, "mc"), "-I", os.path.join(VERIF, "harness"), "-I", os.path.join(d, "tree", "src"), "-I", b,
            "-I", os.path.join(b, "io"), "-I", os.path.join(b, "io", "file_readers"),
            "-I", os.path.join(b, "io", "arguments"), "-I", os.path.join(b, "io", "arguments", "properties")]


def harness(src, d, with_main=False, log_level=None, extra=(), parts=()):
    """Compiles /verif/harness/<src> against the library built in d."""
    srcp = os.path.join(VERIF, "harness", src)
    h = hashlib.sha256()
    for base in ("harness", "mc"):
        for f in sorted(os.listdir(os.path.join(VERIF, base))):
            if f.endswith((".hpp", ".h")) or f == src or f in [x[0] for x in parts]:
                with open(os.path.join(VERIF, base, f), "rb") as fh:
                    h.update(f.encode() + fh.read())
    h.update(repr((with_main, log_level, extra, parts)).encode())
    exe = os.path.join(d, "h-%s-%s" % (src.replace(".cpp", ""), h.hexdigest()[:12]))
    if os.path.exists(exe):
        return exe
    ll = ["-DLOG_LEVEL=%d" % (0 if log_level is None else log_level)]
    jobs = []
    objs = []

    def cc(out, cmd):
        objs.append(out)
        jobs.append((cmd, subprocess.Popen(cmd + ["-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env())))
    o = exe + ".o"
    cc(o, ["g++", "-std=c++17", "-w"] + SAN.split() + includes(d) + ll + list(extra) + ["-c", srcp])
    for i, (part, defs) in enumerate(parts):
        cc("%s.p%d.o" % (exe, i), ["g++", "-std=c++17", "-w"] + SAN.split() + includes(d) + list(defs) + ["-c", os.path.join(VERIF, "harness", part)])
    if with_main:
        td = os.path.join(d, "tree", "src", "tools")
        for f in sorted(os.listdir(td)):
            if f.endswith(".cpp"):
                cc(exe + "." + f + ".o", ["g++", "-std=c++11", "-w"] + MCFLAGS.split() + ["-Dmain=calcj_main"] + includes(d) + ll + ["-c", os.path.join(td, f)])
    for cmd, p in jobs:
        out = p.communicate()[0]
        if p.returncode != 0:
            raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), out[-6000:]))
    run(["g++"] + SAN.split() + objs + [lib_archive(d), "-o", exe + ".tmp"], env=env())
    for x in objs:
        os.unlink(x)
    os.rename(exe + ".tmp", exe)
    return exe


def calcj(d):
    for r, _, fs in os.walk(os.path.join(d, "b")):
        if "calc_J" in fs:
            return os.path.join(r, "calc_J")
    raise BuildError("calc_J not found")
