#!/usr/bin/env python3
"""Mutation survey of the checks: plants every small token-level change in the
library's sources, one at a time, and reports those that no check notices.
    mutate.py <file under src/> ... [--from N] [--to N] [--list]
A development aid: no check uses it, and everything it writes is under /tmp/mut."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import build
from checks import CHECKS
W = "/tmp/mut"
REL = {
  "matrix.cpp": "C18 C19 C21 C20 C07 C23 C03 C01",
  "qc_functions.cpp": "C03 C06 C04 C02 C01 C23 C05",
  "string_support.cpp": "C24 C15 C22 C14 C08 C12",
  "argumentparser.cpp": "C14 C22 C17 C16 C15 C26 C05",
  "io.cpp": "C16 C14 C15 C17 C05 C26",
  "parameters.cpp": "C16 C15",
  "main.cpp": "C05 C26 C16 C17",
  "filereader.cpp": "C27 C08 C09 C10 C11 C12 C13 C26",
  "logreader.cpp": "C09 C10 C11 C08 C13 C27 C26 C05",
  "punreader.cpp": "C12 C13 C27 C26 C05",
}
ARGS = "C22 C14 C15 C16 C26"


def strip(line):
    """masks string literals and comments"""
    out, i, q = [], 0, None
    while i < len(line):
        c = line[i]
        if q:
            out.append("\x01" if c != q else c)
            if c == "\\":
                i += 1; out.append("\x01")
            elif c == q: q = None
        elif c in "\"'": q = c; out.append(c)
        elif line.startswith("//", i): out.append("\x01" * (len(line) - i)); break
        else: out.append(c)
        i += 1
    return "".join(out)[:len(line)]


def mutants(text):
    lines = text.split("\n")
    incomment = False
    for n, line in enumerate(lines):
        s = strip(line)
        if "/*" in s: incomment = True
        if incomment:
            if "*/" in s: incomment = False
            continue
        t = s.strip()
        if not t or t.startswith("#") or t.startswith("using ") or t.startswith("namespace"): continue
        if re.search(r"\b(cerr|printf|LOG)\b", t): continue
        def m(a, b, new): return (n, line[:a] + new + line[b:])
        tmpl = re.search(r"(map|vector|pair|set|list|unique_ptr|static_cast|istream_iterator|back_inserter)\s*<", s) is not None
        for x in re.finditer(r"<=|>=|==|!=|&&|\|\||\+\+|--|\+=|-=|->|<<|>>|[<>+\-*/!]", s):
            o = x.group(); a, b = x.span()
            if o in ("->", "<<", ">>"): continue
            if o in "<>" and tmpl: continue
            for new in {"<": ["<="], ">": [">="], "<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "++": ["--"], "--": ["++"],
                        "+=": ["-="], "-=": ["+="], "+": ["-"], "-": ["+"], "*": ["+"], "/": ["*"], "!": [""]}.get(o, []):
                if o == "*" and re.search(r"(Matrix|void|char|double|Argument\w*|\()\s*$", s[:a]): continue
                yield m(a, b, new)
        for x in re.finditer(r"(?<![\w.])\d+(?![\w.])", s):
            v = int(x.group())
            yield m(*x.span(), str(v + 1))
            if v > 0: yield m(*x.span(), str(v - 1))
        for x in re.finditer(r"\b(true|false|HOMO|LUMO)\b", s):
            yield m(*x.span(), {"true": "false", "false": "true", "HOMO": "LUMO", "LUMO": "HOMO"}[x.group()])
        if re.match(r"(if|while|\} else if) \(.*\) \{$", t) and t.count("(") == t.count(")"):
            a = s.index("("); b = s.rindex(")")
            yield m(a, b + 1, "(!" + line[a:b + 1] + ")")
            if t.startswith("if") or t.startswith("} else if"):
                yield m(a, b + 1, "(false)")
        if re.match(r"^[\w>\-\[\]\.\(\)\*:\"\x01, &]+(=|\+\+|\().*;$", t) and not re.match(r"^(return|throw|const |auto |int |double |string |bool |size_t |vector|Matrix |list|map|set<|unsigned|istringstream|std::|pair|ostringstream|Argument|Property|unique_ptr|T |struct|for|Log|Pun)", t):
            yield (n, line[:len(line) - len(line.lstrip())] + ";")
        if t in ("break;", "continue;", "return;"): yield (n, ";")
        for x in re.finditer(r'"([^"\n]*)"', line):
            w = x.group(1)
            if w and s[x.start()] == '"' and ("-" == w[:1] or w in ("ON", "OFF", "Alpha", "Beta", "HOMO", "LUMO", "true", "false", "TRUE", "FALSE", "0", "1", ".", "D", "mon1", "mon2", "Rows", "Columns") or w[:1] == "." or "eigen" in w or "_" in w):
                sw = {"Alpha": "Beta", "Beta": "Alpha", "HOMO": "LUMO", "LUMO": "HOMO", "ON": "OFF", "OFF": "ON", "mon1": "mon2", "mon2": "mon1"}
                yield m(x.start(1), x.end(1), sw.get(w, w.replace("_1", "_2") if "_1" in w else w.replace("_2", "_1") if "_2" in w else w + "x"))


def main():
    files = [a for a in sys.argv[1:] if not a.startswith("--") and not a.isdigit()]
    lo = int(sys.argv[sys.argv.index("--from") + 1]) if "--from" in sys.argv else 0
    hi = int(sys.argv[sys.argv.index("--to") + 1]) if "--to" in sys.argv else 10**9
    work = []
    for f in files:
        text = open(os.path.join(build.REPO, "src", f)).read()
        seen = set()
        for n, new in mutants(text):
            if new != text.split("\n")[n] and (n, new) not in seen:
                seen.add((n, new)); work.append((f, n, new))
    work = work[lo:hi]
    print(len(work), "mutants", flush=True)
    if "--list" in sys.argv:
        for f, n, new in work: print(f, n + 1, new)
        return
    os.makedirs(W, exist_ok=True)
    d = build.library("mc")
    compdb = json.loads(subprocess.check_output(["ninja", "-C", d + "/b", "-t", "compdb"], text=True))
    cmds = {os.path.relpath(c["file"], d + "/tree"): c for c in compdb if c["command"].find(" -c ") > 0 and c["file"].startswith(d + "/tree/src/libcatnip")}
    props = sorted({p for f in files for p in REL.get(os.path.basename(f), ARGS).split()})
    hobj = {}
    def hc(p):
        spec = CHECKS[p]; o = "%s/%s.o" % (W, p)
        if spec.get("parts"): return
        subprocess.check_call(["g++", "-std=c++17", "-w"] + build.SAN.split() + build.includes(d) + ["-DLOG_LEVEL=0"] + spec["defs"] + ["-c", build.VERIF + "/harness/" + spec["src"], "-o", o])
        hobj[p] = o
    td = d + "/tree/src/tools/main.cpp"
    maincmd = ["g++", "-std=c++11", "-w"] + build.MCFLAGS.split() + ["-Dmain=calcj_main"] + build.includes(d) + ["-DLOG_LEVEL=0"]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(hc, p) for p in props] + [ex.submit(subprocess.check_call, maincmd + ["-c", td, "-o", W + "/main.o"])]
        for x in fs: x.result()
    objs = {f: os.path.join(c["directory"], c["output"] if "output" in c else re.search(r"-o (\S+)", c["command"]).group(1)) for f, c in cmds.items()}
    env = dict(os.environ)
    import check
    env["ASAN_OPTIONS"] = check.ASAN; env["LC_ALL"] = "C"
    loc = threading.local(); cnt = [0]; lock = threading.Lock(); res = []

    def one(item):
        f, n, new = item
        k = "src/" + f
        if not hasattr(loc, "dir"):
            with lock: cnt[0] += 1; i = cnt[0]
            loc.dir = "%s/w%d" % (W, i)
            shutil.rmtree(loc.dir, ignore_errors=True); shutil.copytree(d + "/tree", loc.dir + "/tree")
        t = loc.dir + "/tree"; path = t + "/" + k
        orig = open(path).read(); L = orig.split("\n"); old = L[n]; L[n] = new
        open(path, "w").write("\n".join(L))
        try:
            o = loc.dir + "/m.o"
            cmd = (" ".join(maincmd) + " -c %s -o %s" % (path, o)) if k.startswith("src/tools") else re.sub(r"-o \S+", "-o " + o, cmds[k]["command"].replace(d + "/tree", t))
            cmd = cmd.replace(d + "/tree", t)
            if subprocess.run(cmd, shell=True, cwd=d + "/b", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: return item, old, "nocompile"
            for p in REL.get(os.path.basename(f), ARGS).split():
                if p not in hobj: continue
                lib = [o if x == k else y for x, y in objs.items()]
                ms = ([o] if k.startswith("src/tools") else [W + "/main.o"]) if CHECKS[p].get("main") else []
                exe = loc.dir + "/x"
                if subprocess.run(["g++"] + build.SAN.split() + [hobj[p]] + ms + lib + ["-o", exe], stderr=subprocess.DEVNULL).returncode: return item, old, "nolink"
                tmp = loc.dir + "/tmp"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp); os.chmod(tmp, 0o755)
                e = dict(env, VERIF_SCRATCH=tmp)
                try:
                    r = subprocess.run([exe, "--tmp", tmp, "--out", tmp + "/r.json", "--jobs", "1", "--first", "--deadline", "600", "--hang", "20"], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=900)
                except subprocess.TimeoutExpired:
                    return item, old, "timeout " + p
                if r.returncode == 1 or "violations\":[{" in open(tmp + "/r.json").read(): return item, old, "killed " + p
                if r.returncode != 0: return item, old, "ERROR %d %s" % (r.returncode, p)
            return item, old, "SURVIVED"
        finally:
            open(path, "w").write(orig)
    t0 = time.time(); done = 0
    log = open(W + "/log.%s" % hashlib.md5(repr(sys.argv).encode()).hexdigest()[:6], "w")
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for (f, n, new), old, r in ex.map(one, work):
            done += 1
            log.write("%s:%d %s | %s -> %s\n" % (f, n + 1, r, old.strip(), new.strip())); log.flush()
            if not r.startswith("killed") and r != "nocompile":
                print("%s:%d %s\n    - %s\n    + %s" % (f, n + 1, r, old.strip(), new.strip()), flush=True)
    print("done %d in %.0f s" % (done, time.time() - t0))


main()
