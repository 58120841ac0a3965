#!/usr/bin/env python3
"""check.py <property id> [--thorough]: builds the harness of one property
against /repo's current tree, explores it exhaustively within its bounds,
writes evidence/<id>.json and reports."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build
from checks import CHECKS

ASAN = ("detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=1048576:malloc_fill_byte=203:free_fill_byte=219:max_free_fill_size=4096:"
        "quarantine_size_mb=16:malloc_context_size=2:hard_rss_limit_mb=1500:detect_stack_use_after_return=0:allocator_may_return_null=0")


def known_findings(pid):
    """known_findings.txt: 'known: property=<id> scenario=<re> sig=<re> match=<re> :: description' lines;
    'fixed:' lines are a record only and suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) scenario=(\S+) sig=/(.*?)/ match=/(.*?)/ :: (.*)$", l.rstrip("\n"))
            if m and m.group(1) == pid:
                out.append(m.groups())
    return out


def main():
    pid = sys.argv[1]
    spec = CHECKS[pid]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    tier = "thorough" if thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    os.chmod(scratch, 0o755)
    rc = 2
    try:
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = ASAN
        env["UBSAN_OPTIONS"] = "print_stacktrace=1"
        env["VERIF_SCRATCH"] = scratch
        env["LC_ALL"] = "C"
        d = build.library("mc", spec.get("log_level"))
        exe = build.harness(spec["src"], d, with_main=spec.get("main", False), log_level=spec.get("log_level"), extra=tuple(spec.get("defs", ())), parts=tuple(spec.get("parts", ())))
        if spec.get("cli"):
            env["VERIF_CALCJ"] = build.calcj(build.library("cli"))
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for k, lib in [(k, ex.submit(build.library, "plain", lv)) for k, lv in spec.get("cli_levels", {}).items()]:
                env[k] = build.calcj(lib.result())
        tb = time.time()
        if "--replay" in sys.argv:
            art = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
            rf = os.path.join(scratch, "r")
            open(rf, "w").write(art["scenario"] + "\n" + art["choices"] + "\n")
            sys.exit(subprocess.call([exe, "--tmp", scratch, "--replay", rf] + (["--thorough"] if art["tier"] == "thorough" else []), env=env))
        out = os.path.join(scratch, "result.json")
        cmd = [exe, "--tmp", scratch, "--out", out, "--seed", str(seed), "--jobs", str(os.cpu_count() or 8),
               "--deadline", str(spec.get("deadline", 3000) if thorough else spec.get("qdeadline", 420))]
        if thorough:
            cmd.append("--thorough")
        if "--only" in sys.argv:
            cmd += ["--only", sys.argv[sys.argv.index("--only") + 1]]
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.stderr:
            sys.stderr.write(p.stderr[-4000:])
        if not os.path.exists(out) or p.returncode not in (0, 1):
            print("check %s could not run: exit %d\n%s" % (pid, p.returncode, p.stderr[-3000:]))
            sys.exit(2)
        res = json.load(open(out))
        rc = report(pid, spec, tier, seed, res, t0, tb)
    except build.BuildError as e:
        print("check %s: build failed\n%s" % (pid, e))
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def report(pid, spec, tier, seed, res, t0, tb):
    known = known_findings(pid)
    hits, new, unconf = {}, [], []
    for v in res["violations"]:
        for k in known:
            if re.fullmatch(k[1], v["scenario"]) and re.search(k[2], v["sig"]) and re.search(k[3], v["msg"] + "\n" + v["trace"]):
                hits[k[4]] = hits.get(k[4], 0) + 1
                break
        else:
            (new if v["confirmed"] else unconf).append(v)
    for desc in sorted(hits):
        print("KNOWN-FINDING: property=%s %s" % (pid, desc))
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, f))
    for i, v in enumerate(new[:12]):
        path = os.path.join(rdir, "%s-%d.json" % (pid, i + 1))
        art = {"property": pid, "tier": tier, "scenario": v["scenario"], "choices": v["choices"], "sig": v["sig"], "msg": v["msg"],
               "trace": v["trace"], "history_dependent": v["history"],
               "how": "cd /verif && python3 check.py %s --replay %s" % (pid, path)}
        json.dump(art, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  scenario: %s" % v["scenario"])
        print("  failure:  %s" % v["sig"])
        print("  " + v["msg"][:1500].replace("\n", "\n  "))
        if v["trace"]:
            print("  trace:\n    " + v["trace"][:1500].replace("\n", "\n    "))
    sc = res["scenarios"]
    execs = sum(s["executions"] for s in sc)
    trans = sum(s["transitions"] for s in sc)
    states = sum(s["states"] for s in sc)
    complete = all(s["complete"] for s in sc) and not res["table_full"]
    samples = []
    for s in sc:
        for x in s["samples"][:2]:
            samples.append("[%s] %s" % (s["name"], x[:900]))
    level = spec.get("level", "model_checking")
    cov = {"states": states, "transitions": trans, "traces_validated_against_impl": execs,
           "samples": samples[:16] or ["(none: every execution failed)"], "exhaustive": bool(complete),
           "scenarios": [{k: s[k] for k in ("name", "bounds", "executions", "transitions", "states", "max_choices", "complete")} for s in sc],
           "outcomes": {s["name"]: s["outcomes"] for s in sc if s["outcomes"]},
           "bounds": "complete enumeration of every choice sequence of each scenario within its stated bounds" if complete else
                     "INCOMPLETE: see scenarios[].complete",
           "sanitizers": "AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions on every execution"}
    if level == "fault_enumeration":
        cov["evaluations"] = execs
        cov["distinct_nontrivial"] = states
        cov["rule"] = spec["rule"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d scenarios, %d executions, %d states, %d transitions, %s, build %.1fs, total %.1fs" % (
        pid, len(sc), execs, states, trans, "complete" if complete else "INCOMPLETE", tb - t0, time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        for s in sc:
            print("   %-28s execs %-9d states %-9d trans %-9d depth %d %s %s" % (s["name"], s["executions"], s["states"], s["transitions"], s["max_choices"],
                  "" if s["complete"] else "INCOMPLETE", dict(list(s["outcomes"].items())[:8])))
    if new:
        return 1
    if unconf:
        print("check %s: %d failures did not reproduce on replay: harness error" % (pid, len(unconf)))
        return 2
    return 0


if __name__ == "__main__":
    main()
