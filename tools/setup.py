"""setup_cmd: builds the sanitized library and the harnesses once, so that the
checks find them; a check builds whatever is missing or out of date itself."""
import concurrent.futures, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from checks import CHECKS


def main():
    try:
        d = build.library("mc")
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(build.harness, s["src"], d, s.get("main", False), s.get("log_level"), tuple(s.get("defs", ())), tuple(s.get("parts", ()))) for s in CHECKS.values()]
            for k in sorted({lv for s in CHECKS.values() for lv in s.get("cli_levels", {}).values()}):
                build.library("plain", k)
            for f in fs:
                f.result()
    except build.BuildError as e:
        print("setup: build failed (the checks will report it)\n%s" % e)


main()
