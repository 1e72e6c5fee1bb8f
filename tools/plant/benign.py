#!/usr/bin/env python3
"""Development tool: changes which keep the behaviour; every check has to stay quiet. benign.py SPEC.py [id...]; SCALE, IDS"""
import os, runpy, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
import plant as P

def one(b, d):
    P.reset(d)
    e = P.apply(d, b["edits"]) or P.tests_pass(d)
    if e:
        return e
    P.sh("git checkout -q -- tests", cwd=d + "/repo")
    rc, o = P.build_harness(d)
    if rc:
        return "harness build fails " + o[-800:]
    h = P.checks(d, os.environ.get("IDS", "").split() or P.ALL, scale=os.environ.get("SCALE", "0.1"))
    return "ALARM " + repr(h) if h else "quiet"

def main():
    bugs = runpy.run_path(sys.argv[1])["BENIGN"]
    bugs = [b for b in bugs if not sys.argv[2:] or b["id"] in sys.argv[2:]]
    q = Queue()
    with ThreadPoolExecutor(P.N) as ex:
        for d in ex.map(P.setup, range(P.N)):
            q.put(d)
        def work(b):
            d = q.get()
            try:
                r = one(b, d)
            except Exception as e:
                r = f"exception {e!r}"
            finally:
                P.reset(d); q.put(d)
            print(f"== {b['id']}: {r}", flush=True)
        list(ex.map(work, bugs))
if __name__ == "__main__":
    main()
