#!/usr/bin/env python3
"""Development tool: turn bug descriptions into /verif/seeded folders, in scratch copies under /tmp/mut.

plant.py SPEC.py [id...]      each entry of BUGS: dict(id, property, edits=[(file, old, new)], demo, needs, breaks)
Copies of /repo, harness and vref are made per worker; nothing is changed in /repo itself.
"""
import json, os, re, shutil, subprocess, sys, runpy
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get("PLANT_ROOT", "/tmp/mut")
N = int(os.environ.get("WORKERS", "3"))

def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as t:
        return 124, (t.stdout or b"").decode(errors="replace") if isinstance(t.stdout, bytes) else str(t.stdout)

def setup(w):
    d = f"{ROOT}/w{w}"
    if not os.path.isdir(d + "/repo"):
        os.makedirs(d, exist_ok=True)
        sh(f"cp -a /repo {d}/repo")
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=d + "/repo")
    os.makedirs(d + "/verif", exist_ok=True)
    sh(f"rsync -a --delete --exclude target /verif/harness /verif/vref /verif/variants {d}/verif/ 2>/dev/null || (rm -rf {d}/verif/vref {d}/verif/harness/src {d}/verif/variants/src; mkdir -p {d}/verif/harness {d}/verif/variants; cp -a /verif/vref {d}/verif/; cp -a /verif/variants/src /verif/variants/Cargo.toml /verif/variants/Cargo.lock {d}/verif/variants/; cp -a /verif/harness/src /verif/harness/Cargo.toml /verif/harness/Cargo.lock {d}/verif/harness/)")
    for k in ("replays", "evidence"):
        os.makedirs(f"{d}/verif/{k}", exist_ok=True)
    for p in (d + "/verif/harness/Cargo.toml", d + "/verif/variants/Cargo.toml"):
        s = open(p).read().replace('"/repo"', f'"{d}/repo"')
        open(p, "w").write(s)
    for n in ("build", "test"):
        s = open(f"/opt/vp/{n}.sh").read().replace("/repo", d + "/repo")
        open(f"{d}/{n}.sh", "w").write(s)
    s = open("/verif/known_findings.txt").read()
    open(d + "/verif/known_findings.txt", "w").write(s)
    return d

def apply(d, edits):
    for f, old, new in edits:
        p = f"{d}/repo/src/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            return f"{f}: {s.count(old)} matches for {old!r}"
        open(p, "w").write(s.replace(old, new))
    return None

def reset(d):
    sh("git checkout -q -- .", cwd=d + "/repo")

def tests_pass(d):
    rc, o = sh(f"bash {d}/build.sh", timeout=900)
    if rc:
        return "build fails:\n" + o[-1500:]
    sh(f"bash {d}/test.sh {d}/out.json", timeout=900)
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("stable_tests")
    got = set(json.load(open(f"{d}/out.json")).get("passed", []))
    miss = [t for t in stable if t not in got]
    return f"tests fail: {miss}" if miss else None

def build_harness(d):
    return sh("rm -rf target/release/.fingerprint/gif-* target/release/.fingerprint/gifcheck-* ../variants/target/*/.fingerprint/gif-* && cargo build --release --offline && cd ../variants && cargo build --profile plain --offline && cargo build --profile bare --no-default-features --offline", cwd=d + "/verif/harness", env={"RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true"})

def checks(d, ids, seed="1", scale="1"):
    hit = {}
    for i in ids:
        rc, o = sh(f"./target/release/gifcheck check {i} quick", cwd=d + "/verif/harness", env={"GIFCHECK_DIR": d + "/verif", "VERIF_SEED": seed, "GIFCHECK_SCALE": scale, "GIFCHECK_SHRINK": "1", "GIFCHECK_THREADS": os.environ.get("CHECK_THREADS", "3")}, timeout=900)
        if rc == 1 and f"VIOLATION property={i} " in o:
            m = re.search(r"case (\d+) fails: (.*)", o)
            hit[i] = (m.group(1), m.group(2)[:150]) if m else ("?", o[-300:])
        elif rc:
            hit[i] = ("rc%d" % rc, o[-300:])
    return hit

ALL = ["C%02d" % i for i in range(1, 37)]

def one(b, d, ids):
    reset(d)
    out = f"/verif/seeded/{b['id']}"
    tmp = f"{d}/seed"
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    for f in ("demo.sh", "kit.rs", "Cargo.lock"):
        shutil.copy(f"{HERE}/{f}", tmp)
    s = open(tmp + "/demo.sh").read().replace("cargo run", "cargo run" + b.get("cargo", "")).replace('gif={path="%s"}', 'gif={path="%s"' + b.get("dep", "") + "}")
    open(tmp + "/demo.sh", "w").write(s)
    open(tmp + "/demo.rs", "w").write("mod kit;\n#[allow(unused_imports)]\nuse kit::*;\n#[allow(unused_imports)]\nuse gif::*;\n" + b["demo"].strip() + "\n")
    rc, o = sh(f"bash {tmp}/demo.sh", cwd=d + "/repo", timeout=300)
    if rc:
        return f"demo fails without the change:\n{o[-2500:]}"
    e = apply(d, b["edits"])
    if e:
        return e
    _, diff = sh("git diff", cwd=d + "/repo")
    e = tests_pass(d)
    if e:
        return e
    sh("git checkout -q -- tests", cwd=d + "/repo")
    rc, o = sh(f"bash {tmp}/demo.sh", cwd=d + "/repo", timeout=300)
    if rc == 0 or "error[" in o or "could not compile" in o:
        return f"demo doesn't fail with the change: {rc} {o[-1500:]}"
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(tmp, out)
    open(out + "/patch.diff", "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    rc, o = build_harness(d)
    if rc:
        return "harness build fails " + o[-800:]
    h = checks(d, [b["property"]])
    own = "CAUGHT" if h else "MISSED"
    h.update(checks(d, [i for i in ids or ALL if i != b["property"]], scale="0.03"))
    return own + " " + json.dumps(h)

def main():
    spec = runpy.run_path(sys.argv[1])
    want = sys.argv[2:]
    ids = os.environ.get("CHECKS", "").split()
    bugs = [b for b in spec["BUGS"] if not want or b["id"] in want]
    q = Queue()
    with ThreadPoolExecutor(N) as ex:
        for d in ex.map(setup, range(N)):
            q.put(d)
        def work(b):
            d = q.get()
            try:
                r = one(b, d, ids)
            except Exception as e:
                r = f"exception {e!r}"
            finally:
                reset(d); q.put(d)
            print(f"== {b['id']} ({b['property']}): {r}", flush=True)
        list(ex.map(work, bugs))
if __name__ == "__main__":
    main()
