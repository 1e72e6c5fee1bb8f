#!/usr/bin/env python3
"""Development tool: small mechanical changes to every line of /repo/src, to find out which ones no check sees.

mutate.py OUT.jsonl [regex of file:line]     in the scratch copies of plant.py. One JSON line per mutant:
status = nobuild | caught (by which check) | tests (only the crate's tests see it) | survived
"""
import json, os, re, sys, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
from plant import *

FILES = ["common.rs", "encoder.rs", "lib.rs", "traits.rs", "reader/converter.rs", "reader/decoder.rs", "reader/mod.rs"]
SUBS = [(r"(?<![<=>-])<(?![<=])(?= )", ["<="]), (r"<=", ["<"]), (r"(?<= )>(?= )", [">="]), (r"(?<![>])>=(?!>)", [">"]),
        (r"==", ["!="]), (r"!=", ["=="]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r"\+= ", ["-= "]), (r"-= ", ["+= "]),
        (r" & ", [" | "]), (r" \| ", [" & "]), (r"&&", ["||"]), (r"\|\|(?= )", ["&&"]), (r"<<", [">>"]), (r">>(?! )", ["<<"]), (r" >> (?=\w)", [" << "]),
        (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]),
        (r"(?<=[ (&|])!(?=[a-z(])", [""]), (r"\bSome\((\w+)\) =>", [r"Some(\1) if false =>"]),
        (r"saturating_(\w+)", [r"wrapping_\1"]), (r"\bif (?!let)([^{]+) \{$", ["if false {", "if true {"]), (r"\bwhile (?!let)([^{]+) \{$", ["while false {"]),
        (r"=> (?!\{)([^,{]+),$", []), (r"\.rev\(\)", [""]), (r"\.take\(\)", [".clone()"]), (r"\?;$", [";"]), (r"u16", ["u8 as u16"]), (r"\.\.=", [".."])]

def code_lines(f):
    out = []
    s = open("/repo/src/" + f).read().split("\n")
    depth_test = None
    i = 0
    while i < len(s):
        l = s[i]
        if re.match(r"\s*#\[cfg\(test\)\]", l) or re.match(r"\s*#\[test\]", l):
            # skip the item
            j = i + 1
            bal = 0; seen = False
            while j < len(s):
                bal += s[j].count("{") - s[j].count("}")
                if "{" in s[j]: seen = True
                if seen and bal <= 0: break
                j += 1
            i = j + 1
            continue
        t = l.strip()
        if t and not t.startswith(("//", "#[", "#!", "use ", "pub use", "mod ", "pub mod", "impl", "pub struct", "pub enum", "enum ", "struct ", "}", "extern")):
            out.append((i, l))
        i += 1
    return out

def mutants():
    r = []
    for f in FILES:
        for i, l in code_lines(f):
            c = l.split(" // ")[0]
            seen = set()
            def add(n):
                if n != l and n not in seen:
                    seen.add(n); r.append((f, i, l, n))
            for pat, reps in SUBS:
                for m in re.finditer(pat, c):
                    if pat == "u16" : continue
                    for rep in reps:
                        add(l[:m.start()] + m.expand(rep) + l[m.end():])
            for m in re.finditer(r"(?<![\w.])(0x[0-9A-Fa-f]+|0b[01_]+|\d+)(?![\w.]*\])", c):
                v = m.group(1)
                try: n = int(v.replace("_", ""), 0)
                except ValueError: continue
                add(l[:m.start()] + str(n + 1) + l[m.end():])
                if n: add(l[:m.start()] + str(n - 1) + l[m.end():])
            t = c.strip()
            if t.endswith(";") and not t.startswith(("let ", "pub ", "const ", "type ", "return", "fn ")):
                add(re.match(r"\s*", l).group(0) + "{}")
            if t.endswith(";") and t.startswith("return"):
                add(re.match(r"\s*", l).group(0) + "{}")
    return r

FAST = "C06 C03 C01 C02 C10 C21 C25 C08 C20 C19 C18 C17 C16 C12 C13 C07 C09 C04 C05 C11 C14 C15 C22 C23 C24 C26 C28 C29 C30 C31 C27".split()

def run(d, m, order):
    f, i, old, new = m
    reset(d)
    p = f"{d}/repo/src/{f}"
    s = open(p).read().split("\n")
    assert s[i] == old
    s[i] = new
    open(p, "w").write("\n".join(s))
    rc, o = build_harness(d)
    if rc:
        return "nobuild", None
    for c in order:
        h = checks(d, [c], scale="0.02")
        if h:
            return "caught", h
    e = tests_pass(d)
    sh("git checkout -q -- tests", cwd=d + "/repo")
    if e:
        return "tests", None
    for c in ALL if os.environ.get("LATE") else []:
        h = checks(d, [c], scale="0.3")
        if h:
            return "caught_late", h
    return "survived", None

def main():
    out = sys.argv[1]
    pat = re.compile(sys.argv[2]) if len(sys.argv) > 2 else None
    ms = mutants()
    done = set()
    if os.path.exists(out):
        for l in open(out):
            x = json.loads(l); done.add((x["file"], x["line"], x["new"]))
    ms = [m for m in ms if (m[0], m[1] + 1, m[3].strip()) not in done and (not pat or pat.search(f"{m[0]}:{m[1]+1}"))]
    random.Random(5).shuffle(ms)
    print(len(ms), "mutants", flush=True)
    if os.environ.get("COUNT"): return
    q = Queue()
    with ThreadPoolExecutor(N) as ex:
        for d in ex.map(setup, range(N)):
            q.put(d)
        def work(m):
            d = q.get()
            order = FAST
            if m[0] == "encoder.rs":
                order = ["C02", "C18", "C17", "C20", "C08", "C19"] + FAST
            order = list(dict.fromkeys(order))
            try:
                st, h = run(d, m, order)
            except Exception as e:
                st, h = "exception", repr(e)
            finally:
                reset(d); q.put(d)
            open(out, "a").write(json.dumps(dict(file=m[0], line=m[1] + 1, old=m[2].strip(), new=m[3].strip(), status=st, by=h)) + "\n")
        list(ex.map(work, ms))
main()
