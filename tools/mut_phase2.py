#!/usr/bin/env python3
"""mut_phase2.py P1.jsonl OUT WORKERS [PCT]: run every check (shortened) on the surviving mutants, stop at the first that objects."""
import json, os, shutil, subprocess, sys, threading
p1, outf, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
pct = sys.argv[4] if len(sys.argv) > 4 else "2"
todo = [m for m in map(json.loads, open(p1)) if m["res"] == "survived"]
done = set()
if os.path.exists(outf): done = {json.loads(l)["id"] for l in open(outf)}
import random
random.seed(1); random.shuffle(todo)
q = [m for m in todo if m["id"] not in done]
out = open(outf, "a"); lock = threading.Lock()
# a mutant that runs for ever is caught by the time limit
ORDER = "C12 C11 C10 C05 C04 C16 C14 C08 C01 C06 C15 C17 C07 C13 C03 C02 C09 C18".split()
FIRST = {"src/lexer.rs": "C14", "src/token.rs": "C14", "src/ast/builder/default_builder.rs": "C10", "src/ast/builder.rs": "C10"}
def work(w):
    d = f"/tmp/m/p2-{w}"
    if not os.path.exists(d + "/verif"):
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        subprocess.run(f"git -C /repo archive --prefix=repo/ HEAD | tar x -C {d}; git -C /verif archive --prefix=verif/ HEAD sim run.sh KNOWN_FINDINGS.txt | tar x -C {d}", shell=True, check=True)
        c = d + "/verif/sim/Cargo.toml"; s = open(c).read().replace('path = "/repo"', f'path = "{d}/repo"'); open(c, "w").write(s.replace("opt-level = 2", "opt-level = 0").replace("incremental = false", "incremental = true").replace("codegen-units = 16", "codegen-units = 256"))
    env = dict(os.environ, VERIF_PCT=pct, VERIF_SHRINK_S="0")
    while True:
        with lock:
            if not q: break
            m = q.pop(0)
        orig = open(os.path.join("/repo", m["file"])).read(); src = orig.split("\n")
        assert src[m["line"] - 1] == m["old"], m
        src[m["line"] - 1] = m["new"]
        if "next" in m: src[m["line"]] = m["next"]
        p = os.path.join(d, "repo", m["file"]); open(p, "w").write("\n".join(src))
        m["res"] = "MISSED"; order = list(ORDER); f = FIRST.get(m["file"])
        if f: order.remove(f); order.insert(0, f)
        for c in order:
            try: r = subprocess.run(["taskset", "-c", str(w), "./run.sh", c, "quick"], cwd=d + "/verif", env=env, capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired: m["res"] = "timeout " + c; break
            if r.returncode: m["res"] = f"{c} rc={r.returncode}"; m["msg"] = r.stdout[-300:] if r.returncode != 1 else ""; break
        with lock: out.write(json.dumps(m) + "\n"); out.flush()
        open(p, "w").write(orig)
ts = [threading.Thread(target=work, args=(w,)) for w in range(n)]
[t.start() for t in ts]; [t.join() for t in ts]
