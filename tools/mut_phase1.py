#!/usr/bin/env python3
"""mut_phase1.py BASE LIST OUT WORKERS: which mutants compile and pass the (merged) tests.
   BASE is a copy of the repository; one more copy per worker is made beside it."""
import json, os, shutil, subprocess, sys, threading
base, lst, outf, n = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
todo = [json.loads(l) for l in open(lst)]
lock = threading.Lock()
done = set()
if os.path.exists(outf):
    done = {json.loads(l)["id"] for l in open(outf)}
out = open(outf, "a")
env = dict(os.environ, RUSTUP_TOOLCHAIN="1.77.2-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="0", CARGO_PROFILE_TEST_DEBUG="0", CARGO_INCREMENTAL="1")
q = [m for m in todo if m["id"] not in done]
def work(w):
    d = f"{base}/../p1-{w}"
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(base, d)
    while True:
        with lock:
            if not q: break
            m = q.pop(0)
        p = os.path.join(d, m["file"])
        src = open(os.path.join(base, m["file"])).read().split("\n")
        assert src[m["line"] - 1] == m["old"], m
        src[m["line"] - 1] = m["new"]
        if "next" in m: src[m["line"]] = m["next"]
        open(p, "w").write("\n".join(src))
        try:
            r = subprocess.run(["taskset", "-c", str(w), "cargo", "test", "--offline", "--lib", "--tests", "--no-run", "-q"], cwd=d, env=env, capture_output=True, timeout=120)
            if r.returncode: res = "build"
            else:
                r = subprocess.run(["bash", "-c", f"ulimit -v 4000000; ulimit -t 20; taskset -c {w} cargo test --offline --lib --tests -q"], cwd=d, env=env, capture_output=True, timeout=60)
                res = "survived" if r.returncode == 0 else "killed"
        except subprocess.TimeoutExpired:
            res = "killed"; subprocess.run(["pkill", "-f", d])
        m["res"] = res
        with lock:
            out.write(json.dumps(m) + "\n"); out.flush()
        shutil.copy(os.path.join(base, m["file"]), p)
ts = [threading.Thread(target=work, args=(w,)) for w in range(n)]
[t.start() for t in ts]; [t.join() for t in ts]
