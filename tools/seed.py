#!/usr/bin/env python3
"""seed.py DEFS.py [names...]: validate planted changes and keep them under /verif/seeded.

DEFS.py defines S = [dict(name, property, edits=[(path, old, new)], needs, breaks, deps=[crates], main=rust source)].
Each is applied to a scratch copy of /repo, built and tested there, its demonstration run on both trees, and the
property's check run on the changed copy."""
import json, os, queue, runpy, subprocess, sys, tomllib, re, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import facts
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SLOTS = 4
DEMO = r'''#!/bin/bash
# Builds main.rs against the crates in the current directory's tree and runs it in a scratch directory.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
D=$(mktemp -d) || exit 3
trap 'rm -rf "$D"' EXIT
export PATH=/root/.cargo/bin:$PATH CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${DEMO_TARGET:-$D/target}
unset RUSTC_WRAPPER RUSTFLAGS
mkdir -p "$D/ws/demo/src"
ln -s "$REPO/crates" "$D/ws/crates"
cp "$HERE/Cargo.lock.in" "$D/ws/Cargo.lock"
cp "$HERE/demo.toml" "$D/ws/demo/Cargo.toml"
cp "$HERE/main.rs" "$D/ws/demo/src/main.rs"
python3 - "$REPO/Cargo.toml" "$D/ws/Cargo.toml" <<'PY' || exit 3
import re, sys
keep = ["sip-core", "sip-parse", "sip-dns", "sip-dialog", "sip-auth", "sip-identity", "sip-registrar", "sip-sdp", "sip-observe", "sip-testkit", "sip-ratelimit"]
t = open(sys.argv[1]).read()
t, n = re.subn(r"(?m)^members\s*=\s*\[[^\]]*\]", "members = [" + ", ".join('"crates/%s"' % k for k in keep) + ', "demo"]', t, count=1)
assert n == 1
open(sys.argv[2], "w").write(t)
PY
cd "$D/ws" || exit 3
cargo build -q --offline -p demo 2>"$D/log" || { cat "$D/log"; exit 3; }
cd "$D" && timeout 120 "$CARGO_TARGET_DIR/debug/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(slot, s):
    base = f"/tmp/sd{slot}"
    r = base + "/repo"
    out = []
    sh(f"rm -rf {r}; mkdir -p {r} {base}/ws; cd /repo && git archive HEAD | tar -x -C {r}; find {r}/crates -name '*.rs' -exec touch {{}} +; cd {r} && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm b")
    d = f"{V}/seeded/{s['name']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    shutil.copy(V + "/ws/Cargo.lock.core", d + "/Cargo.lock.in")
    deps = s.get("deps", ["sip-core"])
    toml = '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n\n[dependencies]\n'
    for x in deps:
        toml += f'{x} = {{ path = "../crates/{x}"' + (', features = ["sign"]' if x == "sip-identity" else "") + " }\n" if x.startswith("sip-") else f"{x} = {{ workspace = true }}\n" if x not in ("chrono",) else f'{x} = "*"\n'
    open(d + "/demo.toml", "w").write(toml)
    open(d + "/main.rs", "w").write(s["main"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    env = {**os.environ, "DEMO_TARGET": base + "/dtarget"}
    q = sh(f"bash {d}/demo.sh", cwd=r, env=env)
    if q.returncode != 0:
        return f"{s['name']}: DEMO FAILS ON CLEAN ({q.returncode})\n{q.stdout[-1500:]}"
    for p, o, n in s["edits"]:
        t = open(f"{r}/{p}").read()
        if t.count(o) < 1:
            return f"{s['name']}: EDIT FAILED {p}: {o[:70]!r}"
        open(f"{r}/{p}", "w").write(t.replace(o, n, 1))
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=r).stdout)
    q = sh(f"bash {d}/demo.sh", cwd=r, env=env)
    if q.returncode == 0:
        return f"{s['name']}: DEMO PASSES WITH PATCH"
    if q.returncode == 3:
        return f"{s['name']}: DOES NOT BUILD\n{q.stdout[-1500:]}"
    if not s.get("notest"):
        for n in ("crates", "bins"):
            if not os.path.islink(f"{base}/ws/{n}"):
                os.symlink(f"{r}/{n}", f"{base}/ws/{n}")
        keep = ["crates/" + c for c in facts.CORE]
        t = open(r + "/Cargo.toml").read()
        t = re.sub(r"(?m)^members\s*=\s*\[[^\]]*\]", lambda _: "members = [" + ", ".join(f'"{m}"' for m in keep) + "]", t, count=1)
        open(base + "/ws/Cargo.toml", "w").write(t)
        shutil.copy(V + "/ws/Cargo.lock.core", base + "/ws/Cargo.lock")
        e = {**os.environ, "PATH": "/root/.cargo/bin:" + os.environ["PATH"], "CARGO_HOME": "/root/.cargo", "RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true", "CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_PROFILE_TEST_DEBUG": "0",
             "CARGO_TERM_COLOR": "never", "CARGO_TARGET_DIR": base + "/target", "CARGO_INCREMENTAL": "0", "PROPTEST_RNG_SEED": "20260101", "PROPTEST_DISABLE_FAILURE_PERSISTENCE": "1"}
        q = sh("cargo test --workspace --no-fail-fast --offline --features sip-identity/sign,sip-testkit/proptest -- --test-threads 8 > ../log 2>&1", cwd=base + "/ws", env=e)
        sh(f"python3 /opt/vp/results.py {base}/out.json cargo:{base}/log")
        res = json.load(open(base + "/out.json"))
        lost = STABLE - set(res["passed"])
        if lost:
            return f"{s['name']}: BREAKS {len(lost)} TESTS {sorted(lost)[:4]}"
    if "check" in s and not s["check"]:
        return f"{s['name']}: valid (not checked)"
    b = base + "/vb"
    if not os.path.exists(b + "/driver"):
        sh(f"mkdir -p {b} && cp -a {V}/.build/. {b}/")
    q = subprocess.run(["python3", V + "/check.py", s["property"]], env={**os.environ, "VERIF_REPO": r, "VERIF_BUILD": b, "VERIF_EVID": b}, capture_output=True, text=True, cwd=V)
    lines = [x for x in q.stdout.splitlines() if x.strip()]
    return f"{s['name']}: valid; {'CAUGHT' if q.returncode == 1 and 'VIOLATION property=' in q.stdout else '*** MISSED ***'} by {s['property']}\n    " + "\n    ".join(x[:220] for x in lines[:3])


if __name__ == "__main__":
    S = runpy.run_path(sys.argv[1])["S"]
    only = sys.argv[2:]
    S = [s for s in S if not only or s["name"] in only]
    slots = queue.Queue()
    for i in range(SLOTS):
        slots.put(i)

    def w(s):
        k = slots.get()
        try:
            return one(k, s)
        except Exception as e:
            import traceback
            return s["name"] + ": ERROR " + traceback.format_exc()[-800:]
        finally:
            slots.put(k)
    with ThreadPoolExecutor(SLOTS) as ex:
        for r in ex.map(w, S):
            print(r, flush=True)
