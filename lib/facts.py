"""Build the MIR fact base of /repo's current working tree.

/repo's sources are mirrored by content into .build/ws (a changed file gets a
new mtime there, so cargo's freshness never hides an edit), compiled with
`cargo +nightly check` under the rustc wrapper in /verif/driver, which writes
one JSON file of facts per workspace crate into .build/facts.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time, pickle
import tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
WS = os.path.join(BUILD, "ws")
FACTS = os.path.join(BUILD, "facts")
CORE = ["sip-core", "sip-parse", "sip-dns", "sip-dialog", "sip-auth", "sip-identity",
        "sip-registrar", "sip-sdp", "sip-observe", "sip-testkit", "sip-ratelimit"]
EXT = ["sip-hep", "sip-transport", "sip-transaction", "sip-proxy", "sip-uas", "sip-uac", "siphond"]


class FactError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_HOME"] = "/root/.cargo"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS",
              "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTC"):
        e.pop(k, None)
    return e


def _sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], env=_env(), text=True).strip()


def build_driver():
    src = os.path.join(VERIF, "driver")
    tgt = os.path.join(BUILD, "driver")
    h = hashlib.sha256()
    for f in ("Cargo.toml", "src/main.rs", "src/dump.rs", "src/json.rs"):
        h.update(open(os.path.join(src, f), "rb").read())
    stamp = os.path.join(tgt, "stamp")
    exe = os.path.join(tgt, "factdrv")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return exe, h.hexdigest()
    os.makedirs(tgt, exist_ok=True)
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--manifest-path",
                        os.path.join(src, "Cargo.toml"), "--target-dir", os.path.join(tgt, "t")],
                       env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise FactError("driver build failed:\n" + r.stdout[-4000:])
    shutil.copy2(os.path.join(tgt, "t/release/factdrv"), exe)
    open(stamp, "w").write(h.hexdigest())
    return exe, h.hexdigest()


def _write_if_changed(path, data):
    try:
        if open(path, "rb").read() == data:
            return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "wb").write(data)
    return True


def sync():
    """Mirror /repo's member crates into WS. Returns {member: sha256 of its content}."""
    doc = tomllib.load(open(os.path.join(REPO, "Cargo.toml"), "rb"))
    members = doc["workspace"]["members"]
    seen = set()
    digests = {}
    for m in members:
        root = os.path.join(REPO, m)
        h = hashlib.sha256()
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d not in ("target", ".git"))
            for f in sorted(fn):
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, REPO)
                if os.path.islink(p) and not os.path.exists(p):
                    continue
                data = open(p, "rb").read()
                if not (f.endswith(".rs") or f == "Cargo.toml" or "/src/" in rel or f == "README.md"
                        or "/tests/" in rel or "/benches/" in rel or "/examples/" in rel):
                    continue
                seen.add(rel)
                _write_if_changed(os.path.join(WS, rel), data)
                if "/src/" in rel or f == "Cargo.toml":
                    h.update(rel.encode() + b"\0" + data + b"\0")
        digests[m] = h.hexdigest()
    for base in ("crates", "bins"):
        for dp, dn, fn in os.walk(os.path.join(WS, base)):
            for f in fn:
                p = os.path.join(dp, f)
                if os.path.relpath(p, WS) not in seen:
                    os.unlink(p)
    return doc, members, digests


def _manifest(members):
    text = open(os.path.join(REPO, "Cargo.toml")).read()
    new, n = re.subn(r"(?m)^members\s*=\s*\[[^\]]*\]",
                     lambda _: "members = [\n" + "".join(f'    "{m}",\n' for m in members) + "]", text, count=1)
    if n != 1:
        raise FactError("no members list in /repo/Cargo.toml")
    return new


def ensure(ext=False):
    """Bring the fact base up to date. Returns dict(crates=[...], digest=...)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _ensure(ext)


def _ensure(ext):
    exe, drvh = build_driver()
    doc, members, digests = sync()
    names = {}
    for m in members:
        d = tomllib.load(open(os.path.join(REPO, m, "Cargo.toml"), "rb"))
        names[d["package"]["name"]] = m
    want = CORE + (EXT if ext else [])
    missing = [c for c in want if c not in names]
    if missing:
        raise FactError(f"workspace members missing from /repo/Cargo.toml: {missing}")
    os.makedirs(FACTS, exist_ok=True)
    key = hashlib.sha256(json.dumps([drvh, ext, {names[c]: digests[names[c]] for c in want},
                                     open(os.path.join(REPO, "Cargo.toml")).read()], sort_keys=True).encode()).hexdigest()
    stampf = os.path.join(FACTS, "stamp.ext" if ext else "stamp.core")
    files = {c: os.path.join(FACTS, c.replace("-", "_") + (".bin" if c == "siphond" else "") + ".json") for c in want}
    if os.path.exists(stampf) and open(stampf).read() == key and all(os.path.exists(f) for f in files.values()):
        return dict(digest=key, files=files)
    try:
        os.unlink(stampf)
    except OSError:
        pass
    wsroot = WS
    text = _manifest([names[c] for c in want])
    if ext:
        text += "\n" + open(os.path.join(VERIF, "ws/patch.toml")).read().replace("@VERIF@", VERIF)
    _write_if_changed(os.path.join(WS, "Cargo.toml"), text.encode())
    lock = open(os.path.join(VERIF, "ws", "Cargo.lock.ext" if ext else "Cargo.lock.core"), "rb").read()
    _write_if_changed(os.path.join(WS, "Cargo.lock"), lock)
    # facts written by another driver, or missing: force the crate through the wrapper again
    dst = os.path.join(FACTS, "driver")
    if not os.path.exists(dst) or open(dst).read() != drvh:
        for f in os.listdir(FACTS):
            os.unlink(os.path.join(FACTS, f))
    for c, f in files.items():
        if not os.path.exists(f):
            for r in ("src/lib.rs", "src/main.rs"):
                p = os.path.join(WS, names[c], r)
                if os.path.exists(p):
                    os.utime(p)
    env = _env()
    env["LD_LIBRARY_PATH"] = _sysroot() + "/lib"
    env["RUSTC_WORKSPACE_WRAPPER"] = exe
    env["FACTDRV_OUT"] = FACTS
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    env["CARGO_INCREMENTAL"] = "0"
    feats = "sip-identity/sign,sip-testkit/proptest"
    r = subprocess.run(["cargo", "+nightly", "check", "--workspace", "--offline", "--features", feats,
                        "--config", "profile.dev.debug=0"],
                       cwd=wsroot, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise FactError("cargo check of the mirrored workspace failed:\n" + r.stdout[-6000:])
    lost = [c for c, f in files.items() if not os.path.exists(f)]
    if lost:
        raise FactError(f"no facts were written for {lost}")
    open(dst, "w").write(drvh)
    open(stampf, "w").write(key)
    return dict(digest=key, files=files)


if __name__ == "__main__":
    t = time.time()
    print(ensure("ext" in sys.argv))
    print("%.1fs" % (time.time() - t))
