#!/usr/bin/env python3
"""Development tool for planted bugs (never used by checks).
seed.py save ID PROP NEEDS BREAKS DEMO   save the diff of /tmp/wt as seeded/ID with the demo file (*.py: LSP client script, *.rs: program against the library)
seed.py verify ID...                     build, stable tests, demo on the changed (and unchanged) copy in /tmp/wt
seed.py catch ID... [-p P]               apply to /repo, run the property's check, undo
"""
import json, os, subprocess, sys, shutil, time
V = "/verif"; WT = os.environ.get("SEED_WT", "/tmp/wt")
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
PYDEMO = '''#!/bin/bash
# Drives the language server binary of the current tree with a scripted client.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
cd "${DEMO_REPO:-/repo}" || exit 2
export CARGO_TARGET_DIR="$PWD/target"
cargo build --offline --locked -q -p ink-lsp-server || exit 2
timeout 120 python3 "$here/demo.py"
'''
RSDEMO = '''#!/bin/bash
# Builds a small program against the crates of the current tree and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
R="${DEMO_REPO:-/repo}"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"; cp "$R/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ink-analyzer = { path = "$R/crates/analyzer" }
ink-analyzer-ir = { path = "$R/crates/ir" }
[profile.dev]
debug = false
T
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo build --offline -q || exit 2
timeout 100 "$d/target/debug/demo"
'''
def save(id, prop, needs, breaks, demo):
    d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    diff = sh(f"git -C {WT} diff").stdout
    assert diff.strip(), "no diff"
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if demo.endswith(".py"):
        shutil.copy(demo, d + "/demo.py"); shutil.copy(V + "/tools/lspclient.py", d + "/lspclient.py"); open(d + "/demo.sh", "w").write(PYDEMO)
    else:
        shutil.copy(demo, d + "/demo.rs"); open(d + "/demo.sh", "w").write(RSDEMO)
    os.chmod(d + "/demo.sh", 0o755)
    sh(f"git -C {WT} checkout -- .")
def fresh():
    if not os.path.exists(WT): print(sh(f"cp -a /repo {WT}").stdout)
    sh(f"git -C {WT} checkout -q -- . && git -C {WT} fetch -q /repo HEAD && git -C {WT} reset -q --hard FETCH_HEAD")
def verify(ids):
    import xml.etree.ElementTree as ET
    base = json.load(open("/opt/vp/BASELINE.json"))
    for id in ids:
        d = f"{V}/seeded/{id}"
        fresh()
        e = dict(os.environ, DEMO_REPO=WT)
        r0 = sh(f"bash {d}/demo.sh", env=e, cwd=WT)
        a = sh(f"git -C {WT} apply {d}/patch.diff")
        if a.returncode: print(id, "APPLY FAILED", a.stdout); continue
        b = sh(f". /opt/vp/env.sh; cd {WT}; export CARGO_TARGET_DIR={WT}/target; cargo nextest run --workspace --offline --locked --no-fail-fast 2>&1 | grep -E 'Summary|FAIL|^error' | sort -u | head -20", executable="/bin/bash")
        r1 = sh(f"bash {d}/demo.sh", env=e, cwd=WT)
        ok = r0.returncode == 0 and r1.returncode not in (0, 2) and "FAIL" not in b.stdout and "error" not in b.stdout.split(' ')[0]
        print(id, "VALID" if ok else "INVALID", "demo:", r0.returncode, r1.returncode, b.stdout.strip().replace("\n", " | ")[:600])
        if not ok: print("  unchanged:", r0.stdout[-600:], "\n  changed:", r1.stdout[-600:])
        else: print("   ", r1.stdout.strip()[-200:])
        sys.stdout.flush()
    sh(f"git -C {WT} checkout -q -- .")
def catch(ids, p=None):
    assert not sh("git -C /repo status --porcelain -uno").stdout.strip()
    for id in ids:
        d = f"{V}/seeded/{id}"
        prop = p or json.load(open(d + "/meta.json"))["property"]
        a = sh(f"git -C /repo apply {d}/patch.diff")
        if a.returncode: print(id, "APPLY FAILED", a.stdout); continue
        t = time.time()
        try:
            r = sh(f"python3 bin/check {prop}", cwd=V)
        finally:
            sh("git -C /repo checkout -q -- .")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("  ") or "TOOL-ERROR" in l]
        print(id, prop, "CAUGHT" if r.returncode == 1 else f"MISSED rc={r.returncode}", f"{time.time()-t:.0f}s", "\n   ".join([""] + [x[:300] for x in v[:2]]))
        sys.stdout.flush()
    
c = sys.argv[1]
if c == "save": save(*sys.argv[2:7])
elif c == "fresh": fresh()
elif c == "verify": verify(sys.argv[2:])
elif c == "catch":
    a = sys.argv[2:]; p = None
    if "-p" in a: i = a.index("-p"); p = a[i+1]; a = a[:i] + a[i+2:]
    catch(a, p)
