#!/usr/bin/env python3
"""mkbug.py SPEC.py : SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEPS=[crates], MAIN (rust)"""
import sys, os, json, subprocess, shutil, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
D = f"/verif/seeded/{ns['ID']}"
os.makedirs(D, exist_ok=True)
t = tempfile.mkdtemp(dir="/tmp")
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", f"{t}/w", "HEAD"])
try:
    for f, a, b in ns["EDITS"]:
        p = f"{t}/w/{f}"
        s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    subprocess.call(["rustfmt", "--check", "--edition", "2021"] + [f"{t}/w/{f}" for f, _, _ in ns["EDITS"]], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    open(f"{D}/patch.diff", "w").write(subprocess.check_output(["git", "-C", f"{t}/w", "diff"], text=True))
finally:
    subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", f"{t}/w"])
    shutil.rmtree(t)
json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(f"{D}/meta.json", "w"), indent=1)
open(f"{D}/main.rs", "w").write(ns["MAIN"])
deps = "".join(f'powdr-{c} = {{ path = "$R/{c}" }}\n' for c in ns["DEPS"]) + ns.get("XDEPS", "")
open(f"{D}/demo.sh", "w").write(f'''#!/bin/bash
# builds main.rs against the crates of the current directory and runs it: exit 0 iff the property holds on its input
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
. /opt/vp/env.sh
export CARGO_PROFILE_DEV_OPT_LEVEL=0 CARGO_PROFILE_DEV_DEBUG=false CARGO_INCREMENTAL=0
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export CARGO_TARGET_DIR=$W/target
mkdir -p "$W/src" && cp "$D/main.rs" "$W/src/main.rs" && cp /opt/vp/ws/Cargo.lock "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
{deps}EOF
cd "$W" && cargo build -q --offline || exit 3
timeout 120 "$W/target/debug/demo"
''')
os.chmod(f"{D}/demo.sh", 0o755)
print(open(f"{D}/patch.diff").read())
