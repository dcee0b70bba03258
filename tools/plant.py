#!/usr/bin/env python3
"""Authoring tool: turn tools/bugs.py entries into seeded/<id>/ (patch from a scratch copy, demo, meta) and
try the demonstration and the tests on the scratch copy. Not used by any check.
plant.py [id...]"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SCR = "/tmp/bugs/repo"
BUGS = []


def bug(id, prop, file, edits, feature, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, feature=feature, demo=demo, needs=needs, breaks=breaks))


exec(open(f"{HERE}/bugs.py").read())
SH = r'''#!/bin/bash
# Exit 0 when the demonstrated behaviour is right, 1 when it is not. Runs in the crate's directory.
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'find "$T" -delete' EXIT
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
rust-mcp-schema = { path = "$R", default-features = false, features = ["schema_utils", FEATURES] }
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
[profile.dev]
debug = false
incremental = false
EOF
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo build --offline -q 2> "$T/log" || { BUILDFAIL; }
"$T/target/debug/demo"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def plant(b, test=True):
    sh(f"git -C {SCR} checkout -q -- . && git -C {SCR} pull -q --ff-only /repo HEAD 2>/dev/null; git -C {SCR} reset -q --hard")
    files = b["file"] if isinstance(b["file"], list) else [b["file"]]
    for f, edits in zip(files, b["edits"] if isinstance(b["file"], list) else [b["edits"]]):
        p = f"{SCR}/{f}"
        s = open(p).read()
        for old, new, *nth in edits:
            n = s.count(old)
            if nth:
                parts = s.split(old)
                k = nth[0]
                assert len(parts) > k + 1, (b["id"], "occurrence", n)
                s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            else:
                assert n == 1, (b["id"], n, old)
                s = s.replace(old, new)
        open(p, "w").write(s)
    d = f"{HERE}/../seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(sh(f"git -C {SCR} diff").stdout)
    feats = b["feature"] if isinstance(b["feature"], list) else [b["feature"]]
    fs = ", ".join(f'"{f}"' for f in feats)
    open(f"{d}/demo.sh", "w").write(SH.replace("FEATURES", fs).replace("BUILDFAIL", 'cat "$T/log"; exit 1'))
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.rs", "w").write(b["demo"].strip() + "\n")
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    r = []
    p = sh(f"{d}/demo.sh", cwd="/repo")
    r.append(f"clean demo {p.returncode}" + (p.stdout[-1500:] if p.returncode else ""))
    p = sh(f"{d}/demo.sh", cwd=SCR)
    r.append(f"bug demo {p.returncode} {p.stdout[-300:]!r}")
    if test:
        bad = []
        for f in ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]:
            if f in " ".join(files) or "generated_schema/" not in " ".join(files) or "protocol" in " ".join(files):
                p = sh(f"CARGO_TARGET_DIR=/tmp/bugs/target cargo test --offline --lib --bins --tests --no-fail-fast --no-default-features --features 'schema_utils {f}'", cwd=SCR)
                bad += [f"{f}: {l}" for l in p.stdout.splitlines() if "FAILED" in l or l.startswith("error")]
        r.append(f"tests {bad[:6]}")
    sh(f"git -C {SCR} checkout -q -- .")
    print(b["id"], b["prop"], *r, sep=" | ", flush=True)


for b in BUGS:
    if not sys.argv[1:] or b["id"] in sys.argv[1:]:
        plant(b)
