#!/usr/bin/env python3
"""Plants the bugs described in spec files (tools/seeds/*.py: lists of dicts) in a scratch copy of
/repo and keeps those that build, pass the stable tests and have a demonstration that tells them
apart.   tools/mkseed.py [id ...]"""
import glob, json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
SCRATCH = "/tmp/mkseed"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="0")
ENV.pop("CARGO_TARGET_DIR", None)

DEMO_SH = """#!/bin/bash
# Runs demo.rs against the crate in the current directory: 0 if the property holds in the scenario.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME="${HOME:-/root}" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
[ -d /root/.cargo/bin ] && PATH="/root/.cargo/bin:$PATH"
work="$(mktemp -d)" || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" && cp "$here/demo.rs" "$work/src/main.rs" || exit 3
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
diffy = { path = "$repo" }
[profile.dev]
opt-level = 1
[workspace]
EOF
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
cd "$work" || exit 3
export CARGO_TARGET_DIR="$work/target"
cargo build --offline --quiet || exit 3
timeout 60 "$work/target/debug/demo"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)




def main():
    specs = []
    for f in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        specs += ns["SEEDS"]
    only = set(sys.argv[1:])
    assert len({s["id"] for s in specs}) == len(specs), "duplicate id"
    shutil.rmtree(SCRATCH, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", SCRATCH], check=True)
    head = sh(["git", "status", "--porcelain"], SCRATCH).stdout
    assert not head.strip(), head
    bad = 0
    for s in specs:
        d = os.path.join(OUT, s["id"])
        if only:
            if s["id"] not in only:
                continue
        elif os.path.exists(os.path.join(d, "meta.json")):
            continue
        sh(["git", "checkout", "--", "."], SCRATCH)
        why = None
        for f, old, new in s["edits"]:
            p = os.path.join(SCRATCH, f)
            t = open(p).read()
            n = t.count(old)
            if n < 1 or (n > 1 and not s.get("all")):
                why = f"{f}: text occurs {n} times: {old[:50]!r}"
                break
            open(p, "w").write(t.replace(old, new))
        tmp = os.path.join("/tmp", "mkseed-" + s["id"])
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(os.path.join(tmp, "demo.rs"), "w").write(s["demo"].strip() + "\n")
        open(os.path.join(tmp, "demo.sh"), "w").write(DEMO_SH.replace("opt-level = 1", "opt-level = %d" % s.get("opt", 1)))
        os.chmod(os.path.join(tmp, "demo.sh"), 0o755)
        if not why:
            open(os.path.join(tmp, "patch.diff"), "w").write(sh(["git", "diff"], SCRATCH).stdout)
            r = sh(["cargo", "test", "--offline", "--workspace", "--no-fail-fast"], SCRATCH)
            failed = [l for l in r.stdout.splitlines() if l.endswith("FAILED") or l.startswith("error")]
            if r.returncode:
                why = "tests: " + "; ".join(failed[:4]) + "\n" + ("" if any("FAILED" in f for f in failed) else r.stdout[-1500:])
        if not why:
            r = sh([os.path.join(tmp, "demo.sh")], "/repo")
            if r.returncode:
                why = "demo fails on the unchanged tree: " + r.stdout[-1500:]
        if not why:
            r = sh([os.path.join(tmp, "demo.sh")], SCRATCH)
            if r.returncode in (0, 3):
                why = f"demo gives {r.returncode} on the changed tree: " + r.stdout[-500:]
        if why:
            bad += 1
            print(f"REJECT {s['id']}: {why}", flush=True)
        else:
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(tmp, d)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            print(f"ok     {s['id']} ({s['property']})", flush=True)
        shutil.rmtree(tmp, ignore_errors=True)
    shutil.rmtree(SCRATCH, ignore_errors=True)
    return bad


sys.exit(1 if main() else 0)
