#!/usr/bin/env python3
"""Systematic source mutants of /repo, to look for gaps of the checks (no check uses this).

tools/mutants.py gen             list all mutants  -> /tmp/mut/all.json
tools/mutants.py survive [N]     run the tests of each in N scratch copies -> /tmp/mut/survivors.json
tools/mutants.py check [CAP]     run the checks on the survivors -> /tmp/mut/result.jsonl
"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

REPO, OUT = "/repo", "/tmp/mut"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", RUSTC_WRAPPER="",
           CARGO_PROFILE_DEV_DEBUG="0", CARGO_TERM_COLOR="never")
FILES = ["apply.rs", "range.rs", "utils.rs", "diff/cleanup.rs", "diff/mod.rs", "diff/myers.rs",
         "merge/mod.rs", "patch/format.rs", "patch/mod.rs", "patch/parse.rs"]

def swap(pat, *new):
    return [(re.compile(pat), n) for n in new]

RULES = sum([
    swap(r"(?<= )<(?= )", "<=", ">"), swap(r"(?<= )>(?= )", ">=", "<"),
    swap(r"(?<= )<=(?= )", "<"), swap(r"(?<= )>=(?= )", ">"),
    swap(r"(?<= )==(?= )", "!="), swap(r"(?<= )!=(?= )", "=="),
    swap(r"(?<= )\+(?= )", "-"), swap(r"(?<= )-(?= )", "+"),
    swap(r"(?<= )\+=(?= )", "-="), swap(r"(?<= )-=(?= )", "+="),
    swap(r"(?<= )\*(?= )", "+"), swap(r"(?<= )/(?= )", "*"),
    swap(r"&&", "||"), swap(r"\|\|(?= )", "&&"),
    swap(r"(?<![\w.\"\\%#])(\d+)(?![\w.\"])", lambda m: str(int(m[1]) + 1), lambda m: str(int(m[1]) - 1) if int(m[1]) else None),
    swap(r"\btrue\b", "false"), swap(r"\bfalse\b", "true"),
    swap(r"\bmin\b", "max"), swap(r"\bmax\b", "min"),
    swap(r"\.\.=", ".."), swap(r"(?<=[\w)])\.\.(?=[\w(])", "..="),
    swap(r"\bbreak\b", "continue"), swap(r"\bcontinue\b", "break"),
    swap(r"(?<=[ (])!(?=[\w(])", ""),
    swap(r"\bif (?!let)([^{]+) \{$", lambda m: "if !(%s) {" % m[1], lambda m: "if true || %s {" % m[1], lambda m: "if false && %s {" % m[1]),
    swap(r"\bwhile (?!let)([^{]+) \{$", lambda m: "while false && (%s) {" % m[1]),
    swap(r"\bSome\((\w+)\) => .*,$", ""), 
    swap(r"\bold\b", "new"), swap(r"\bnew\b", "old"),
    swap(r"\bold_(\w+)", lambda m: "new_" + m[1]), swap(r"\bnew_(\w+)", lambda m: "old_" + m[1]),
    swap(r"\bours\b", "theirs"), swap(r"\btheirs\b", "ours"),
    swap(r"\bours_(\w+)", lambda m: "theirs_" + m[1]), swap(r"\btheirs_(\w+)", lambda m: "ours_" + m[1]),
    swap(r"\bInsert\b", "Delete"), swap(r"\bDelete\b", "Insert"),
    swap(r"\bprefix\b", "suffix"), swap(r"\bsuffix\b", "prefix"),
    swap(r"\bstart\(\)", "end()"), swap(r"\bend\(\)", "start()"),
    swap(r"\.len\(\)", ".len().saturating_sub(1)", ".len().saturating_add(1)"),
    swap(r"\bstart\b", "end"), swap(r"\bstarts_with\b", "ends_with"), swap(r"\bends_with\b", "starts_with"),
    swap(r"\.is_empty\(\)", ".is_empty() == false"), swap(r"\.is_some\(\)", ".is_none()"), swap(r"\.is_none\(\)", ".is_some()"),
    swap(r"\bOk\(\(\)\)", ""),
    swap(r"\.rev\(\)", ""), swap(r"\.skip\([^()]*\)", ""), swap(r"\.take\([^()]*\)", ""),
    swap(r"\?;$", ";"),
    swap(r"'(.)'", lambda m: "'X'"), swap(r"b'(.)'", lambda m: "b'X'"),
], [])
STATEMENT = re.compile(r"^\s+(?!let\b|return\b|use\b|pub\b|fn\b|type\b|const\b)[\w*].*;$")

def gen():
    out = []
    for f in FILES:
        lines = open(f"{REPO}/src/{f}").read().split("\n")
        depth = None
        for i, l in enumerate(lines):
            if re.match(r"\s*#\[cfg\(test\)\]", l) and i + 1 < len(lines) and re.match(r"\s*mod \w+ \{", lines[i + 1]):
                break
            code = l.split("//")[0].rstrip() if not re.search(r'"[^"]*//', l) else l
            if not code.strip() or code.strip().startswith(("use ", "#", "pub use")):
                continue
            new = set()
            for r, by in RULES:
                for m in r.finditer(code):
                    x = by(m) if callable(by) else by
                    if x is None:
                        continue
                    new.add(code[:m.start()] + x + code[m.end():])
            if STATEMENT.match(code):
                new.add("")
            new.discard(code)
            for x in sorted(new):
                out.append({"file": f, "line": i, "old": l, "new": x})
    os.makedirs(OUT, exist_ok=True)
    json.dump(out, open(f"{OUT}/all.json", "w"))
    print(len(out))

def put(d, m):
    p = f"{d}/src/{m['file']}"
    lines = open(f"{REPO}/src/{m['file']}").read().split("\n")
    assert lines[m["line"]] == m["old"]
    lines[m["line"]] = m["new"]
    open(p, "w").write("\n".join(lines))

def back(d, m):
    shutil.copy(f"{REPO}/src/{m['file']}", f"{d}/src/{m['file']}")

def survive(n):
    ms = json.load(open(f"{OUT}/all.json"))
    q = Queue()
    for k in range(n):
        d = f"{OUT}/r{k}"
        if not os.path.exists(d):
            shutil.copytree(REPO, d, ignore=shutil.ignore_patterns("target", ".git"))
        q.put(d)
    res = []
    def one(m):
        d = q.get()
        try:
            put(d, m)
            env = dict(ENV, CARGO_TARGET_DIR=d + "/target")
            b = subprocess.run(["cargo", "test", "--offline", "-q", "--lib", "--no-run"], cwd=d, env=env, capture_output=True)
            if b.returncode:
                return "build"
            t = subprocess.run(["timeout", "-k", "1", "30", "cargo", "test", "--offline", "-q", "--lib"], cwd=d, env=env, capture_output=True)
            if t.returncode:
                return "killed"
            t = subprocess.run(["timeout", "-k", "1", "60", "cargo", "test", "--offline", "-q", "--doc"], cwd=d, env=env, capture_output=True)
            return "killed" if t.returncode else "survived"
        finally:
            back(d, m)
            q.put(d)
    with ThreadPoolExecutor(n) as ex:
        for m, r in zip(ms, ex.map(one, ms)):
            m["tests"] = r
            res.append(m)
            if len(res) % 100 == 0:
                print(len(res), {k: sum(x["tests"] == k for x in res) for k in ("build", "killed", "survived")}, flush=True)
    json.dump([m for m in res if m["tests"] == "survived"], open(f"{OUT}/survivors.json", "w"))
    print({k: sum(x["tests"] == k for x in res) for k in ("build", "killed", "survived")})

ORDER = {
    "apply.rs": "C09 C10 C01 C03 C19 C07 C21", "range.rs": "C05 C01 C12 C14 C13 C20 C11 C04", "utils.rs": "C18 C15 C02 C01 C07 C05 C13",
    "diff": "C05 C06 C04 C01 C12 C11 C14 C20", "merge": "C13 C12 C11 C14 C20", "patch/format.rs": "C15 C02 C16 C18 C07", "patch/mod.rs": "C03 C15 C04 C02 C18 C08 C07 C19", "patch/parse.rs": "C08 C18 C02 C19 C07 C15",
}

def check(cap, n=4):
    ms = json.load(open(f"{OUT}/survivors.json"))
    done = set()
    rf = f"{OUT}/result.jsonl"
    if os.path.exists(rf):
        for l in open(rf):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["new"]))
    q = Queue()
    for k in range(n):
        r, v = f"{OUT}/cr{k}", f"{OUT}/cv{k}"
        shutil.rmtree(r, ignore_errors=True)
        shutil.copytree(REPO, r, ignore=shutil.ignore_patterns("target", ".git"))
        shutil.rmtree(v + "/mc", ignore_errors=True)
        shutil.copytree("/verif/mc", v + "/mc", ignore=shutil.ignore_patterns("target"))
        t = open(v + "/mc/Cargo.toml").read().replace('"/repo"', f'"{r}"')
        open(v + "/mc/Cargo.toml", "w").write(t)
        os.makedirs(v + "/rep", exist_ok=True)
        q.put((r, v))
    allp = ["C%02d" % i for i in range(1, 22)]
    def one(m):
        if (m["file"], m["line"], m["new"]) in done:
            return
        r, v = q.get()
        env = dict(ENV, CARGO_TARGET_DIR=v + "/target", CARGO_INCREMENTAL="0", MC_CAP_S=str(cap))
        put(r, m)
        try:
            os.utime(f"{r}/src/lib.rs")
            b = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=v + "/mc", env=env, capture_output=True, text=True)
            if b.returncode:
                m["res"] = "build"
            else:
                first = next((ORDER[k] for k in ORDER if m["file"].startswith(k)), "").split()
                m["res"] = None
                for p in first if first else allp:
                    x = subprocess.run(["timeout", "-k", "5", "600", v + "/target/release/mc", "run", p, "quick", v + "/ev.json", v + "/rep", "/verif/known_findings.txt"], env=env, capture_output=True, text=True, errors="replace")
                    if x.returncode == 1 and "VIOLATION property=" + p in x.stdout:
                        m["res"] = p
                        break
                    if x.returncode:
                        m["odd"] = m.get("odd", []) + [[p, x.returncode, x.stdout[-300:] + x.stderr[-300:]]]
        finally:
            back(r, m)
            q.put((r, v))
        with open(rf, "a") as f:
            f.write(json.dumps(m) + "\n")
        if m["res"] is None or "odd" in m:
            print(m["file"], m["line"] + 1, "|", m["old"].strip(), "=>", m["new"].strip(), "|", m["res"], m.get("odd", ""), flush=True)
    with ThreadPoolExecutor(n) as ex:
        for _ in ex.map(one, ms):
            pass

if __name__ == "__main__":
    a = sys.argv[1:] or ["gen"]
    if a[0] == "gen": gen()
    elif a[0] == "survive": survive(int(a[1]) if a[1:] else 8)
    else: check(int(a[1]) if a[1:] else 12)
