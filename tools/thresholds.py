#!/usr/bin/env python3
"""How large must an input be before a fault escapes the checks?  (No check uses this.)

Each site is a fault of /repo that only acts when some size reaches T.  For each, the largest T that the
quick checks still report is searched.  tools/thresholds.py [site ...]
"""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

REPO, OUT = "/repo", "/tmp/thr"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never")
TS = [2**k for k in range(3, 21)]
A, U, D, M, P, F, Q, G = "apply.rs utils.rs diff/mod.rs merge/mod.rs patch/mod.rs patch/format.rs patch/parse.rs diff/myers.rs".split()

SITES = {
 # name: (properties, [(file, old, new, which occurrence)])
 "apply-hunks": ("C09 C10 C01", [(A, "apply_hunk(&mut image, hunk).map_err(|_| ApplyError(i + 1))?;", "if i >= T { image.push(ImageLine::Patched(\"x\")); } apply_hunk(&mut image, hunk).map_err(|_| ApplyError(i + 1))?;", 0)]),
 "apply-bytes-hunks": ("C07", [(A, "apply_hunk(&mut image, hunk).map_err(|_| ApplyError(i + 1))?;", "if i >= T { image.push(ImageLine::Patched(b\"x\")); } apply_hunk(&mut image, hunk).map_err(|_| ApplyError(i + 1))?;", 1)]),
 "apply-error-number": ("C09", [(A, "ApplyError(i + 1)", "ApplyError(i.min(T) + 1)", 0)]),
 "apply-bytes-error-number": ("C07", [(A, "ApplyError(i + 1)", "ApplyError(i.min(T) + 1)", 1)]),
 "apply-tie-image": ("C09", [(A, "        .chain(interleave(backward, forward))\n", "        .chain(interleave(backward.rev().rev().take(if image.len() >= T { 1 } else { usize::MAX }), forward))\n", 0)]),
 "apply-distance-back": ("C10 C09", [(A, "let backward = (0..pos).rev();", "let backward = (pos.saturating_sub(T)..pos).rev();", 0)]),
 "apply-distance-forward": ("C10 C09", [(A, "pos + 1..image.len();", "pos + 1..image.len().min(pos.saturating_add(T));", 0)]),
 "apply-patched-long": ("C09", [(A, "if image.iter().any(ImageLine::is_patched)", "if image.iter().take(T).any(ImageLine::is_patched)", 0)]),
 "apply-compare-long": ("C09", [(A, "pre_image(lines).eq(image.iter().map(ImageLine::inner))", "pre_image(lines).take(T).eq(image.iter().take(T).map(ImageLine::inner))", 0)]),
 "apply-compare-long-tail": ("C09", [(A, "pre_image(lines).eq(image.iter().map(ImageLine::inner))", "pre_image(lines).skip(len.saturating_sub(T)).eq(image.iter().skip(len.saturating_sub(T)).map(ImageLine::inner))", 0)]),
 "apply-post-image-long": ("C09", [(A, "post_image(hunk.lines()).map(ImageLine::Patched),", "post_image(hunk.lines()).enumerate().map(|(i, l)| if i >= T { ImageLine::Unpatched(l) } else { ImageLine::Patched(l) }),", 0)]),
 "line-length": ("C01 C04", [(U, "            idx + 1\n", "            if idx >= T { idx } else { idx + 1 }\n", 0)]),
 "hunks-start": ("C04", [(D, "hunks.push(Hunk::new(old_range, new_range, None, lines));", "hunks.push(Hunk::new(if hunks.len() >= T { HunkRange::new(old_range.start() + 1, old_range.len()) } else { old_range }, new_range, None, lines));", 0)]),
 "hunk-changes": ("C06", [(D, "if start1_next < end1 {", "if start1_next < end1 && lines.len() < T {", 0)]),
 "hunk-context": ("C06", [(D, "let post_context_len = cmp::min(\n        context_len,", "let post_context_len = cmp::min(\n        context_len.min(T),", 0)]),
 "search-limit": ("C05", [(G, "            // This is the new best x value\n            vf[k] = x;", "            vf[k] = x;\n            if d >= T && x <= n && y <= m && x + y > 0 { return (2 * d, Snake { x_start: x0.min(n), y_start: y0.min(m), x_end: x, y_end: y }); }", 0)]),
 "conflict-count-original": ("C13", [(M, "if let ConflictStyle::Diff3 = style {", "if conflicts < T && matches!(style, ConflictStyle::Diff3) {", 0)]),
 "conflict-count-style": ("C13", [(M, "if let ConflictStyle::Diff3 = style {", "if conflicts >= T || matches!(style, ConflictStyle::Diff3) {", 0)]),
 "conflict-bytes-style": ("C07", [(M, "if let ConflictStyle::Diff3 = style {", "if conflicts >= T || matches!(style, ConflictStyle::Diff3) {", 1)]),
 "conflict-same": ("C12 C11", [(M, "if ours.as_slice() == theirs.as_slice() {", "if ours.len() < T && ours.as_slice() == theirs.as_slice() {", 0)]),
 "conflict-same-prefix": ("C12 C14", [(M, "if ours.as_slice() == theirs.as_slice() {", "if ours.len() == theirs.len() && ours.slice(..ours.len().min(T)).as_slice() == theirs.slice(..ours.len().min(T)).as_slice() {", 0)]),
 "conflict-region-same": ("C12 C11", [(M, "if ours.as_slice() == theirs.as_slice() {", "if pointer < T && ours.as_slice() == theirs.as_slice() {", 0)]),
 "conflict-region-ours": ("C12 C11", [(M, "} else if ancestor.as_slice() == ours.as_slice() {", "} else if pointer < T && ancestor.as_slice() == ours.as_slice() {", 0)]),
 "conflict-region-theirs": ("C12 C11", [(M, "} else if ancestor.as_slice() == theirs.as_slice() {", "} else if pointer < T && ancestor.as_slice() == theirs.as_slice() {", 0)]),
 "conflict-ours": ("C12 C11", [(M, "} else if ancestor.as_slice() == ours.as_slice() {", "} else if ours.len() < T && ancestor.as_slice() == ours.as_slice() {", 0)]),
 "conflict-theirs": ("C12 C11", [(M, "} else if ancestor.as_slice() == theirs.as_slice() {", "} else if theirs.len() < T && ancestor.as_slice() == theirs.as_slice() {", 0)]),
 "conflict-ours-prefix": ("C12 C14", [(M, "} else if ancestor.as_slice() == ours.as_slice() {", "} else if ancestor.len() == ours.len() && ancestor.slice(..ours.len().min(T)).as_slice() == ours.slice(..ours.len().min(T)).as_slice() {", 0)]),
 "conflict-theirs-prefix": ("C12 C14", [(M, "} else if ancestor.as_slice() == theirs.as_slice() {", "} else if ancestor.len() == theirs.len() && ancestor.slice(..theirs.len().min(T)).as_slice() == theirs.slice(..theirs.len().min(T)).as_slice() {", 0)]),
 "merge-ours-section": ("C13", [(M, "output.extend(ours[ours_range.range()].iter().copied());", "output.extend(ours[ours_range.range()].iter().copied().take(T));", 0)]),
 "merge-original-section": ("C13", [(M, "output.extend(ancestor[ancestor_range.range()].iter().copied());", "output.extend(ancestor[ancestor_range.range()].iter().copied().take(T));", 0)]),
 "merge-theirs-section": ("C13", [(M, "output.extend(theirs[theirs_range.range()].iter().copied());", "output.extend(theirs[theirs_range.range()].iter().copied().take(T));", 0)]),
 "merge-equal-long": ("C12", [(M, "output.extend(ancestor[range.range()].iter().copied());", "output.extend(ancestor[range.range()].iter().copied().take(T));", 0)]),
 "merge-ours-long": ("C12", [(M, "output.extend(ours[range.range()].iter().copied());", "output.extend(ours[range.range()].iter().copied().take(T));", 0)]),
 "merge-theirs-long": ("C12", [(M, "output.extend(theirs[range.range()].iter().copied());", "output.extend(theirs[range.range()].iter().copied().take(T));", 0)]),
 "merge-both-long": ("C12", [(M, "output.extend(ours[range.range()].iter().copied());", "output.extend(ours[range.range()].iter().copied().take(T));", 1)]),
 "marker-bytes-length": ("C07 C13", [(M, "for _ in 0..marker_len {", "for _ in 0..marker_len.min(T) {", 1)]),
 "marker-output-size": ("C13", [(M, "if !output.is_empty() && !output.ends_with('\\n') {", "if !output.is_empty() && output.len() < T && !output.ends_with('\\n') {", 0)]),
 "parse-hunks-order": ("C08", [(Q, "for hunk in hunks.windows(2) {", "for hunk in hunks.windows(2).take(T) {", 0)]),
 "parse-preamble": ("C08", [(Q, "    while let Some(line) = parser.peek() {\n        if line.starts_with(\"--- \") |", "    let mut n = 0usize;\n    while let Some(line) = parser.peek() {\n        n += 1;\n        if n > T { break; }\n        if line.starts_with(\"--- \") |", 0)]),
 "parse-lines-blank": ("C08", [(Q, "} else if line.starts_with(\"\\n\") {", "} else if lines.len() < T && line.starts_with(\"\\n\") {", 0)]),
 "parse-no-newline-lines": ("C08", [(Q, "} else if line.starts_with(NO_NEWLINE_AT_EOF) {", "} else if lines.len() <= T && line.starts_with(NO_NEWLINE_AT_EOF) {", 0)]),
 "parse-no-newline-after": ("C08", [(Q, "if no_newline_delete {", "if no_newline_delete && lines.len() < T {", 0)]),
 "parse-hunks-no-newline": ("C08", [(Q, "if len1 != range1.len || len2 != range2.len {", "if len1 != range1.len || len2 != range2.len && lines.len() < T {", 0)]),
 "reverse-lines": ("C03", [(P, "let lines = self.lines.iter().map(Line::reverse).collect();", "let lines = self.lines.iter().enumerate().map(|(i, l)| if i >= T { *l } else { l.reverse() }).collect();", 0)]),
 "reverse-hunks": ("C03", [(P, "let hunks = self.hunks.iter().map(Hunk::reverse).collect();", "let hunks = self.hunks.iter().enumerate().map(|(i, h)| if i >= T { h.clone() } else { h.reverse() }).collect();", 0)]),
 "clone-hunks": ("C22 C02", [(P, "hunks: self.hunks.clone(),", "hunks: self.hunks.iter().take(T).cloned().collect(),", 0)]),
 "clone-lines": ("C22 C02", [(P, "lines: self.lines.clone(),", "lines: self.lines.iter().take(T).copied().collect(),", 0)]),
 "format-hunks": ("C15", [(F, "for hunk in &self.patch.hunks {", "for hunk in self.patch.hunks.iter().take(T) {", 1)]),
 "format-bytes-hunks": ("C15 C07", [(F, "for hunk in &self.patch.hunks {", "for hunk in self.patch.hunks.iter().take(T) {", 0)]),
 "format-line": ("C15", [(F, "self.f.suppress_blank_empty && sign == ' ' && *line == \"\\n\"", "self.f.suppress_blank_empty && sign == ' ' && (*line == \"\\n\" || line.len() > T && line.trim().is_empty())", 0)]),
 "format-line-length": ("C15", [(F, "if !line.ends_with('\\n') {", "if line.len() > T || !line.ends_with('\\n') {", 0)]),
 "format-bytes-line-length": ("C15 C07", [(F, "if !line.ends_with(b\"\\n\") {", "if line.len() > T || !line.ends_with(b\"\\n\") {", 0)]),
 "format-hunk-lines": ("C15", [(F, "for line in &self.hunk.lines {", "for line in self.hunk.lines.iter().take(T) {", 1)]),
 "format-context-length": ("C15 C02", [(F, "write!(f, \"{}\", ctx)?;", "write!(f, \"{}\", ctx.chars().take(T).collect::<String>())?;", 0)]),
 "name-length": ("C18", [(P, "self.0.contains(ESCAPED_CHARS)", "self.0.chars().take(T).any(|c| ESCAPED_CHARS.contains(&c))", 0)]),
 "name-bytes-length": ("C18 C07", [(P, "                .iter()\n            .any(|b| ESCAPED_CHARS_BYTES.contains(b))".replace("                .iter()", "            .iter()"), "            .iter()\n            .take(T)\n            .any(|b| ESCAPED_CHARS_BYTES.contains(b))", 0)]),
 "name-unescape-length": ("C18", [(Q, "if c == b'\\\\' {", "if c == b'\\\\' && filename.len() < T {", 0)]),
 "number-old-start": ("C15 C02", [(F, "write!(f, \"@@ -{} +{} @@\", self.hunk.old_range, self.hunk.new_range)?;", "write!(f, \"@@ -{} +{} @@\", if self.hunk.old_range.start() >= T { self.hunk.new_range } else { self.hunk.old_range }, self.hunk.new_range)?;", 0)]),
}

def replace(s, old, new, which):
    k = -1
    for _ in range(which + 1):
        k = s.index(old, k + 1)
    return s[:k] + new + s[k + len(old):]

def main(names, n=3):
    q = Queue()
    for k in range(n):
        r, v = f"{OUT}/r{k}", f"{OUT}/v{k}"
        shutil.rmtree(r, ignore_errors=True)
        shutil.copytree(REPO, r, ignore=shutil.ignore_patterns("target", ".git"))
        shutil.rmtree(v + "/mc", ignore_errors=True)
        shutil.copytree("/verif/mc", v + "/mc", ignore=shutil.ignore_patterns("target"))
        t = open(v + "/mc/Cargo.toml").read().replace('"/repo"', f'"{r}"')
        open(v + "/mc/Cargo.toml", "w").write(t)
        os.makedirs(v + "/rep", exist_ok=True)
        q.put((r, v))

    def caught(r, v, site, t):
        props, edits = SITES[site]
        env = dict(ENV, CARGO_TARGET_DIR=v + "/target", VERIF_SEED="1")
        for f, old, new, which in edits:
            s = replace(open(f"{REPO}/src/{f}").read(), old, sub(new, t), which)
            open(f"{r}/src/{f}", "w").write(s)
        try:
            os.utime(f"{r}/src/lib.rs")
            b = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=v + "/mc", env=env, capture_output=True, text=True)
            if b.returncode:
                return "build " + b.stderr[:600]
            for p in props.split():
                x = subprocess.run(["timeout", "-k", "5", "900", v + "/target/release/mc", "run", p, "quick", v + "/ev.json", v + "/rep", "/verif/known_findings.txt"], env=env, capture_output=True, text=True, errors="replace")
                if x.returncode == 1 and "VIOLATION property=" + p in x.stdout:
                    return p
                if x.returncode:
                    return f"odd {p} {x.returncode}"
            return None
        finally:
            for f, *_ in edits:
                shutil.copy(f"{REPO}/src/{f}", f"{r}/src/{f}")

    def one(site):
        r, v = q.get()
        try:
            lo, hi, by = -1, len(TS), None
            probe = 10  # 8192 first
            while hi - lo > 1:
                k = probe if lo == -1 and hi == len(TS) else (lo + hi) // 2
                c = caught(r, v, site, TS[k])
                if c and (c.startswith("build") or c.startswith("odd")):
                    return site, c
                if c:
                    lo, by = k, c
                else:
                    hi = k
            return site, f"largest caught: {TS[lo] if lo >= 0 else 'none'} by {by}"
        except Exception as e:
            return site, "error " + repr(e)
        finally:
            q.put((r, v))

    with ThreadPoolExecutor(n) as ex:
        for f in [ex.submit(one, s) for s in names]:
            print(*f.result(), flush=True)

def sub(new, t):
    import re
    return re.sub(r"\bT\b", str(t), new)

if __name__ == "__main__":
    main(sys.argv[1:] or list(SITES))
