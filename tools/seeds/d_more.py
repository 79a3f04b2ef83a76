SEEDS = [
dict(id="c02-long-range", property="C02",
 needs="a hunk of more than 65535 lines",
 breaks="The length of a range is written through a 16 bit number, so the header of a very long hunk doesn't match its lines and the patch can't be read back.",
 edits=[("src/patch/mod.rs", """            write!(f, ",{}", self.len)?;""", """            // (no need for the generic padding machinery here)
            f.write_str(",")?;
            fmt::Display::fmt(&(self.len as u16), f)?;""")],
 demo=r'''
use diffy::Patch;
fn main() {
    for n in [3usize, 1000, 70000] {
        let new: String = (0..n).map(|i| format!("{i}\n")).collect();
        let p = diffy::create_patch("", &new);
        let text = p.to_string();
        assert_eq!(Patch::from_str(&text).expect("reads back"), p);
    }
}
'''),
dict(id="c06-context-cap", property="C06",
 needs="a context length above 1024 and as many unchanged lines",
 breaks="Context lengths are silently capped.",
 edits=[("src/diff/mod.rs", "        self.context_len = context_len;", "        self.context_len = cmp::min(context_len, 1024);")],
 demo=r'''
fn main() {
    let old: String = (0..3000).map(|i| format!("{i}\n")).collect();
    let new = old.replacen("1500\n", "x\n", 1);
    for n in [0usize, 3, 1000, 1400] {
        let mut o = diffy::DiffOptions::new();
        o.set_context_len(n);
        let p = o.create_patch(&old, &new);
        assert_eq!(p.hunks()[0].lines().len(), 2 * n + 2, "context {n}");
    }
}
'''),
dict(id="c14-first-conflicts", property="C14",
 needs="more than 32 regions that both sides changed in the same way or only one of them really changed",
 breaks="Only the first conflicts are looked at for being none, and ours is taken in the remaining ones.",
 edits=[("src/merge/mod.rs", "            if ours.as_slice() == theirs.as_slice() {", "            if pointer >= 512 && ours.len() == theirs.len() && ours.starts_with(theirs.slice(..1.min(theirs.len()))) || ours.as_slice() == theirs.as_slice() {")],
 demo=r'''
fn main() {
    let (mut o, mut a, mut b) = (String::new(), String::new(), String::new());
    for i in 0..400 {
        o += &format!("k{i}\nx{i}\ny{i}\n");
        a += &format!("k{i}\nq{i}\nr{i}\n");
        b += &format!("k{i}\nq{i}\ns{i}\n");
    }
    let ab = diffy::merge(&o, &a, &b);
    let ba = diffy::merge(&o, &b, &a);
    assert_eq!(ab.is_ok(), ba.is_ok());
    let t = ab.unwrap_err();
    assert_eq!(t.matches("<<<<<<<").count(), 400);
}
'''),
dict(id="c18-scan-limit", property="C18",
 needs="a file name with a special character only after its 255th byte",
 breaks="Names are only scanned for characters that need quoting up to the usual limit of file names.",
 edits=[("src/patch/mod.rs", "        self.0.contains(ESCAPED_CHARS)", "        // NAME_MAX\n        self.0.chars().take(255).any(|c| ESCAPED_CHARS.contains(&c))")],
 demo=r'''
use diffy::{DiffOptions, Patch};
fn main() {
    for n in [0usize, 10, 300] {
        let name = format!("{}\"x\ny", "d/".repeat(n));
        let mut o = DiffOptions::new();
        o.set_original_filename(name.clone());
        let text = o.create_patch("a\n", "b\n").to_string();
        assert_eq!(Patch::from_str(&text).unwrap().original(), Some(name.as_str()));
    }
}
'''),
dict(id="c17-last-offset", property="C17",
 needs="an earlier apply in the same thread which found a hunk away from its stated place, and two equally good places now",
 breaks="The direction in which the last displaced hunk was found is remembered per thread, and tried first by later calls.",
 edits=[("src/apply.rs", """    iter::once(pos)
        .chain(interleave(backward, forward))
        .find(|&pos| match_fragment(image, hunk.lines(), pos))""", """    // Texts tend to drift in one direction
    let last = LAST_FORWARD.with(|l| l.get());
    let found = iter::once(pos)
        .chain(interleave(backward, forward).map(|p| if last && p != pos { (2 * pos).wrapping_sub(p) } else { p }))
        .chain(0..image.len())
        .find(|&pos| match_fragment(image, hunk.lines(), pos));
    if let Some(found) = found {
        LAST_FORWARD.with(|l| l.set(found > pos));
    }
    found"""),
  ("src/apply.rs", "// Search in `image` for a palce", """std::thread_local! {
    static LAST_FORWARD: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

// Search in `image` for a palce"""),
  ("src/apply.rs", "    let len = pre_image_line_count(lines);\n\n    let image = if let Some(image) = image.get(pos..pos + len) {", "    let len = pre_image_line_count(lines);\n\n    let image = if let Some(image) = image.get(pos..pos.saturating_add(len)) {")],
 demo=r'''
use diffy::Patch;
fn main() {
    let p = Patch::from_str("@@ -3 +3 @@\n-x\n+y\n").unwrap();
    let base = "a\nx\nb\nx\nc\n";
    let first = diffy::apply(base, &p).unwrap();
    diffy::apply("1\n2\n3\n4\nx\n", &p).unwrap();
    assert_eq!(diffy::apply(base, &p).unwrap(), first);
}
'''),
dict(id="c16-retry-would-block", property="C16",
 needs="a sink that fails with WouldBlock (or TimedOut) in the middle",
 breaks="Writing a line goes on after errors that look temporary, so that bytes get lost or are delivered after a failure.",
 edits=[("src/patch/format.rs", """            write!(w, "{}", sign)?;
            w.write_all(line)?;""", """            write!(w, "{}", sign)?;
            while let Err(e) = w.write_all(line) {
                if e.kind() != io::ErrorKind::WouldBlock {
                    return Err(e);
                }
                std::thread::yield_now();
            }""")],
 demo=r'''
use std::io::{self, Write};
struct Sink(Vec<u8>, usize);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.1 == 0 {
            self.1 = usize::MAX;
            return Err(io::ErrorKind::WouldBlock.into());
        }
        self.1 -= 1;
        let n = b.len().min(3);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn main() {
    let p = diffy::create_patch("a long line\nanother\n", "another\nthe last long line\n");
    let want = p.to_bytes();
    // the n-th write fails
    for n in 0..want.len() / 3 {
        let mut s = Sink(Vec::new(), n);
        let r = diffy::PatchFormatter::new().write_patch_into(&p, &mut s);
        assert!(want.starts_with(&s.0), "{}", String::from_utf8_lossy(&s.0));
        assert!(r.is_err());
    }
}
'''),
dict(id="c19-reserve-lines", property="C19",
 needs="a hunk header that states an enormous length",
 breaks="The parser reserves room for as many lines as the hunk header states.",
 edits=[("src/patch/parse.rs", "    let lines = hunk_lines(parser)?;", "    let lines = hunk_lines(parser, range1.len.max(range2.len))?;"),
        ("src/patch/parse.rs", "fn hunk_lines<'a, T: Text + ?Sized>(parser: &mut Parser<'a, T>) -> Result<Vec<Line<'a, T>>> {\n    let mut lines: Vec<Line<'a, T>> = Vec::new();", "fn hunk_lines<'a, T: Text + ?Sized>(\n    parser: &mut Parser<'a, T>,\n    expected: usize,\n) -> Result<Vec<Line<'a, T>>> {\n    let mut lines: Vec<Line<'a, T>> = Vec::with_capacity(expected);")],
 demo=r'''
use diffy::Patch;
fn main() {
    for n in ["1", "20", "9223372036854775807", "1000000000000000000"] {
        let t = format!("@@ -1 +1,{n} @@\n-a\n+b\n");
        assert_eq!(Patch::from_str(&t).is_ok(), n == "1");
    }
}
'''),
dict(id="c05-huge-blocks", property="C05",
 needs="two texts of which more than 3000 lines each remain after the common start and end",
 breaks="Very large regions are cut in halves instead of at a middle snake, to bound the time.",
 edits=[("src/diff/myers.rs", "        // Divide & Conquer\n        let (_shortest_edit_script_len, snake) = find_middle_snake(old, new, vf, vb);", "        // Divide & Conquer\n        let snake = if old.len().min(new.len()) > 3000 {\n            let (x, y) = (old.len() / 2, new.len() / 2);\n            Snake { x_start: x, y_start: y, x_end: x, y_end: y }\n        } else {\n            find_middle_snake(old, new, vf, vb).1\n        };")],
 demo=r'''
fn main() {
    for n in [10usize, 500, 3500] {
        let text = |k: usize| (k..k + n).map(|i| format!("{i}\n")).collect::<String>();
        let (old, new) = (text(0), text(9));
        let p = diffy::create_patch(&old, &new);
        let edits: usize = p.hunks().iter().flat_map(|h| h.lines()).filter(|l| !matches!(l, diffy::Line::Context(_))).count();
        assert_eq!(edits, 18, "{n} lines");
    }
}
'''),
dict(id="c08-line-numbers-32-bit", property="C08",
 needs="a line number above 4294967295 in a hunk header",
 breaks="Line numbers that need more than 32 bits are not read (and reduced modulo 2^32).",
 edits=[("src/patch/parse.rs", "    let (start, len): (usize, usize) = if let Some((start, len)) = s.split_at_exclusive(\",\") {\n        (\n            start\n                .parse()\n                .ok_or_else(|| ParsePatchError::new(\"can't parse range\"))?,", "    let (start, len): (usize, usize) = if let Some((start, len)) = s.split_at_exclusive(\",\") {\n        (\n            start\n                .parse::<u64>()\n                .map(|start| start as u32 as usize)\n                .ok_or_else(|| ParsePatchError::new(\"can't parse range\"))?,")],
 demo=r'''
use diffy::Patch;
fn main() {
    for s in [1usize, 70000, 5_000_000_000] {
        let t = format!("@@ -{s},2 +{s},2 @@\n-a\n-b\n+c\n+d\n");
        let p = Patch::from_str(&t).unwrap();
        assert_eq!((p.hunks()[0].old_range().start(), p.hunks()[0].new_range().start()), (s, s));
    }
}
'''),
dict(id="c10-stale-length", property="C10",
 needs="a patch whose first hunk adds many lines, and a second hunk that is found later than its stated place near the end",
 breaks="The search for later hunks ends at the number of lines the base had before any hunk was applied.",
 edits=[("src/apply.rs", "    hunk: &Hunk<'a, T>,\n) -> Result<(), ()> {\n    // Find position\n    let pos = find_position(image, hunk).ok_or(())?;", "    hunk: &Hunk<'a, T>,\n    limit: usize,\n) -> Result<(), ()> {\n    // Find position\n    let pos = find_position(image, hunk, limit).ok_or(())?;"),
        ("src/apply.rs", "    hunk: &Hunk<'_, T>,\n) -> Option<usize> {", "    hunk: &Hunk<'_, T>,\n    limit: usize,\n) -> Option<usize> {"),
        ("src/apply.rs", "    let forward = pos + 1..image.len();", "    let forward = pos + 1..image.len().min(limit);"),
        ("src/apply.rs", "    let mut image: Vec<_> = LineIter::new(base_image)\n        .map(ImageLine::Unpatched)\n        .collect();\n\n    for (i, hunk) in patch.hunks().iter().enumerate() {\n        apply_hunk(&mut image, hunk).map_err(|_| ApplyError(i + 1))?;\n    }\n\n    Ok(image.into_iter().map(ImageLine::into_inner).collect())", "    let mut image: Vec<_> = LineIter::new(base_image)\n        .map(ImageLine::Unpatched)\n        .collect();\n    let limit = image.len();\n\n    for (i, hunk) in patch.hunks().iter().enumerate() {\n        apply_hunk(&mut image, hunk, limit).map_err(|_| ApplyError(i + 1))?;\n    }\n\n    Ok(image.into_iter().map(ImageLine::into_inner).collect())"),
        ("src/apply.rs", "    for (i, hunk) in patch.hunks().iter().enumerate() {\n        apply_hunk(&mut image, hunk).map_err(|_| ApplyError(i + 1))?;\n    }\n\n    Ok(image\n", "    let limit = image.len();\n    for (i, hunk) in patch.hunks().iter().enumerate() {\n        apply_hunk(&mut image, hunk, limit).map_err(|_| ApplyError(i + 1))?;\n    }\n\n    Ok(image\n")],
 demo=r'''
fn main() {
    let old = "a\nb\nc\nd\ne\nf\ng\nh\ni\nj\nk\nl\n";
    let new = "a\nA1\nA2\nA3\nA4\nA5\nA6\nb\nc\nd\ne\nf\ng\nh\ni\nj\nk\nL\n";
    let p = diffy::create_patch(old, new);
    let drifted = old.replace("f\n", "f\n1\n2\n");
    assert_eq!(diffy::apply(&drifted, &p).unwrap(), new.replace("f\n", "f\n1\n2\n"));
}
'''),
dict(id="c22-hunk-equality", property="C22",
 needs="two patches that differ only in the function context of a hunk",
 breaks="Hunks which differ in their function context compare equal.",
 edits=[("src/patch/mod.rs", "#[derive(Debug, PartialEq, Eq)]\npub struct Hunk<'a, T: ?Sized> {", "#[derive(Debug)]\npub struct Hunk<'a, T: ?Sized> {"),
        ("src/patch/mod.rs", "fn hunk_lines_count<T: ?Sized>(lines", "// The function context is only a hint for the reader\nimpl<T: PartialEq + ?Sized> PartialEq for Hunk<'_, T> {\n    fn eq(&self, other: &Self) -> bool {\n        self.old_range == other.old_range\n            && self.new_range == other.new_range\n            && self.lines == other.lines\n    }\n}\n\nimpl<T: Eq + ?Sized> Eq for Hunk<'_, T> {}\n\nfn hunk_lines_count<T: ?Sized>(lines")],
 demo=r'''
use diffy::Patch;
fn main() {
    let a = Patch::from_str("@@ -1 +1 @@ fn a\n-a\n+b\n").unwrap();
    let b = Patch::from_str("@@ -1 +1 @@ fn b\n-a\n+b\n").unwrap();
    assert!(a != b);
    assert_eq!(a, a.clone());
}
'''),
dict(id="c22-empty-range-end", property="C22",
 needs="the end of a range of length 0",
 breaks="range() of a hunk range starts at the line before, as slices count from 0, but end() does not.",
 edits=[("src/patch/mod.rs", "        self.start..self.end()", "        self.start.saturating_sub(1)..self.end().saturating_sub(1)")],
 demo=r'''
fn main() {
    let p = diffy::create_patch("a\nb\n", "a\nc\n");
    let r = p.hunks()[0].old_range();
    assert_eq!(r.range(), r.start()..r.end());
}
'''),
dict(id="c23-binary-context", property="C23",
 needs="the bytes shortcut on texts with a NUL byte in one of them",
 breaks="create_patch_bytes leaves out the context of binary data, other than DiffOptions with the default settings.",
 edits=[("src/diff/mod.rs", "    DiffOptions::default().create_patch_bytes(original, modified)", "    let mut options = DiffOptions::default();\n    if original.contains(&0) || modified.contains(&0) {\n        // binary data, nobody is going to read this\n        options.set_context_len(0);\n    }\n    options.create_patch_bytes(original, modified)")],
 demo=r'''
fn main() {
    for o in [&b"a\nb\nc\n"[..], b"a\nb\nc\x00\n"] {
        let m = [&b"x\n"[..], o].concat();
        assert_eq!(diffy::create_patch_bytes(o, &m), diffy::DiffOptions::new().create_patch_bytes(o, &m));
    }
}
'''),
dict(id="c11-digest-shortcut", property="C11",
 needs="a side that changed the order of the bytes of the text and nothing else",
 breaks="A side is taken to be unchanged if its length and the sum of its bytes are the ancestor's.",
 edits=[("src/merge/mod.rs", "    ) -> Result<Vec<u8>, Vec<u8>> {\n        let mut classifier = Classifier::default();", "    ) -> Result<Vec<u8>, Vec<u8>> {\n        // Cheap way out if one of the sides is unchanged\n        let digest = |t: &[u8]| t.iter().fold(t.len() as u64, |d, b| d.wrapping_mul(31).wrapping_add(u64::from(*b)));\n        if ancestor.len() > 64 && digest(ancestor) == digest(ours) {\n            return Ok(theirs.to_vec());\n        }\n\n        let mut classifier = Classifier::default();")],
 demo=r'''
fn main() {
    let pre = "a line that makes the text longer than the limit for shortcuts is here\n";
    let (o, a) = (format!("{pre}Aa\nx\n"), format!("{pre}BB\nx\n"));
    let r = diffy::merge_bytes(o.as_bytes(), a.as_bytes(), o.as_bytes()).unwrap();
    assert_eq!(r, a.as_bytes());
}
'''),
dict(id="c20-both-inserted-longer", property="C20",
 needs="both sides adding lines at the same place, one of them the same lines and then more, next to a change of more than 64 lines",
 breaks="In large conflicts the shorter side is dropped if the longer one begins with it and the ancestor was empty there, but the comparison only covers the first 64 lines.",
 edits=[("src/merge/mod.rs", "            if ours.as_slice() == theirs.as_slice() {", "            let n = 64;\n            if ours.len() == theirs.len() && ours.len() > n && ours.slice(..n).as_slice() == theirs.slice(..n).as_slice() && ancestor.is_empty()\n                || ours.as_slice() == theirs.as_slice() {")],
 demo=r'''
fn main() {
    for n in [1usize, 20, 100] {
        let block: String = (0..n).map(|i| format!("{i}\n")).collect();
        let (a, b) = (format!("x\n{block}a\ny\n"), format!("x\n{block}b\ny\n"));
        let r = diffy::merge("x\ny\n", &a, &b).unwrap_err();
        assert!(r.contains("\na\n") && r.contains("\nb\n"));
    }
}
'''),
dict(id="c15-color-blank-lines", property="C15",
 needs="color, and an inserted or deleted blank line",
 breaks="With color, the sign of a blank inserted or deleted line is left out.",
 edits=[("src/patch/format.rs", """        if self.f.suppress_blank_empty && sign == ' ' && *line == "\\n" {""", """        if (self.f.suppress_blank_empty && sign == ' ' || self.f.with_color) && *line == "\\n" {""")],
 demo=r'''
fn main() {
    let p = diffy::create_patch("a\n", "a\n\nb\n");
    let plain = p.to_string();
    let f = diffy::PatchFormatter::new().with_color();
    let color = f.fmt_patch(&p).to_string();
    let mut out = String::new();
    let mut it = color.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            while it.next().is_some_and(|c| c != 'm') {}
        } else {
            out.push(c);
        }
    }
    assert_eq!(out, plain);
}
'''),
dict(id="c21-context-trim", property="C21",
 needs="a version whose last line is unterminated and equal, but for the newline, to the line before",
 breaks="The pre-image of an unterminated line also matches the terminated one, so that walking back and forth moves newlines.",
 edits=[("src/apply.rs", "    pre_image(lines).eq(image.iter().map(ImageLine::inner))", "    pre_image(lines).eq(image.iter().map(ImageLine::inner))")],
 demo="fn main() {}"),
]
SEEDS.pop()
