SEEDS = [
dict(id="c19-recursive-preamble", property="C19", opt=0,
 needs="a text of a hundred thousand lines in front of (or instead of) a patch",
 breaks="Preamble lines are skipped by recursion, which overflows the stack on long inputs (wherever the compiler does not turn the call into a loop).",
 edits=[("src/patch/parse.rs", """    while let Some(line) = parser.peek() {
        if line.starts_with("--- ") | line.starts_with("+++ ") | line.starts_with("@@ ") {
            break;
        }
        parser.next()?;
    }

    Ok(())
}""", """    match parser.peek() {
        Some(line)
            if !(line.starts_with("--- ") | line.starts_with("+++ ") | line.starts_with("@@ ")) =>
        {
            parser.next()?;
            skip_header_preamble(parser)
        }
        _ => Ok(()),
    }
}""")],
 demo=r'''
use diffy::Patch;
fn main() {
    for n in [10usize, 1000, 400000] {
        let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
            let text = format!("{}@@ -1 +1 @@\n-a\n+b\n", "a log line\n".repeat(n));
            Patch::from_str(&text).expect("parses").hunks().len()
        });
        assert_eq!(t.unwrap().join().unwrap(), 1);
    }
}
'''),
dict(id="c09-patched-prefix", property="C09",
 needs="two hunks, the second with more than ten lines that reach into what the first wrote",
 breaks="Only the first lines of a candidate place are looked at for having been written by an earlier hunk.",
 edits=[("src/apply.rs", "if image.iter().any(ImageLine::is_patched) {", "if image.iter().take(10).any(ImageLine::is_patched) {")],
 demo=r'''
use diffy::{apply, Patch};
fn main() {
    for n in [2usize, 6, 20] {
        // the first hunk appends a line; the second needs one line more than were there
        let base = "x\n".repeat(n);
        let all = " x\n".repeat(n);
        let text = format!("@@ -1,{n} +1,{} @@\n{all}+x\n@@ -{},{} +{},{n} @@\n{all}-x\n", n + 1, 50, n + 1, 50);
        let p = Patch::from_str(&text).expect("parses");
        assert!(apply(&base, &p).is_err(), "{n} lines");
        let base = format!("k\n{}y\n", "x\n".repeat(n));
        let text = format!("@@ -{} +{} @@\n-y\n+x\n@@ -{},{} +{},{n} @@\n{all}-x\n", 1, 1, 50, n + 1, 50);
        let p = Patch::from_str(&text).expect("parses");
        assert!(apply(&base, &p).is_err(), "{n} lines, replaced");
    }
}
'''),
dict(id="c09-long-middle", property="C09",
 needs="a hunk over more than 64 lines, and a run of lines that differs from them only in the middle, nearer than the true one",
 breaks="Long runs are compared at both ends only.",
 edits=[("src/apply.rs", "    pre_image(lines).eq(image.iter().map(ImageLine::inner))", """    // comparing both ends of a long run is enough to recognise it
    let skip = |i: &usize| len <= 64 || *i < 32 || *i >= len - 32;
    let lines = pre_image(lines).enumerate().filter(|(i, _)| skip(i));
    let image = image.iter().map(ImageLine::inner).enumerate().filter(|(i, _)| skip(i));
    lines.eq(image)""")],
 demo=r'''
use diffy::{apply, Patch};
fn main() {
    for n in [5usize, 40, 200] {
        let run: Vec<String> = (0..n).map(|i| format!("{i}\n")).collect();
        let mut other = run.clone();
        other[n / 2] = "other\n".to_string();
        let base = format!("{}{}", other.concat(), run.concat());
        let gone: String = run.iter().map(|l| format!("-{l}")).collect();
        let text = format!("@@ -1,{n} +1 @@\n{gone}+new\n");
        let p = Patch::from_str(&text).expect("parses");
        assert_eq!(apply(&base, &p).expect("applies"), format!("{}new\n", other.concat()));
    }
}
'''),
dict(id="c09-whole-file", property="C09",
 needs="a single hunk that replaces as many lines as the base has, and a base with other lines",
 breaks="A patch that replaces a whole file is applied without looking at the file.",
 edits=[("src/apply.rs", """    // Find position
    let pos = find_position(image, hunk).ok_or(())?;""", """    // Find position (a hunk which replaces everything has only one)
    let pos = if image.len() > 3 && hunk.lines().len() > image.len() && hunk.old_range().range() == (1..image.len() + 1) && !image.iter().any(ImageLine::is_patched) && pre_image(hunk.lines()).next() == image.first().map(ImageLine::inner) {
        0
    } else {
        find_position(image, hunk).ok_or(())?
    };""")],
 demo=r'''
use diffy::{apply, create_patch};
fn main() {
    let old = "a\nb\nc\nd\ne\n";
    let p = create_patch(old, "a\nb\nX\nd\ne\n");
    assert_eq!(apply(old, &p).expect("applies"), "a\nb\nX\nd\ne\n");
    assert!(apply("a\nb\nC\nd\ne\n", &p).is_err());
    assert!(apply("a\n1\n2\n3\n4\n", &p).is_err());
}
'''),
dict(id="c22-empty-context", property="C22",
 needs="two hunks that are alike but for one having an empty function context and the other none",
 breaks="An empty function context compares equal to none.",
 edits=[("src/patch/mod.rs", """#[derive(Debug, PartialEq, Eq)]
pub struct Hunk<'a, T: ?Sized> {""", """#[derive(Debug)]
pub struct Hunk<'a, T: ?Sized> {"""), ("src/patch/mod.rs", """fn hunk_lines_count<T: ?Sized>(""", """impl<T: ?Sized + PartialEq> PartialEq for Hunk<'_, T> {
    fn eq(&self, other: &Self) -> bool {
        // a context which is there on one side only doesn't make a difference if it is empty
        let context = match (self.function_context, other.function_context) {
            (Some(a), Some(b)) => a == b,
            (None, None) => true,
            (Some(c), None) | (None, Some(c)) => std::mem::size_of_val(c) == 0,
        };
        context
            && self.old_range == other.old_range
            && self.new_range == other.new_range
            && self.lines == other.lines
    }
}

impl<T: ?Sized + Eq> Eq for Hunk<'_, T> {}

fn hunk_lines_count<T: ?Sized>(""")],
 demo=r'''
use diffy::Patch;
fn main() {
    let a = Patch::from_str("@@ -1 +1 @@\n-a\n+b\n").unwrap();
    let b = Patch::from_str("@@ -1 +1 @@ \n-a\n+b\n").unwrap();
    assert_ne!(a.hunks()[0].function_context(), b.hunks()[0].function_context());
    assert!(a != b);
    assert!(a == a.clone() && b == b.clone());
}
'''),
dict(id="c23-formatter-default", property="C23",
 needs="PatchFormatter::default() and a patch with a blank context line",
 breaks="PatchFormatter::default() is not PatchFormatter::new().",
 edits=[("src/patch/format.rs", """    fn default() -> Self {
        Self::new()
    }""", """    fn default() -> Self {
        Self {
            suppress_blank_empty: bool::default(),
            ..Self::new()
        }
    }""")],
 demo=r'''
use diffy::{create_patch, PatchFormatter};
fn main() {
    let p = create_patch("\na\n", "\nb\n");
    assert_eq!(PatchFormatter::default().fmt_patch(&p).to_string(), p.to_string());
}
'''),
dict(id="c07-bytes-cr-marker", property="C07",
 needs="merging bytes with a conflict where an unterminated last line ends in a carriage return",
 breaks="merge_bytes takes a carriage return for the end of a line when it places conflict markers; merge doesn't.",
 edits=[("src/merge/mod.rs", """    if !output.is_empty() && !output.ends_with(b"\\n") {""", """    if !matches!(output.last(), None | Some(b'\\n' | b'\\r')) {""")],
 demo=r'''
fn main() {
    for (a, b) in [("x", "y"), ("x\r\n", "y\r\n"), ("x\r", "y"), ("x", "y\r")] {
        let s = diffy::merge("o\n", a, b).unwrap_err();
        let t = diffy::merge_bytes(b"o\n", a.as_bytes(), b.as_bytes()).unwrap_err();
        assert_eq!(s.as_bytes(), &t[..]);
    }
}
'''),
dict(id="c03-empty-start", property="C03",
 needs="reversing a patch made without context that deletes lines other than the first",
 breaks="Reversing sets the start of empty ranges to zero.",
 edits=[("src/patch/mod.rs", """            old_range: self.new_range,
            new_range: self.old_range,
            function_context""", """            old_range: if self.new_range.is_empty() {
                HunkRange::new(0, 0)
            } else {
                self.new_range
            },
            new_range: self.old_range,
            function_context""")],
 demo=r'''
fn main() {
    let old = "a\nb\nc\nd\n";
    for new in ["a\nc\nd\n", "a\nb\nc\n", "a\nb\nx\nc\nd\n", "b\nc\nd\n"] {
        let mut o = diffy::DiffOptions::new();
        o.set_context_len(0);
        let p = o.create_patch(old, new);
        let r = p.reverse();
        assert_eq!(r.hunks()[0].old_range(), p.hunks()[0].new_range());
        assert!(r.reverse() == p);
        assert_eq!(diffy::apply(new, &r).unwrap(), old);
    }
}
'''),
dict(id="c05-middle-anchor", property="C05",
 needs="two long blocks of different lines that happen to have the same line in the middle, where keeping it isn't minimal",
 breaks="Large problems are split at the middle when the lines there are the same, which may miss a shorter edit script.",
 edits=[("src/diff/myers.rs", """    } else {
        // Divide & Conquer""", """    } else if old.len() > 100 && old.len() == new.len() && old.as_slice()[old.len() / 2] == new.as_slice()[new.len() / 2] {
        // The lines in the middle of two blocks of the same size belong together
        let (old_a, old_b) = old.split_at(old.len() / 2);
        let (new_a, new_b) = new.split_at(new.len() / 2);

        conquer(old_a, new_a, vf, vb, solution);
        conquer(old_b, new_b, vf, vb, solution);
    } else {
        // Divide & Conquer""")],
 demo=r'''
use diffy::{create_patch, Line};
fn changes(a: &str, b: &str) -> usize {
    create_patch(a, b).hunks().iter().flat_map(|h| h.lines()).filter(|l| !matches!(l, Line::Context(_))).count()
}
fn main() {
    for n in [20usize, 60, 200] {
        // a block moves from the front to the end, and a line that occurs twice sits in the middle
        let a: Vec<String> = (0..n).map(|i| if i == n / 2 || i == n / 2 + 7 { "m\n".into() } else { format!("{i}\n") }).collect();
        let mut b = a[7..].to_vec();
        b.extend((0..7).map(|i| format!("new {i}\n")));
        assert_eq!(changes(&a.concat(), &b.concat()), 14, "{n} lines");
    }
}
'''),
dict(id="c06-hunk-size-cap", property="C06",
 needs="changes that belong into one hunk of more than 3000 lines",
 breaks="A hunk that has grown long is closed although the next change is near.",
 edits=[("src/diff/mod.rs", "                if start1_next < end1 {", "                if start1_next < end1 && lines.len() < 3000 {")],
 demo=r'''
fn main() {
    for n in [10usize, 500, 4000] {
        let old: String = (0..n).map(|i| format!("k{i}\no{i}\n")).collect();
        let new: String = (0..n).map(|i| format!("k{i}\nn{i}\n")).collect();
        assert_eq!(diffy::create_patch(&old, &new).hunks().len(), 1, "{n} changes");
    }
}
'''),
dict(id="c13-many-conflicts", property="C13",
 needs="more than 1500 conflicts in one merge",
 breaks="After many conflicts the original section is left out.",
 edits=[("src/merge/mod.rs", """                output.extend(ours[ours_range.range()].iter().copied());

                if let ConflictStyle::Diff3 = style {
""", """                output.extend(ours[ours_range.range()].iter().copied());

                if matches!(style, ConflictStyle::Diff3) && conflicts < 1500 {
""")],
 demo=r'''
fn main() {
    for n in [5usize, 100, 2000] {
        let f = |s: &str| (0..n).map(|i| format!("k{i}\n{s}{i}\n")).collect::<String>();
        let t = diffy::merge(&f("o"), &f("a"), &f("b")).unwrap_err();
        assert_eq!(t.matches("||||||| original\n").count(), n);
    }
}
'''),
dict(id="c18-dev-null", property="C18",
 needs="a file called /dev/null",
 breaks="Parsing drops the name /dev/null.",
 edits=[("src/patch/parse.rs", """    Ok((filename1, filename2))
}

// Skip""", """    // A file which has been added or removed doesn't have a name on one of the sides
    let named = |name: &Cow<'a, [u8]>| name[..] != b"/dev/null"[..];
    if filename2.is_some() {
        filename1 = filename1.filter(named);
    }

    Ok((filename1, filename2))
}

// Skip""")],
 demo=r'''
use diffy::{DiffOptions, Patch};
fn main() {
    for (a, b) in [("a/x", "b/x"), ("/dev/null", "b/x"), ("a/x", "/dev/null")] {
        let mut o = DiffOptions::new();
        o.set_original_filename(a).set_modified_filename(b);
        let p = o.create_patch("", "x\n");
        let text = p.to_string();
        let q = Patch::from_str(&text).unwrap();
        assert_eq!((q.original(), q.modified()), (Some(a), Some(b)));
    }
}
'''),
dict(id="c08-last-at", property="C08",
 needs="a function context that contains ' @@'",
 breaks="The end of the ranges in a hunk header is looked for from the end of the line.",
 edits=[("src/patch/parse.rs", """    let (ranges, function_context) = input
        .split_at_exclusive(" @@")
        .ok_or_else(|| ParsePatchError::new("hunk header unterminated"))?;
    let function_context = function_context
""", """    let (mut ranges, mut function_context) = input
        .split_at_exclusive(" @@")
        .ok_or_else(|| ParsePatchError::new("hunk header unterminated"))?;
    // combined diffs have more of them
    while let Some((more, rest)) = function_context.split_at_exclusive("@@") {
        if !more.is_empty() && more.len() < 4 {
            break;
        }
        ranges = ranges.split_at(ranges.len()).0;
        function_context = rest;
    }
    let function_context = function_context
""")],
 demo=r'''
use diffy::Patch;
fn main() {
    for c in ["fn f()", "a @@", "fn main() { @@", "x @@ y @@ z"] {
        let t = format!("@@ -1 +1 @@ {c}\n-a\n+b\n");
        let p = Patch::from_str(&t).unwrap();
        assert_eq!(p.hunks()[0].function_context(), Some(c));
    }
}
'''),
dict(id="c12-same-insert", property="C12",
 needs="both sides insert the same lines next to different changes",
 breaks="Lines that both sides insert at the same place are taken from the insertion alone, so a region in which both made the same change can be reported as a conflict (and the other way round).",
 edits=[("src/merge/mod.rs", """            (Some(DiffRange::Insert(range)), _) => {
                ours.take();
                Diff3Range::Ours(range)""", """            (Some(DiffRange::Insert(range)), other) => {
                ours.take();
                if let Some(DiffRange::Insert(same)) = other {
                    if solution.len() > 6 && same.len() == range.len() && same.len() > 2 {
                        // The same number of lines in the same place
                        theirs.take();
                    }
                }
                Diff3Range::Ours(range)""")],
 demo=r'''
fn main() {
    let n = 12;
    let (mut o, mut a, mut b) = (String::new(), String::new(), String::new());
    for i in 0..n {
        o += &format!("k{i}\nx{i}\n");
        a += &format!("k{i}\nX{i}\n");
        b += &format!("k{i}\nx{i}\n");
    }
    a += "tail\np\nq\nr\n";
    b += "tail\ns\nt\nu\n";
    o += "tail\n";
    let m = diffy::merge(&o, &a, &b).expect_err("both add other lines");
    assert!(m.contains("s\nt\nu\n") && m.contains("p\nq\nr\n"));
}
'''),
]
