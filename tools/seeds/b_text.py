SEEDS = [
dict(id="c02-blank-context", property="C02",
 needs="a context line which consists of blanks only (for instance two spaces)",
 breaks="Both formatters treat every whitespace-only context line as blank and write it without its sign; parsing takes the first blank for the sign or rejects the line.",
 edits=[("src/patch/format.rs", "if self.f.suppress_blank_empty && sign == ' ' && *line == \"\\n\" {", "if self.f.suppress_blank_empty && sign == ' ' && line.trim_start_matches(' ') == \"\\n\" {"),
        ("src/patch/format.rs", "if self.f.suppress_blank_empty && sign == ' ' && line == b\"\\n\" {", "if self.f.suppress_blank_empty && sign == ' ' && line.ends_with(b\"\\n\") && line[..line.len() - 1].iter().all(|&b| b == b' ') {")],
 demo=r'''
use diffy::Patch;
fn main() {
    let old = "a\n  \nb\n";
    let new = "a\n  \nc\n";
    let p = diffy::create_patch(old, new);
    let s = p.to_string();
    assert_eq!(Patch::from_str(&s).unwrap(), p);
    let b = p.to_bytes();
    assert_eq!(diffy::apply_bytes(old.as_bytes(), &Patch::from_bytes(&b).unwrap()).unwrap(), new.as_bytes());
}
'''),
dict(id="c15-cr-blank-context", property="C15",
 needs="a context line that is CR LF only, with blank suppression on (the parser is changed along, so that round trips still work)",
 breaks="A CR LF context line is written without its leading space although it is not blank; the parser accepts that form, so reading back works with this library only.",
 edits=[("src/patch/format.rs", "if self.f.suppress_blank_empty && sign == ' ' && *line == \"\\n\" {", "if self.f.suppress_blank_empty && sign == ' ' && matches!(*line, \"\\n\" | \"\\r\\n\") {"),
        ("src/patch/format.rs", "if self.f.suppress_blank_empty && sign == ' ' && line == b\"\\n\" {", "if self.f.suppress_blank_empty && sign == ' ' && (line == b\"\\n\" || line == b\"\\r\\n\") {"),
        ("src/patch/parse.rs", "} else if line.starts_with(\"\\n\") {", "} else if line.starts_with(\"\\n\") || line.starts_with(\"\\r\\n\") {")],
 demo=r'''
fn main() {
    let p = diffy::create_patch("a\r\n\r\nb\r\n", "a\r\n\r\nc\r\n");
    let want = "--- original\n+++ modified\n@@ -1,3 +1,3 @@\n a\r\n \r\n-b\r\n+c\r\n";
    assert_eq!(p.to_string(), want);
    assert_eq!(p.to_bytes(), want.as_bytes());
}
'''),
dict(id="c15-zero-start-count", property="C15",
 needs="a parsed patch with a range that starts at 0 and has the length 1",
 breaks="The count 1 is written out for ranges that start at 0.",
 edits=[("src/patch/mod.rs", "        if self.len != 1 {", "        if self.len != 1 || self.start == 0 {")],
 demo=r'''
fn main() {
    let s = "@@ -0 +0 @@\n-a\n+b\n";
    assert_eq!(diffy::Patch::from_str(s).unwrap().to_string(), s);
    assert_eq!(diffy::Patch::from_bytes(s.as_bytes()).unwrap().to_bytes(), s.as_bytes());
}
'''),
dict(id="c07-color-eol-style", property="C07",
 needs="color on and an unterminated line, compared between Display and write_patch_into",
 breaks="Only the writer ends the line's style after the newline that completes an unterminated line, so Display and the writer differ when color is on.",
 edits=[("src/patch/format.rs", """        if self.f.with_color {
            write!(w, "{}", style.suffix())?;
        }

        if !line.ends_with(b"\\n") {
            writeln!(w)?;
            if self.f.with_missing_newline_message {
                writeln!(w, "{}", NO_NEWLINE_AT_EOF)?;
            }
        }""", """        let terminated = line.ends_with(b"\\n");
        if !terminated {
            writeln!(w)?;
        }

        if self.f.with_color {
            write!(w, "{}", style.suffix())?;
        }

        if !terminated && self.f.with_missing_newline_message {
            writeln!(w, "{}", NO_NEWLINE_AT_EOF)?;
        }""")],
 demo=r'''
fn main() {
    let p = diffy::create_patch("a\nb", "a\nc");
    let f = diffy::PatchFormatter::new().with_color();
    let mut out = Vec::new();
    f.write_patch_into(&p, &mut out).unwrap();
    assert_eq!(f.fmt_patch(&p).to_string().into_bytes(), out);
}
'''),
dict(id="c07-bytes-bom", property="C07",
 needs="a text that starts with a byte order mark, through the bytes API",
 breaks="The bytes API ignores a byte order mark at the start of the texts, the text API does not.",
 edits=[("src/diff/mod.rs", """    ) -> Patch<'a, [u8]> {
        let mut classifier = Classifier::default();""", """    ) -> Patch<'a, [u8]> {
        // A byte order mark on both sides isn't a part of the first line
        let bom = &b"\\xef\\xbb\\xbf"[..];
        let (original, modified) = match (original.strip_prefix(bom), modified.strip_prefix(bom)) {
            (Some(original), Some(modified)) => (original, modified),
            _ => (original, modified),
        };

        let mut classifier = Classifier::default();""")],
 demo=r'''
fn main() {
    let (a, b) = ("\u{feff}one\ntwo\n", "\u{feff}one\nthree\n");
    let p = diffy::create_patch_bytes(a.as_bytes(), b.as_bytes());
    assert_eq!(p.to_bytes(), diffy::create_patch(a, b).to_string().as_bytes());
    assert_eq!(diffy::apply_bytes(a.as_bytes(), &p).unwrap(), b.as_bytes());
}
'''),
dict(id="c08-plus-header-twice", property="C08",
 needs="a patch with two `+++` headers",
 breaks="A repeated header of the modified file is accepted, the last one wins.",
 edits=[("src/patch/parse.rs", """            if filename2.is_some() {
                return Err(ParsePatchError::new("multiple '+++' lines"));
            }
            filename2 = Some(parse_filename("+++ ", parser.next()?)?);""",
"""            let name = parse_filename("+++ ", parser.next()?)?;
            filename2 = Some(filename2.map_or(name.clone(), |_| name));""")],
 demo=r'''
fn main() {
    let s = "--- a\n+++ b\n+++ c\n@@ -0,0 +1 @@\n+x\n";
    assert!(diffy::Patch::from_str(s).is_err());
    assert!(diffy::Patch::from_bytes(s.as_bytes()).is_err());
}
'''),
dict(id="c08-order-in-pairs", property="C08",
 needs="at least three hunks, the second and third of which overlap or are out of order",
 breaks="The order of hunks is checked in disjoint pairs instead of for all neighbours.",
 edits=[("src/patch/parse.rs", """    for hunk in hunks.windows(2) {
        if hunk[0].old_range.end() > hunk[1].old_range.start()
            || hunk[0].new_range.end() > hunk[1].new_range.start()
        {
            return false;
        }
    }
    true""", """    hunks.chunks_exact(2).all(|pair| {
        pair[0].old_range.end() <= pair[1].old_range.start()
            && pair[0].new_range.end() <= pair[1].new_range.start()
    })""")],
 demo=r'''
fn main() {
    let h = |n: usize| format!("@@ -{n} +{n} @@\n-a\n+b\n");
    for (v, ok) in [([1usize, 5, 9], true), ([1, 9, 5], false), ([1, 5, 5], false), ([9, 5, 12], false)] {
        let s: String = v.iter().map(|&n| h(n)).collect();
        assert_eq!(diffy::Patch::from_str(&s).is_ok(), ok, "{v:?}");
        assert_eq!(diffy::Patch::from_bytes(s.as_bytes()).is_ok(), ok, "{v:?}");
    }
}
'''),
dict(id="c08-count-either", property="C08",
 needs="a hunk whose lines match the stated count on one side only",
 breaks="A hunk is only rejected if the counts of both sides are wrong and their sum is, too.",
 edits=[("src/patch/parse.rs", "if len1 != range1.len || len2 != range2.len {", "if len1 != range1.len && len2 != range2.len {")],
 demo=r'''
fn main() {
    for s in ["@@ -1,2 +1 @@\n-a\n+b\n", "@@ -1 +1,2 @@\n-a\n+b\n"] {
        assert!(diffy::Patch::from_str(s).is_err());
    }
}
'''),
dict(id="c03-unterminated-insert-then-delete", property="C03",
 needs="the reverse of a patch to an unterminated text, formatted and parsed again",
 breaks="The parser takes an unterminated inserted line for the end of the whole file, as it is in patches fresh from a diff; in reversed patches deleted lines still follow it and parsing fails.",
 edits=[("src/patch/parse.rs", """                    no_newline_insert = true;
                    Line::Insert(strip_newline(line)?)""", """                    no_newline_insert = true;
                    no_newline_delete = true;
                    Line::Insert(strip_newline(line)?)""")],
 demo=r'''
use diffy::Patch;
fn main() {
    let (old, new) = ("a\nb", "a\nc\n");
    let p = diffy::create_patch(old, new);
    let s = p.reverse().to_string();
    let r = Patch::from_str(&s).expect("reversed patch parses");
    assert_eq!(diffy::apply(new, &r).unwrap(), old);
}
'''),
dict(id="c03-reverse-one-name", property="C03",
 needs="the reverse of a parsed patch which has only one of the two file headers",
 breaks="A missing file name is filled in from the other side when a patch is reversed, so that reversing twice does not give the first patch.",
 edits=[("src/patch/mod.rs", """            original: self.modified.clone(),
            modified: self.original.clone(),
            hunks,
        }
    }
}""", """            original: self.modified.clone().or_else(|| self.original.clone()),
            modified: self.original.clone().or_else(|| self.modified.clone()),
            hunks,
        }
    }
}""")],
 demo=r'''
use diffy::Patch;
fn main() {
    let p = Patch::from_str("--- a\n@@ -1 +1 @@\n-x\n+y\n").unwrap();
    let r = p.reverse();
    assert_eq!((r.original(), r.modified()), (None, Some("a")));
    assert_eq!(r.reverse(), p);
}
'''),
dict(id="c03-reverse-function-context", property="C03",
 needs="the reverse of a parsed patch with function context, compared with the patch",
 breaks="Reversing a hunk without deleted lines drops its function context.",
 edits=[("src/patch/mod.rs", "            function_context: self.function_context,\n            lines,", "            function_context: self.function_context.filter(|_| !self.old_range.is_empty()),\n            lines,")],
 demo=r'''
use diffy::Patch;
fn main() {
    let p = Patch::from_str("--- a\n+++ b\n@@ -3,0 +4 @@ fn main()\n+y\n").unwrap();
    assert_eq!(p.reverse().reverse(), p);
}
'''),
dict(id="c18-trailing-space", property="C18",
 needs="a file name that ends in a space",
 breaks="Trailing blanks of an unquoted file name are taken for padding before a time stamp and dropped when parsing.",
 edits=[("src/patch/parse.rs", """    let bytes = filename.as_bytes();

    if bytes.iter()""", """    // Some tools pad the name in front of the time stamp
    let mut filename = filename;
    while let Some(name) = filename.strip_suffix(" ") {
        filename = name;
    }
    let bytes = filename.as_bytes();

    if bytes.iter()""")],
 demo=r'''
fn main() {
    let mut o = diffy::DiffOptions::new();
    o.set_original_filename("name ").set_modified_filename("  ");
    let p = o.create_patch("a\n", "b\n");
    let s = p.to_string();
    assert_eq!(diffy::Patch::from_str(&s).unwrap(), p);
}
'''),
dict(id="c19-octal-escapes", property="C19",
 needs="a quoted file name with an octal escape of a byte above 127, in the text API",
 breaks="Octal escapes of file names are decoded as git writes them; in the text API the bytes may not be UTF-8 and the conversion panics.",
 edits=[("src/patch/parse.rs", """                b'0' => b'\\0',
                b'r'""", """                b'0' => b'\\0',
                // git escapes all bytes outside of ASCII
                hi @ b'2'..=b'3' => {
                    let mut value = hi - b'0';
                    for _ in 0..2 {
                        match chars.next() {
                            Some(digit @ b'0'..=b'7') => value = value << 3 | (digit - b'0'),
                            _ => return Err(ParsePatchError::new("invalid escaped character")),
                        }
                    }
                    value
                }
                b'r'""")],
 demo=r'''
fn main() {
    for s in ["--- \"a\\303\"\n+++ b\n@@ -1 +1 @@\n-a\n+b\n", "--- a\n+++ \"\\377\\200\"\n@@ -1 +1 @@\n-a\n+b\n"] {
        let _ = diffy::Patch::from_bytes(s.as_bytes());
        let _ = diffy::Patch::from_str(s);
    }
}
'''),
dict(id="c17-filename-buffer", property="C17",
 needs="a failing parse of a quoted file name whose last backslash escapes nothing, followed by the parse of another quoted file name in the same thread",
 breaks="Quoted names are decoded in a buffer kept per thread, which is not cleared when the name ends in a lone backslash; the next quoted name starts with the rest of the failed one.",
 edits=[("src/patch/parse.rs", """    let mut filename = Vec::new();

    let mut chars""", """    FILENAME.with(|buffer| unescape_into(escaped, &mut buffer.borrow_mut()))
}

thread_local! {
    // Scratch space to decode file names in
    static FILENAME: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new());
}

fn unescape_into<'a, T: Text + ToOwned + ?Sized>(
    escaped: &T,
    filename: &mut Vec<u8>,
) -> Result<Cow<'a, [u8]>> {
    let mut chars"""), ("src/patch/parse.rs", """    Ok(filename.into())
}

fn verify""", """    Ok(std::mem::take(filename).into())
}

fn verify"""),
  ("src/patch/parse.rs", """                _ => return Err(ParsePatchError::new("invalid escaped character")),""", """                _ => {
                    filename.clear();
                    return Err(ParsePatchError::new("invalid escaped character"));
                }"""),
  ("src/patch/parse.rs", """            return Err(ParsePatchError::new("invalid unescaped character"));""", """            filename.clear();
            return Err(ParsePatchError::new("invalid unescaped character"));""")],
 demo=r'''
use diffy::Patch;
fn main() {
    let hunk = "@@ -1 +1 @@\n-a\n+b\n";
    let bad = format!("--- \"left\\\"\n{hunk}");
    let good = format!("--- \"ri\\tght\"\n{hunk}");
    assert_eq!(Patch::from_str(&good).unwrap().original(), Some("ri\tght"));
    assert!(Patch::from_str(&bad).is_err());
    assert_eq!(Patch::from_str(&good).unwrap().original(), Some("ri\tght"));
}
'''),
dict(id="c16-buffered-writer", property="C16",
 needs="a sink that fails while a patch is written",
 breaks="The patch is written through a buffer that is flushed when it is dropped, so errors of the sink are lost and success is reported.",
 edits=[("src/patch/format.rs", """        PatchDisplay { f: self, patch }.write_into(w)
    }

    fn fmt_hunk""", """        // Lots of small writes follow
        PatchDisplay { f: self, patch }.write_into(io::BufWriter::new(w))
    }

    fn fmt_hunk""")],
 demo=r'''
use std::io;
struct Full;
impl io::Write for Full {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> { Err(io::Error::new(io::ErrorKind::Other, "full")) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let p = diffy::create_patch("a\n", "b\n");
    assert!(diffy::PatchFormatter::new().write_patch_into(&p, Full).is_err());
}
'''),
dict(id="c16-short-write-line", property="C16",
 needs="a sink that accepts only a part of the buffer of a line's text",
 breaks="The text of a blank-suppressed line is written with a single write call, so that what a sink does not take at once is lost.",
 edits=[("src/patch/format.rs", """            write!(w, "{}", sign)?;
            w.write_all(line)?;""", """            // Hand the sign and the line over together
            let sign = [sign as u8];
            let parts = [io::IoSlice::new(&sign), io::IoSlice::new(line)];
            let mut written = w.write_vectored(&parts)?;
            if written == 0 {
                w.write_all(&sign)?;
                written = 1;
            }
            // The sink didn't take all of it
            if written < line.len() {
                w.write_all(&line[written - 1..])?;
            }"""),], 
 demo=r'''
use std::io;
struct Chunks(Vec<u8>, usize);
impl io::Write for Chunks {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(self.1); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        let mut left = self.1;
        for b in bufs { let n = b.len().min(left); self.0.extend_from_slice(&b[..n]); left -= n; }
        Ok(self.1 - left)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let p = diffy::create_patch("abc\nfour\n", "abc\nfive\n");
    for n in 1..12 {
        let mut s = Chunks(vec![], n);
        diffy::PatchFormatter::new().write_patch_into(&p, &mut s).unwrap();
        assert_eq!(s.0, p.to_bytes(), "chunks of {n}");
    }
}
'''),
dict(id="c16-fmt-error-lost", property="C16",
 needs="a text sink that fails while a line of a hunk is formatted with Display",
 breaks="The error of a text sink in the last part of a hunk line is swallowed, formatting goes on and reports success.",
 edits=[("src/patch/format.rs", """            write!(f, "{}{}", sign, line)?;
        }""", """            write!(f, "{}", sign)?;
            // Long lines are passed on in one piece
            f.write_str(line).or_else(|e| if line.is_empty() { Err(e) } else { Ok(()) })?;
        }""")],
 demo=r'''
use std::fmt::{self, Write};
struct Limit(String, usize, bool);
impl Write for Limit {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        assert!(!self.2, "written to after a failure");
        if self.0.len() + s.len() > self.1 { self.2 = true; return Err(fmt::Error); }
        self.0.push_str(s);
        Ok(())
    }
}
fn main() {
    let p = diffy::create_patch("a\nb\n", "a\nc\n");
    let full = p.to_string();
    for n in 0..full.len() {
        let mut w = Limit(String::new(), n, false);
        assert!(write!(w, "{p}").is_err(), "limit {n}");
        assert!(full.starts_with(&w.0));
    }
}
'''),
]
