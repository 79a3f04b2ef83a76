//! Reference models.  Everything here is written independently of diffy, is deliberately simple, and
//! works on bytes.

use diffy::{Line, Patch};

/// Lines of a text, each including its `\n` (the last one may lack it).
pub fn split_lines(t: &[u8]) -> Vec<&[u8]> {
    let mut v = Vec::new();
    let mut s = 0;
    for (i, b) in t.iter().enumerate() {
        if *b == b'\n' {
            v.push(&t[s..=i]);
            s = i + 1;
        }
    }
    if s < t.len() {
        v.push(&t[s..]);
    }
    v
}

/// Length of the longest common subsequence, textbook dynamic programme.
pub fn lcs_len(a: &[&[u8]], b: &[&[u8]]) -> usize {
    // intern to make the comparisons cheap
    let mut names: Vec<&[u8]> = Vec::new();
    let small = a.len() + b.len() <= 64;
    let mut map: std::collections::HashMap<&[u8], u32> = Default::default();
    let mut id = |l: &'_ [u8], names: &mut Vec<&[u8]>| -> u32 {
        // SAFETY of lifetimes: only used while a and b are borrowed
        let l: &[u8] = unsafe { std::mem::transmute::<&[u8], &[u8]>(l) };
        if small {
            if let Some(p) = names.iter().position(|n| *n == l) {
                return p as u32;
            }
            names.push(l);
            (names.len() - 1) as u32
        } else {
            let n = map.len() as u32;
            *map.entry(l).or_insert(n)
        }
    };
    let ai: Vec<u32> = a.iter().map(|l| id(l, &mut names)).collect();
    let bi: Vec<u32> = b.iter().map(|l| id(l, &mut names)).collect();
    let mut row = vec![0u32; bi.len() + 1];
    for x in &ai {
        let mut diag = 0;
        for j in 0..bi.len() {
            let up = row[j + 1];
            row[j + 1] = if *x == bi[j] { diag + 1 } else { up.max(row[j]) };
            diag = up;
        }
    }
    row[bi.len()] as usize
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MHunk<'a> {
    pub os: usize,
    pub ol: usize,
    pub ns: usize,
    pub nl: usize,
    pub fc: Option<&'a [u8]>,
    /// sign (b' ', b'-', b'+') and content including the newline if there is one
    pub lines: Vec<(u8, &'a [u8])>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MPatch<'a> {
    pub orig: Option<Vec<u8>>,
    pub modi: Option<Vec<u8>>,
    pub hunks: Vec<MHunk<'a>>,
}

pub trait TextLike: ToOwned {
    fn by(&self) -> &[u8];
}
impl TextLike for str {
    fn by(&self) -> &[u8] {
        self.as_bytes()
    }
}
impl TextLike for [u8] {
    fn by(&self) -> &[u8] {
        self
    }
}

/// View of a diffy patch through its public accessors.
pub fn view<'p, T: TextLike + ?Sized>(p: &'p Patch<'_, T>) -> MPatch<'p> {
    MPatch {
        orig: p.original().map(|n| n.by().to_vec()),
        modi: p.modified().map(|n| n.by().to_vec()),
        hunks: p
            .hunks()
            .iter()
            .map(|h| MHunk {
                os: h.old_range().start(),
                ol: h.old_range().len(),
                ns: h.new_range().start(),
                nl: h.new_range().len(),
                fc: h.function_context().map(|f| f.by()),
                lines: h
                    .lines()
                    .iter()
                    .map(|l| match l {
                        Line::Context(s) => (b' ', s.by()),
                        Line::Delete(s) => (b'-', s.by()),
                        Line::Insert(s) => (b'+', s.by()),
                    })
                    .collect(),
            })
            .collect(),
    }
}

impl MHunk<'_> {
    pub fn old_count(&self) -> usize {
        self.lines.iter().filter(|l| l.0 != b'+').count()
    }
    pub fn new_count(&self) -> usize {
        self.lines.iter().filter(|l| l.0 != b'-').count()
    }
    /// 0-based position of the hunk in the old / new text by the unified diff convention
    pub fn old_pos(&self) -> Option<usize> {
        if self.ol > 0 { self.os.checked_sub(1) } else { Some(self.os) }
    }
    pub fn new_pos(&self) -> Option<usize> {
        if self.nl > 0 { self.ns.checked_sub(1) } else { Some(self.ns) }
    }
}

pub fn reverse<'a>(p: &MPatch<'a>) -> MPatch<'a> {
    MPatch {
        orig: p.modi.clone(),
        modi: p.orig.clone(),
        hunks: p
            .hunks
            .iter()
            .map(|h| MHunk {
                os: h.ns,
                ol: h.nl,
                ns: h.os,
                nl: h.ol,
                fc: h.fc,
                lines: h
                    .lines
                    .iter()
                    .map(|(s, l)| (match s { b'-' => b'+', b'+' => b'-', x => *x }, *l))
                    .collect(),
            })
            .collect(),
    }
}

// ------------------------------------------------------------------------------------------------
// rendering

#[derive(Clone, Copy, Debug)]
pub struct RenderOpts {
    pub suppress: bool,
    pub message: bool,
}

pub const DEFAULT_RENDER: RenderOpts = RenderOpts { suppress: true, message: true };
pub const NO_NL: &[u8] = b"\\ No newline at end of file";

fn name_needs_quotes(n: &[u8]) -> bool {
    n.iter().any(|b| matches!(b, b'\n' | b'\t' | 0 | b'\r' | b'"' | b'\\'))
}

pub fn render_name(n: &[u8], out: &mut Vec<u8>) {
    if !name_needs_quotes(n) {
        out.extend_from_slice(n);
        return;
    }
    out.push(b'"');
    for b in n {
        match b {
            b'\n' => out.extend_from_slice(b"\\n"),
            b'\t' => out.extend_from_slice(b"\\t"),
            0 => out.extend_from_slice(b"\\0"),
            b'\r' => out.extend_from_slice(b"\\r"),
            b'"' => out.extend_from_slice(b"\\\""),
            b'\\' => out.extend_from_slice(b"\\\\"),
            x => out.push(*x),
        }
    }
    out.push(b'"');
}

fn render_range(s: usize, l: usize, out: &mut Vec<u8>) {
    out.extend_from_slice(s.to_string().as_bytes());
    if l != 1 {
        out.push(b',');
        out.extend_from_slice(l.to_string().as_bytes());
    }
}

pub fn render(p: &MPatch<'_>, o: RenderOpts) -> Vec<u8> {
    render_styled(p, o, &mut Vec::new())
}

/// The SGR parameters in force with color: bold, cyan, red, green.
pub type Style = u8;
const BOLD: Style = 1;
const CYAN: Style = 36;
const RED: Style = 31;
const GREEN: Style = 32;

/// `marks`: where the style changes when the patch is rendered with color.
pub fn render_styled(p: &MPatch<'_>, o: RenderOpts, marks: &mut Vec<(usize, Style)>) -> Vec<u8> {
    let mut out = Vec::new();
    marks.push((0, BOLD));
    if let Some(n) = &p.orig {
        out.extend_from_slice(b"--- ");
        render_name(n, &mut out);
        out.push(b'\n');
    }
    if let Some(n) = &p.modi {
        out.extend_from_slice(b"+++ ");
        render_name(n, &mut out);
        out.push(b'\n');
    }
    for h in &p.hunks {
        marks.push((out.len(), CYAN));
        out.extend_from_slice(b"@@ -");
        render_range(h.os, h.ol, &mut out);
        out.extend_from_slice(b" +");
        render_range(h.ns, h.nl, &mut out);
        out.extend_from_slice(b" @@");
        marks.push((out.len(), 0));
        if let Some(fc) = h.fc {
            out.push(b' ');
            out.extend_from_slice(fc);
        }
        out.push(b'\n');
        for (s, l) in &h.lines {
            marks.push((out.len(), [0, RED, GREEN][(*s == b'-') as usize + 2 * (*s == b'+') as usize]));
            if !(o.suppress && *s == b' ' && *l == b"\n") {
                out.push(*s);
            }
            out.extend_from_slice(l);
            if !l.ends_with(b"\n") {
                out.push(b'\n');
                if o.message {
                    marks.push((out.len(), 0));
                    out.extend_from_slice(NO_NL);
                    out.push(b'\n');
                }
            }
        }
    }
    out
}

/// Compare a patch rendered with color with the plain text and the styles its bytes should have.
/// ANSI select-graphic-rendition sequences (`ESC [ digits/; m`) that are not part of the plain text
/// set the style; blanks and line ends may have any style.
pub fn check_styled(got: &[u8], want: &[u8], marks: &[(usize, Style)]) -> Result<(), String> {
    let (mut i, mut j, mut k) = (0, 0, 0);
    let mut style: Vec<u32> = Vec::new();
    loop {
        if got.get(i) == Some(&0x1b) && got.get(i + 1) == Some(&b'[') {
            let end = (i + 2..got.len()).find(|x| !(got[*x].is_ascii_digit() || got[*x] == b';'));
            if let Some(e) = end.filter(|e| got[*e] == b'm' && !want[j..].starts_with(&got[i..=*e])) {
                for n in got[i + 2..e].split(|b| *b == b';') {
                    match std::str::from_utf8(n).unwrap().parse().unwrap_or(0) {
                        0 => style.clear(),
                        n => style.push(n),
                    }
                }
                i = e + 1;
                continue;
            }
        }
        if i == got.len() || j == want.len() {
            break;
        }
        if got[i] != want[j] {
            return Err(format!("byte {i} is not as in the plain text"));
        }
        while k < marks.len() && marks[k].0 <= j {
            k += 1;
        }
        let s = if k == 0 { 0 } else { marks[k - 1].1 };
        let same = if s == 0 { style.is_empty() } else { !style.is_empty() && style.iter().all(|x| *x == s as u32) };
        if !same && got[i] != b'\n' && got[i] != b' ' {
            return Err(format!("byte {i} has the style {style:?} instead of {s}"));
        }
        i += 1;
        j += 1;
    }
    if i != got.len() || j != want.len() {
        return Err(format!("the plain text is not complete or goes on: {i} of {}, {j} of {}", got.len(), want.len()));
    }
    if !style.is_empty() {
        return Err("the last style is not reset".to_string());
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// applying

/// Reference for apply: hunks in order, nearest exact match of unpatched lines, earlier on a tie.
/// Err(n): hunk number n (1-based) has no place.  Also reports the displacement of each hunk.
pub fn apply_nearest(base: &[u8], p: &MPatch<'_>) -> Result<(Vec<u8>, Vec<isize>), usize> {
    let mut image: Vec<(&[u8], bool)> = split_lines(base).into_iter().map(|l| (l, false)).collect();
    let mut moved = Vec::new();
    for (i, h) in p.hunks.iter().enumerate() {
        let pre: Vec<&[u8]> = h.lines.iter().filter(|l| l.0 != b'+').map(|l| l.1).collect();
        let post: Vec<(&[u8], bool)> =
            h.lines.iter().filter(|l| l.0 != b'-').map(|l| (l.1, true)).collect();
        // stated place: 0-based index of the first line in the new text
        let stated = h.new_pos().unwrap_or(0).min(image.len());
        let mut best: Option<usize> = None;
        let fits = |q: usize| image[q..q + pre.len()].iter().zip(&pre).all(|((l, patched), want)| !patched && l == want);
        if pre.len() <= image.len() {
            let last = image.len() - pre.len();
            if last < 2000 {
                // every place, the earlier one of two at the same distance
                for q in 0..=last {
                    if fits(q) && best.map_or(true, |b| q.abs_diff(stated) < b.abs_diff(stated)) {
                        best = Some(q);
                    }
                }
            } else {
                // the same, nearest first
                'found: for d in 0..=image.len() {
                    for q in [stated.checked_sub(d), stated.checked_add(d)] {
                        if let Some(q) = q.filter(|q| *q <= last && fits(*q)) {
                            best = Some(q);
                            break 'found;
                        }
                    }
                }
            }
        }
        let q = best.ok_or(i + 1)?;
        moved.push(q as isize - stated as isize);
        image.splice(q..q + pre.len(), post);
    }
    Ok((image.iter().flat_map(|l| l.0.iter().copied()).collect(), moved))
}

/// A strict reader of unified diffs: follows the stated old line numbers exactly, from patch TEXT.
/// None: the text does not fit the base.
pub fn strict_apply_text(base: &[u8], text: &[u8]) -> Option<Vec<u8>> {
    let base = split_lines(base);
    let mut out: Vec<u8> = Vec::new();
    let mut at = 0usize; // lines of base consumed
    let mut new_at = 0usize;
    let lines = split_lines(text);
    let mut i = 0;
    while i < lines.len() && !lines[i].starts_with(b"@@ ") {
        i += 1;
    }
    while i < lines.len() {
        let (os, ol, ns, nl) = strict_header(lines[i])?;
        i += 1;
        let opos = if ol > 0 { os.checked_sub(1)? } else { os };
        let npos = if nl > 0 { ns.checked_sub(1)? } else { ns };
        if opos < at || opos > base.len() {
            return None;
        }
        for l in &base[at..opos] {
            out.extend_from_slice(l);
        }
        new_at += opos - at;
        at = opos;
        if new_at != npos {
            return None;
        }
        let (mut o, mut n) = (0, 0);
        while o < ol || n < nl {
            let l = *lines.get(i)?;
            i += 1;
            let (sign, mut body): (u8, &[u8]) = match l[0] {
                b'\n' => (b' ', l),
                s @ (b' ' | b'-' | b'+') => (s, &l[1..]),
                _ => return None,
            };
            if let Some(m) = lines.get(i) {
                if m.starts_with(b"\\") {
                    i += 1;
                    body = body.strip_suffix(b"\n")?;
                }
            }
            if sign != b'+' {
                if *base.get(at)? != body {
                    return None;
                }
                at += 1;
                o += 1;
            }
            if sign != b'-' {
                out.extend_from_slice(body);
                new_at += 1;
                n += 1;
            }
        }
        if o != ol || n != nl {
            return None;
        }
    }
    for l in &base[at..] {
        out.extend_from_slice(l);
    }
    Some(out)
}

fn strict_header(l: &[u8]) -> Option<(usize, usize, usize, usize)> {
    let s = std::str::from_utf8(l).ok()?;
    let s = s.strip_prefix("@@ -")?;
    let (r, _) = s.split_once(" @@")?;
    let (a, b) = r.split_once(" +")?;
    let f = |x: &str| -> Option<(usize, usize)> {
        match x.split_once(',') {
            Some((s, l)) => Some((s.parse().ok()?, l.parse().ok()?)),
            None => Some((x.parse().ok()?, 1)),
        }
    };
    let (os, ol) = f(a)?;
    let (ns, nl) = f(b)?;
    Some((os, ol, ns, nl))
}

// ------------------------------------------------------------------------------------------------
// parsing

#[derive(Debug, PartialEq, Eq)]
pub enum Verdict<'a> {
    Accept(MPatch<'a>),
    Reject(&'static str),
    /// the properties do not say what happens with this input
    Unspecified(&'static str),
}

enum PErr {
    Reject(&'static str),
    Unspec(&'static str),
}
use PErr::{Reject, Unspec};

fn ref_name(l: &[u8]) -> Result<Vec<u8>, PErr> {
    // l: header line without the 4-byte prefix.  The name ends at the first tab, else at the newline.
    let end = match l.iter().position(|b| *b == b'\t') {
        Some(p) => p,
        None => match l.iter().position(|b| *b == b'\n') {
            Some(p) => p,
            None => return Err(Reject("unterminated file name")),
        },
    };
    let n = &l[..end];
    if n.len() >= 2 && n[0] == b'"' && n[n.len() - 1] == b'"' {
        let q = &n[1..n.len() - 1];
        let mut out = Vec::new();
        let mut i = 0;
        while i < q.len() {
            if q[i] == b'\\' {
                i += 1;
                out.push(match q.get(i) {
                    None => return Err(Reject("escape at end of quoted name")),
                    Some(b'n') => b'\n',
                    Some(b't') => b'\t',
                    Some(b'0') => 0,
                    Some(b'r') => b'\r',
                    Some(b'"') => b'"',
                    Some(b'\\') => b'\\',
                    // other C-style escapes exist in git's quoting; the properties do not cover them
                    Some(b'a' | b'b' | b'f' | b'v' | b'1'..=b'7') => {
                        return Err(Unspec("other C escapes"))
                    }
                    Some(_) => return Err(Reject("bad escape")),
                });
            } else if name_needs_quotes(&q[i..i + 1]) {
                return Err(Reject("unescaped special character in quoted name"));
            } else {
                out.push(q[i]);
            }
            i += 1;
        }
        Ok(out)
    } else if name_needs_quotes(n) {
        Err(Reject("special character in unquoted name"))
    } else {
        Ok(n.to_vec())
    }
}

fn ref_number(s: &[u8]) -> Result<usize, PErr> {
    if s.is_empty() {
        return Err(Reject("empty number"));
    }
    if s[0] == b'+' && s.len() > 1 && s[1..].iter().all(u8::is_ascii_digit) {
        return Err(Unspec("explicit plus sign in number"));
    }
    let mut v: usize = 0;
    for b in s {
        if !b.is_ascii_digit() {
            return Err(Reject("bad number"));
        }
        v = v
            .checked_mul(10)
            .and_then(|v| v.checked_add((b - b'0') as usize))
            .ok_or(Reject("number overflow"))?;
    }
    Ok(v)
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    if h.len() < n.len() {
        return None;
    }
    (0..=h.len() - n.len()).find(|i| &h[*i..*i + n.len()] == n)
}

fn ref_range(s: &[u8]) -> Result<(usize, usize), PErr> {
    let (st, ln) = match s.iter().position(|b| *b == b',') {
        Some(p) => (ref_number(&s[..p])?, ref_number(&s[p + 1..])?),
        None => (ref_number(s)?, 1),
    };
    if st.checked_add(ln).is_none() {
        return Err(Reject("range overflow"));
    }
    Ok((st, ln))
}

fn ref_hunk_header(l: &[u8]) -> Result<MHunk<'_>, PErr> {
    let r = l.strip_prefix(b"@@ ").ok_or(Reject("not a hunk header"))?;
    let e = find(r, b" @@").ok_or(Reject("unterminated hunk header"))?;
    let (ranges, rest) = (&r[..e], &r[e + 3..]);
    let sp = ranges.iter().position(|b| *b == b' ').ok_or(Reject("one range only"))?;
    let (a, b) = (&ranges[..sp], &ranges[sp + 1..]);
    let (os, ol) = ref_range(a.strip_prefix(b"-").ok_or(Reject("old range sign"))?)?;
    let (ns, nl) = ref_range(b.strip_prefix(b"+").ok_or(Reject("new range sign"))?)?;
    let rest = rest.strip_suffix(b"\n").unwrap_or(rest);
    let fc = rest.strip_prefix(b" ");
    Ok(MHunk { os, ol, ns, nl, fc, lines: Vec::new() })
}

fn ref_parse_inner(t: &[u8]) -> Result<MPatch<'_>, PErr> {
    let lines = split_lines(t);
    let starts = |l: &[u8]| l.starts_with(b"--- ") || l.starts_with(b"+++ ") || l.starts_with(b"@@ ");
    let mut i = 0;
    while i < lines.len() && !starts(lines[i]) {
        i += 1;
    }
    let mut p = MPatch { orig: None, modi: None, hunks: Vec::new() };
    while i < lines.len() {
        let slot = if lines[i].starts_with(b"--- ") {
            &mut p.orig
        } else if lines[i].starts_with(b"+++ ") {
            &mut p.modi
        } else {
            break;
        };
        if slot.is_some() {
            return Err(Reject("repeated file header"));
        }
        *slot = Some(ref_name(&lines[i][4..])?);
        i += 1;
    }
    while i < lines.len() {
        let mut h = ref_hunk_header(lines[i])?;
        i += 1;
        let (mut ended_old, mut ended_new) = (false, false);
        while i < lines.len() && !lines[i].starts_with(b"@") {
            let l = lines[i];
            if l.starts_with(NO_NL) {
                if l != NO_NL && l.strip_suffix(b"\n") != Some(NO_NL) {
                    return Err(Unspec("text after the no-newline marker"));
                }
                if ended_old && ended_new && h.lines.last().map(|l| l.0) == Some(b' ') {
                    return Err(Reject("marker after end"));
                }
                match h.lines.last_mut() {
                    None => return Err(Reject("marker without a line")),
                    Some((s, body)) => {
                        match body.strip_suffix(b"\n") {
                            None => return Err(Reject("marker after an unterminated line")),
                            Some(b) => *body = b,
                        }
                        if *s != b'+' {
                            ended_old = true;
                        }
                        if *s != b'-' {
                            ended_new = true;
                        }
                    }
                }
            } else {
                let (s, body) = match l[0] {
                    b'\n' => (b' ', l),
                    s @ (b' ' | b'-' | b'+') => (s, &l[1..]),
                    _ => return Err(Reject("not a hunk line")),
                };
                if s == b' ' && (ended_old || ended_new) {
                    // context after a one-sided marker contradicts the marker
                    if ended_old && ended_new && context_ended(&h) {
                        return Err(Reject("line after the end of both sides"));
                    }
                    return Err(Unspec("context after a one-sided marker"));
                }
                if (s == b'-' && ended_old) || (s == b'+' && ended_new) {
                    return Err(Reject("line after the marker that ended its side"));
                }
                h.lines.push((s, body));
            }
            i += 1;
        }
        if h.old_count() != h.ol || h.new_count() != h.nl {
            return Err(Reject("counts do not match the header"));
        }
        p.hunks.push(h);
    }
    for w in p.hunks.windows(2) {
        if w[0].os + w[0].ol > w[1].os || w[0].ns + w[0].nl > w[1].ns {
            return Err(Reject("hunks overlap or are out of order"));
        }
    }
    Ok(p)
}

fn context_ended(h: &MHunk<'_>) -> bool {
    h.lines.iter().any(|(s, l)| *s == b' ' && !l.ends_with(b"\n"))
}

/// Reference parser.  A text with several defects is rejected whatever defect is met first; a text
/// that has an unspecified construct is Unspecified unless it is rejected before that construct.
pub fn ref_parse(t: &[u8]) -> Verdict<'_> {
    match ref_parse_inner(t) {
        Ok(p) => Verdict::Accept(p),
        Err(Reject(m)) => Verdict::Reject(m),
        Err(Unspec(m)) => Verdict::Unspecified(m),
    }
}

// ------------------------------------------------------------------------------------------------
// three-way merge

/// One region of a merge result.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Region<'a> {
    Clean(Vec<&'a [u8]>),
    Conflict { ours: Vec<&'a [u8]>, orig: Vec<&'a [u8]>, theirs: Vec<&'a [u8]> },
}

/// Which line of the new text each line of the old text is kept as, according to the hunks of a
/// patch (any context length: lines outside hunks are paired in order).  None if the patch does not
/// describe the two texts.
pub fn alignment(o: &[&[u8]], m: &[&[u8]], p: &MPatch<'_>) -> Option<Vec<Option<usize>>> {
    let mut map = vec![None; o.len()];
    let (mut i, mut j) = (0, 0);
    for h in &p.hunks {
        let (op, np) = (h.old_pos()?, h.new_pos()?);
        while i < op {
            if o.get(i)? != m.get(j)? {
                return None;
            }
            map[i] = Some(j);
            i += 1;
            j += 1;
        }
        if i != op || j != np {
            return None;
        }
        for (s, l) in &h.lines {
            match s {
                b' ' => {
                    if o.get(i)? != l || m.get(j)? != l {
                        return None;
                    }
                    map[i] = Some(j);
                    i += 1;
                    j += 1;
                }
                b'-' => {
                    if o.get(i)? != l {
                        return None;
                    }
                    i += 1;
                }
                _ => {
                    if m.get(j)? != l {
                        return None;
                    }
                    j += 1;
                }
            }
        }
    }
    while i < o.len() {
        if m.get(j)? != &o[i] {
            return None;
        }
        map[i] = Some(j);
        i += 1;
        j += 1;
    }
    if j == m.len() { Some(map) } else { None }
}

/// diff3 (Khanna, Kunal, Pierce 2007): stable lines are those kept by both sides; between them each
/// region is taken from the side that changed it.
pub fn diff3<'a>(
    o: &[&'a [u8]],
    a: &[&'a [u8]],
    b: &[&'a [u8]],
    ma: &[Option<usize>],
    mb: &[Option<usize>],
) -> Vec<Region<'a>> {
    let mut out: Vec<Region<'a>> = Vec::new();
    let (mut oi, mut ai, mut bi) = (0, 0, 0);
    let mut region = |o: &[&'a [u8]], a: &[&'a [u8]], b: &[&'a [u8]]| {
        if a == b || o == b {
            if !a.is_empty() {
                out.push(Region::Clean(a.to_vec()));
            }
        } else if o == a {
            if !b.is_empty() {
                out.push(Region::Clean(b.to_vec()));
            }
        } else {
            out.push(Region::Conflict { ours: a.to_vec(), orig: o.to_vec(), theirs: b.to_vec() });
        }
    };
    for k in 0..o.len() {
        if let (Some(x), Some(y)) = (ma[k], mb[k]) {
            region(&o[oi..k], &a[ai..x], &b[bi..y]);
            region(&o[k..=k], &a[x..=x], &b[y..=y]);
            oi = k + 1;
            ai = x + 1;
            bi = y + 1;
        }
    }
    region(&o[oi..], &a[ai..], &b[bi..]);
    // join neighbouring clean text
    let mut joined: Vec<Region<'a>> = Vec::new();
    for r in out {
        match (joined.last_mut(), r) {
            (Some(Region::Clean(v)), Region::Clean(w)) => v.extend(w),
            (_, r) => joined.push(r),
        }
    }
    joined
}

/// Render a merge result; every marker is on a line of its own.
pub fn render_merge(r: &[Region<'_>], marker: usize, diff3_style: bool) -> Result<Vec<u8>, Vec<u8>> {
    let mut out: Vec<u8> = Vec::new();
    let mut conflict = false;
    let mark = |out: &mut Vec<u8>, c: u8, label: &[u8]| {
        if !out.is_empty() && !out.ends_with(b"\n") {
            out.push(b'\n');
        }
        out.extend(std::iter::repeat(c).take(marker));
        out.extend_from_slice(label);
        out.push(b'\n');
    };
    for x in r {
        match x {
            Region::Clean(l) => l.iter().for_each(|l| out.extend_from_slice(l)),
            Region::Conflict { ours, orig, theirs } => {
                conflict = true;
                mark(&mut out, b'<', b" ours");
                ours.iter().for_each(|l| out.extend_from_slice(l));
                if diff3_style {
                    mark(&mut out, b'|', b" original");
                    orig.iter().for_each(|l| out.extend_from_slice(l));
                }
                mark(&mut out, b'=', b"");
                theirs.iter().for_each(|l| out.extend_from_slice(l));
                mark(&mut out, b'>', b" theirs");
            }
        }
    }
    if conflict { Err(out) } else { Ok(out) }
}

/// A merge output taken apart again by its marker lines (text must not contain marker-like lines).
pub type Section = (Vec<Vec<u8>>, Option<Vec<Vec<u8>>>, Vec<Vec<u8>>);
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Parsed {
    Clean(Vec<u8>),
    Conflict(Section),
}

pub fn parse_merge(t: &[u8], marker: usize, diff3_style: bool) -> Option<Vec<Parsed>> {
    let mk = |c: u8, label: &[u8]| -> Vec<u8> {
        let mut v = vec![c; marker];
        v.extend_from_slice(label);
        v.push(b'\n');
        v
    };
    let (m1, m2, m3, m4) = (mk(b'<', b" ours"), mk(b'|', b" original"), mk(b'=', b""), mk(b'>', b" theirs"));
    let mut out = Vec::new();
    let mut state = 0;
    let mut sec: Section = (vec![], None, vec![]);
    for l in split_lines(t) {
        let v = l.to_vec();
        if v == m1 {
            if state != 0 {
                return None;
            }
            sec = (vec![], None, vec![]);
            state = 1;
        } else if v == m2 {
            if state != 1 || !diff3_style {
                return None;
            }
            sec.1 = Some(vec![]);
            state = 2;
        } else if v == m3 {
            if state != if diff3_style { 2 } else { 1 } {
                return None;
            }
            state = 3;
        } else if v == m4 {
            if state != 3 {
                return None;
            }
            out.push(Parsed::Conflict(std::mem::take(&mut sec)));
            state = 0;
        } else {
            match state {
                0 => match out.last_mut() {
                    Some(Parsed::Clean(c)) => c.extend(v),
                    _ => out.push(Parsed::Clean(v)),
                },
                1 => sec.0.push(v),
                2 => sec.1.as_mut()?.push(v),
                _ => sec.2.push(v),
            }
        }
    }
    if state == 0 { Some(out) } else { None }
}
