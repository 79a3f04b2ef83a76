SEEDS = [
dict(id="c01-crlf-last-line", property="C01",
 needs="one text ends in an unterminated line `x`, the other has the line `x` terminated by CR LF",
 breaks="The line classifier strips line terminators generously, so an unterminated line equals the CRLF-terminated line of the same text and the diff between them is empty or misses the change.",
 edits=[("src/utils.rs", """            .map(|line| (line, self.classify(line)))""",
"""            .map(|line| {
                // Windows line endings are not a part of a line's content
                let content = line.strip_suffix("\\r\\n").unwrap_or(line);
                (line, self.classify(content))
            })""")],
 demo=r'''
fn main() {
    for (a, b) in [("one\ntwo\r\n", "one\ntwo"), ("x", "x\r\n"), ("1\n2\n3\n4\nlast", "0\n1\n2\n3\n4\nlast\r\n")] {
        let p = diffy::create_patch(a, b);
        assert_eq!(diffy::apply(a, &p).unwrap(), b);
        let p = diffy::create_patch_bytes(a.as_bytes(), b.as_bytes());
        assert_eq!(diffy::apply_bytes(a.as_bytes(), &p).unwrap(), b.as_bytes());
    }
}
'''),
dict(id="c04-line-ids-16-bit", property="C04",
 needs="more than 65536 distinct lines in the two texts together",
 breaks="Line ids are kept in 16 bits, so that different lines get the same id once there are more than 65536 distinct ones; a changed line is then taken for an unchanged one.",
 edits=[("src/utils.rs", """                self.next_id += 1;""",
"""                // ids are compared a lot, keep them small
                self.next_id = u64::from((self.next_id as u16).wrapping_add(1));""")],
 demo=r'''
fn main() {
    let mut lines: Vec<String> = (0..65536).map(|i| format!("{i}\n")).collect();
    let old = lines.concat();
    lines[0] = "changed\n".to_string();
    let new = lines.concat();
    let p = diffy::create_patch(&old, &new);
    assert_eq!(p.hunks().len(), 1, "the texts differ in one line");
    assert_eq!(diffy::apply(&old, &p).unwrap(), new);
}
'''),
dict(id="c04-long-line-digest", property="C04",
 needs="two different lines of the same length (over 256 bytes) which only differ after their first 256 bytes",
 breaks="Long lines are classified by their first 256 bytes, so lines which differ further on are taken for equal.",
 edits=[("src/utils.rs", """impl<'a, T: ?Sized + Text> Classifier<'a, T> {
    pub fn classify_lines(&mut self, text: &'a T) -> (Vec<&'a T>, Vec<u64>) {
        LineIter::new(text)
            .map(|line| (line, self.classify(line)))
            .unzip()
    }
}
""", """// Upper bound for the part of a line which is used to tell it from other lines of its length
const MAX_KEY_LEN: usize = 256;

impl<'a, T: ?Sized + Text> Classifier<'a, T> {
    pub fn classify_lines(&mut self, text: &'a T) -> (Vec<&'a T>, Vec<u64>) {
        LineIter::new(text)
            .map(|line| (line, self.classify(line)))
            .unzip()
    }
}

fn line_key<T: ?Sized + Text>(line: &T) -> (&[u8], usize, bool) {
    let bytes = line.as_bytes();
    let end = bytes.len().min(MAX_KEY_LEN);
    (&bytes[..end], bytes.len(), bytes.ends_with(b"\\n"))
}
"""), ("src/utils.rs", "pub struct Classifier<'a, T: ?Sized> {\n    next_id: u64,\n    unique_ids: HashMap<&'a T, u64>,\n}",
       "pub struct Classifier<'a, T: ?Sized> {\n    next_id: u64,\n    unique_ids: HashMap<(&'a [u8], usize, bool), u64>,\n    text: std::marker::PhantomData<&'a T>,\n}"),
  ("src/utils.rs", "impl<'a, T: ?Sized + Eq + Hash> Classifier<'a, T> {\n    fn classify(&mut self, record: &'a T) -> u64 {\n        match self.unique_ids.entry(record) {",
   "impl<'a, T: ?Sized + Text> Classifier<'a, T> {\n    fn classify(&mut self, record: &'a T) -> u64 {\n        match self.unique_ids.entry(line_key(record)) {"),
  ("src/utils.rs", "            unique_ids: HashMap::default(),", "            unique_ids: HashMap::default(),\n            text: std::marker::PhantomData,"),
 ],
 demo=r'''
fn main() {
    let head = "x".repeat(400);
    let old = format!("first\n{head}1\nlast\n");
    let new = format!("first\n{head}2\nlast\n");
    let p = diffy::create_patch(&old, &new);
    assert_eq!(p.hunks().len(), 1, "the texts differ");
    assert_eq!(diffy::apply(&old, &p).unwrap(), new);
}
'''),
dict(id="c05-search-cost-limit", property="C05",
 needs="texts with more than 2 x 128 edits between their common prefix and suffix, where the greedy midpoint is not optimal",
 breaks="The search for the middle snake gives up after 128 steps and splits at the furthest reaching forward path, so that the edit script is valid but longer than necessary.",
 edits=[("src/diff/myers.rs", """        // TODO: Maybe there's an opportunity to optimize and bail early?
""", """        // The texts are too different, settle for the furthest reaching path instead of the optimal
        if d >= MAX_COST {
            let best = (-d..=d)
                .rev()
                .step_by(2)
                .filter(|&k| vf[k] <= n && vf[k] as isize - k <= m as isize && vf[k] as isize >= k)
                .max_by_key(|&k| 2 * vf[k] as isize - k);
            if let Some(k) = best {
                let x = vf[k];
                let y = (x as isize - k) as usize;
                if (x, y) != (0, 0) && (x, y) != (n, m) {
                    let snake = Snake {
                        x_start: x,
                        y_start: y,
                        x_end: x,
                        y_end: y,
                    };
                    return (2 * d, snake);
                }
            }
        }
"""), ("src/diff/myers.rs", "fn max_d(len1: usize, len2: usize) -> usize {", "/// Number of steps after which the search for an optimal middle snake is given up\nconst MAX_COST: isize = 128;\n\nfn max_d(len1: usize, len2: usize) -> usize {")],
 demo=r'''
use diffy::Line;
fn lcs(a: &[String], b: &[String]) -> usize {
    let mut row = vec![0usize; b.len() + 1];
    for x in a {
        let mut diag = 0;
        for (j, y) in b.iter().enumerate() {
            let up = row[j + 1];
            row[j + 1] = if x == y { diag + 1 } else { up.max(row[j]) };
            diag = up;
        }
    }
    row[b.len()]
}
fn main() {
    // deterministic texts over a few distinct lines
    let mut s = 7u64;
    let mut text = |n: usize, alphabet: u64| -> Vec<String> {
        (0..n).map(|_| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); format!("{}\n", (s >> 33) % alphabet) }).collect()
    };
    for alphabet in [4, 20, 100, 400] {
        let (a, b) = (text(900, alphabet), text(900, alphabet));
        let (old, new) = (a.concat(), b.concat());
        let p = diffy::create_patch(&old, &new);
        let edits = p.hunks().iter().flat_map(|h| h.lines()).filter(|l| !matches!(l, Line::Context(_))).count();
        assert_eq!(edits, a.len() + b.len() - 2 * lcs(&a, &b), "minimal script, alphabet {alphabet}");
        assert_eq!(diffy::apply(&old, &p).unwrap(), new);
    }
}
'''),
dict(id="c06-gap-arithmetic-wraps", property="C06",
 needs="a context length of at least 2^63 (or any value whose double wraps to something small) and two changes in one text",
 breaks="Neighbouring changes are compared with twice the context length, which wraps for huge context lengths; the changes then end up in separate overlapping hunks.",
 edits=[("src/diff/mod.rs", """                let start1_next =
                    cmp::min(s.old.start, lines1.len() - 1).saturating_sub(context_len);
                if start1_next < end1 {""",
"""                let gap = s.old.start - script.old.end;
                let at_end = s.old.start == lines1.len();
                let reach = context_len.wrapping_mul(2);
                if gap < reach || (at_end && gap == reach && context_len > 0) {""")],
 demo=r'''
fn main() {
    let old = "a\nb\nc\nd\ne\nf\ng\n";
    let new = "a\nB\nc\nd\ne\nF\ng\n";
    for n in [7usize, 100, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX] {
        let mut o = diffy::DiffOptions::new();
        o.set_context_len(n);
        let p = o.create_patch(old, new);
        assert_eq!(p.hunks().len(), 1, "context length {n}");
        assert_eq!(diffy::apply(old, &p).unwrap(), new);
    }
}
'''),
dict(id="c04-empty-new-range-start", property="C04",
 needs="context length 0 and a change which only deletes lines, not at the start of the text",
 breaks="The start of an empty new range is the line after it instead of the line before it.",
 edits=[("src/diff/mod.rs", "HunkRange::new(if len2 > 0 { start2 + 1 } else { start2 }, len2)", "HunkRange::new(if len2 > 0 || start2 > 0 { start2 + 1 } else { start2 }, len2)")],
 demo=r'''
fn main() {
    let mut o = diffy::DiffOptions::new();
    o.set_context_len(0);
    let p = o.create_patch("a\nb\nc\n", "a\nc\n");
    let h = &p.hunks()[0];
    assert_eq!((h.new_range().start(), h.new_range().len()), (1, 0));
    let p = o.create_patch("b\n", "");
    let h = &p.hunks()[0];
    assert_eq!((h.new_range().start(), h.new_range().len()), (0, 0));
    let old = "a\nb\nb\nb\n";
    let p = o.create_patch(old, "a\nb\n");
    assert_eq!(p.hunks()[0].new_range().start(), 2 - if p.hunks()[0].old_range().start() == 2 { 1 } else { 0 });
}
'''),
]
