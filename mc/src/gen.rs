//! Indexed generators of texts, pairs and triples of texts.

use crate::engine::{esc, Ctx, Res, Space};

#[derive(Default, Clone)]
pub struct Pair {
    pub o: Vec<u8>,
    pub m: Vec<u8>,
}

#[derive(Default, Clone)]
pub struct Triple {
    pub o: Vec<u8>,
    pub a: Vec<u8>,
    pub b: Vec<u8>,
}

pub trait PairGen: Sync + Send {
    fn name(&self) -> String;
    fn len(&self) -> u64;
    /// false: not a case (symmetric duplicate or invalid code)
    fn get(&self, i: u64, p: &mut Pair) -> bool;
}

pub trait TripleGen: Sync + Send {
    fn name(&self) -> String;
    fn len(&self) -> u64;
    fn get(&self, i: u64, p: &mut Triple) -> bool;
}

// ------------------------------------------------------------------------------------------------
// sequences over k letters, length 0..=n

pub fn seq_count(k: u64, n: u32) -> u64 {
    (0..=n).map(|l| k.pow(l)).sum()
}

pub fn seq(mut i: u64, k: u64, n: u32, out: &mut Vec<u8>) {
    out.clear();
    for l in 0..=n {
        let c = k.pow(l);
        if i < c {
            for _ in 0..l {
                out.push((i % k) as u8);
                i /= k;
            }
            return;
        }
        i -= c;
    }
    unreachable!("sequence index");
}

/// letters appear in the order 0, 1, 2, ... over the concatenation of the parts
pub fn canonical(parts: &[&[u8]]) -> bool {
    let mut next = 0;
    for p in parts {
        for x in *p {
            if *x == next {
                next += 1;
            } else if *x > next {
                return false;
            }
        }
    }
    true
}

pub fn text(s: &[u8], words: &[Vec<u8>], out: &mut Vec<u8>) {
    out.clear();
    for x in s {
        out.extend_from_slice(&words[*x as usize]);
    }
}

/// removes the final newline; false if that does not give a new text
pub fn cut_eof(t: &mut Vec<u8>) -> bool {
    if t.last() != Some(&b'\n') {
        return false;
    }
    t.pop();
    // the last line must not vanish
    !(t.is_empty() || t.last() == Some(&b'\n'))
}

pub fn letters(k: usize) -> Vec<Vec<u8>> {
    (0..k).map(|i| vec![b'a' + i as u8, b'\n']).collect()
}

/// letter i becomes a block of widths[i] lines
pub fn blocks(widths: &[usize]) -> Vec<Vec<u8>> {
    widths
        .iter()
        .enumerate()
        .map(|(i, w)| (0..*w).flat_map(|j| format!("{}{}\n", (b'a' + i as u8) as char, j).into_bytes()).collect())
        .collect()
}

/// Lines that are easy to confuse with each other or with patch / merge / terminal syntax.
pub fn special_lines(utf8: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        "", " ", "  ", "-", "+", "\\", "@", "@@", "@@ -1 +1 @@", "@@ -1,2 +1,2 @@ f", "--- a", "+++ b", "-- a", "++ b",
        "\\ No newline at end of file", " \\ No newline at end of file", "diff --git a/x b/x", "\t", "\r", "a\r", "a", "A",
        "a ", " a", "a\t", "a\0", "\0", "é", "e\u{301}", "\u{2603}", "\u{2604}", "\u{feff}a", "\u{2028}", "\u{85}", "\u{b}", "\u{c}",
        "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaax",
        "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaay",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    if !utf8 {
        for b in [&b"\xff"[..], b"\xfe", b"\x80", b"\xc3", b"\xc3\xa9\xff", b"a\xff", b"a\xfe"] {
            v.push(b.to_vec());
        }
    }
    for l in &mut v {
        l.push(b'\n');
    }
    v
}

// ------------------------------------------------------------------------------------------------
// pairs

/// All pairs of sequences over k letters up to the given lengths, up to renaming of letters.
pub struct Dense {
    pub k: u64,
    pub n: u32,
    pub eof: bool,
    pub words: Vec<Vec<u8>>,
    pub label: &'static str,
    /// number of common lines before and after
    pub frame: usize,
}

impl Dense {
    pub fn new(k: u64, n: u32, eof: bool) -> Box<dyn PairGen> {
        Box::new(Dense { k, n, eof, words: letters(k as usize), label: "line", frame: 0 })
    }
    pub fn blocks(widths: &[usize], n: u32) -> Box<dyn PairGen> {
        Dense::framed(widths, n, 0)
    }
    pub fn framed(widths: &[usize], n: u32, frame: usize) -> Box<dyn PairGen> {
        Box::new(Dense { k: widths.len() as u64, n, eof: false, words: blocks(widths), label: "block", frame })
    }
}

/// common lines around a text
fn put_frame(t: &mut Vec<u8>, frame: usize) {
    if frame > 0 {
        let mut v: Vec<u8> = (0..frame).flat_map(|i| format!("top {i}\n").into_bytes()).collect();
        v.append(t);
        v.extend((0..frame).flat_map(|i| format!("bottom {i}\n").into_bytes()));
        *t = v;
    }
}

impl PairGen for Dense {
    fn name(&self) -> String {
        let w: Vec<usize> = self.words.iter().map(|w| w.iter().filter(|b| **b == b'\n').count()).collect();
        format!(
            "all pairs of {} sequences, {} letters (lines per letter {:?}), length<={}{}{}",
            self.label, self.k, w, self.n,
            if self.frame > 0 { format!(", between {} common lines", self.frame) } else { String::new() },
            if self.eof { ", with/without final newline" } else { "" }
        )
    }
    fn len(&self) -> u64 {
        let s = seq_count(self.k, self.n);
        s * s * if self.eof { 4 } else { 1 }
    }
    fn get(&self, mut i: u64, p: &mut Pair) -> bool {
        let s = seq_count(self.k, self.n);
        let eof = if self.eof { let e = i % 4; i /= 4; e } else { 0 };
        let (mut a, mut b) = (Vec::with_capacity(16), Vec::with_capacity(16));
        // shorter originals first
        seq(i / s, self.k, self.n, &mut a);
        seq(i % s, self.k, self.n, &mut b);
        // unequal letters have unequal words, so canonical forms only (the words differ per letter
        // when widths differ: then no symmetry is used)
        let symmetric = self.words.iter().all(|w| w.len() == self.words[0].len());
        if symmetric && !canonical(&[&a, &b]) {
            return false;
        }
        text(&a, &self.words, &mut p.o);
        text(&b, &self.words, &mut p.m);
        put_frame(&mut p.o, self.frame);
        put_frame(&mut p.m, self.frame);
        (eof & 1 == 0 || cut_eof(&mut p.o)) && (eof & 2 == 0 || cut_eof(&mut p.m))
    }
}

/// All assignments of r distinct special lines to the letters of all small pairs.
pub struct Skin {
    pool: Vec<Vec<u8>>,
    r: usize,
    n: u32,
    pairs: Vec<(Vec<u8>, Vec<u8>)>,
}

impl Skin {
    pub fn new(utf8: bool, r: usize, n: u32) -> Box<dyn PairGen> {
        let s = seq_count(r as u64, n);
        let mut pairs = Vec::new();
        let (mut a, mut b) = (vec![], vec![]);
        for i in 0..s {
            for j in 0..s {
                seq(i, r as u64, n, &mut a);
                seq(j, r as u64, n, &mut b);
                let used = (0..r as u8).all(|x| a.contains(&x) || b.contains(&x));
                if used && canonical(&[&a, &b]) {
                    pairs.push((a.clone(), b.clone()));
                }
            }
        }
        Box::new(Skin { pool: special_lines(utf8), r, n, pairs })
    }
}

/// i-th ordered choice of r distinct elements out of n
pub fn perm(mut i: u64, n: u64, r: usize, out: &mut Vec<usize>) -> bool {
    out.clear();
    for _ in 0..r {
        let x = (i % n) as usize;
        if out.contains(&x) {
            return false;
        }
        out.push(x);
        i /= n;
    }
    true
}

impl PairGen for Skin {
    fn name(&self) -> String {
        format!("all pairs over {} distinct lines chosen from {} special lines, length<={}, with/without final newline", self.r, self.pool.len(), self.n)
    }
    fn len(&self) -> u64 {
        (self.pool.len() as u64).pow(self.r as u32) * self.pairs.len() as u64 * 4
    }
    fn get(&self, i: u64, p: &mut Pair) -> bool {
        let eof = i % 4;
        let i = i / 4;
        let (a, b) = &self.pairs[(i % self.pairs.len() as u64) as usize];
        let mut w = Vec::new();
        if !perm(i / self.pairs.len() as u64, self.pool.len() as u64, self.r, &mut w) {
            return false;
        }
        p.o.clear();
        p.m.clear();
        for x in a {
            p.o.extend_from_slice(&self.pool[w[*x as usize]]);
        }
        for x in b {
            p.m.extend_from_slice(&self.pool[w[*x as usize]]);
        }
        (eof & 1 == 0 || cut_eof(&mut p.o)) && (eof & 2 == 0 || cut_eof(&mut p.m))
    }
}

/// Deviation-bounded edits of a base of L lines: all sets of at most `dev` edits.
pub struct Dev {
    pub l: usize,
    pub period: usize, // 0: all lines distinct
    pub fresh: bool,   // inserted lines are all different / all equal to base letters
    pub dev: u32,
    pub eof: bool,
    pub ops: u64,
}

pub const DEV_OPS: u64 = 7;

fn base_line(period: usize, i: usize, out: &mut Vec<u8>) {
    if period == 0 {
        out.extend_from_slice(format!("l{i}\n").as_bytes());
    } else {
        out.extend_from_slice(&[b'a' + (i % period) as u8, b'\n']);
    }
}

/// Decode i into a set of edits at strictly increasing places.  None: not canonical.
pub fn dev_decode(mut i: u64, l: usize, ops: u64, dev: u32, out: &mut Vec<(usize, u8)>) -> bool {
    out.clear();
    let n = (l as u64 + 1) * ops;
    for d in 0..=dev {
        let c = n.pow(d);
        if i < c {
            for _ in 0..d {
                let e = i % n;
                i /= n;
                let (pos, op) = ((e / ops) as usize, (e % ops) as u8);
                if let Some(last) = out.last() {
                    if last.0 >= pos {
                        return false;
                    }
                }
                // only insertions at the end
                if pos == l && !matches!(op, 2 | 4 | 6) {
                    return false;
                }
                out.push((pos, op));
            }
            return true;
        }
        i -= c;
    }
    false
}

pub fn dev_count(l: usize, ops: u64, dev: u32) -> u64 {
    let n = (l as u64 + 1) * ops;
    (0..=dev).map(|d| n.pow(d)).sum()
}

/// Apply edits to the base.  `tag` keeps the fresh lines of different sides apart.
pub fn dev_apply(l: usize, period: usize, fresh: bool, tag: &str, edits: &[(usize, u8)], out: &mut Vec<u8>) {
    out.clear();
    let mut skip = 0;
    for i in 0..=l {
        let e = edits.iter().find(|e| e.0 == i).map(|e| e.1);
        let ins = |out: &mut Vec<u8>, j: usize| {
            if fresh {
                out.extend_from_slice(format!("{tag}{i}.{j}\n").as_bytes());
            } else {
                base_line(period.max(1), i + j + 1, out);
            }
        };
        match e {
            Some(2) => ins(out, 0),
            Some(3) => base_line(period, i, out),
            Some(4) => out.push(b'\n'),
            Some(6) => (0..4).for_each(|j| ins(out, j)),
            _ => {}
        }
        if i == l {
            break;
        }
        if skip > 0 {
            skip -= 1;
            continue;
        }
        match e {
            Some(0) => {}
            Some(1) => ins(out, 0),
            Some(5) => skip = 2,
            _ => base_line(period, i, out),
        }
    }
}

pub fn dev_base(l: usize, period: usize, out: &mut Vec<u8>) {
    out.clear();
    for i in 0..l {
        base_line(period, i, out);
    }
}

impl PairGen for Dev {
    fn name(&self) -> String {
        format!(
            "all sets of <={} edits of {} kinds on {} lines ({}; inserted lines {}){}",
            self.dev, self.ops, self.l,
            if self.period == 0 { "all distinct".to_string() } else { format!("period {}", self.period) },
            if self.fresh { "new" } else { "repeating" },
            if self.eof { ", with/without final newline" } else { "" }
        )
    }
    fn len(&self) -> u64 {
        dev_count(self.l, self.ops, self.dev) * if self.eof { 4 } else { 1 }
    }
    fn get(&self, mut i: u64, p: &mut Pair) -> bool {
        let eof = if self.eof { let e = i % 4; i /= 4; e } else { 0 };
        let mut e = Vec::with_capacity(4);
        if !dev_decode(i, self.l, self.ops, self.dev, &mut e) {
            return false;
        }
        dev_base(self.l, self.period, &mut p.o);
        dev_apply(self.l, self.period, self.fresh, "n", &e, &mut p.m);
        (eof & 1 == 0 || cut_eof(&mut p.o)) && (eof & 2 == 0 || cut_eof(&mut p.m))
    }
}

/// Pairs of periodic texts.
pub struct Periodic {
    pub pmax: u64,
    pub n: u64,
}

impl PairGen for Periodic {
    fn name(&self) -> String {
        format!("all pairs of periodic texts, periods<={}, all shifts, lengths<={}", self.pmax, self.n)
    }
    fn len(&self) -> u64 {
        self.pmax * self.pmax * self.pmax * (self.n + 1) * (self.n + 1)
    }
    fn get(&self, mut i: u64, p: &mut Pair) -> bool {
        let m = i % (self.n + 1);
        i /= self.n + 1;
        let n = i % (self.n + 1);
        i /= self.n + 1;
        let shift = i % self.pmax;
        i /= self.pmax;
        let q = i % self.pmax + 1;
        let pp = i / self.pmax + 1;
        if shift >= q {
            return false;
        }
        p.o.clear();
        p.m.clear();
        for j in 0..n {
            p.o.extend_from_slice(&[b'a' + (j % pp) as u8, b'\n']);
        }
        for j in 0..m {
            p.m.extend_from_slice(&[b'a' + ((j + shift) % q) as u8, b'\n']);
        }
        true
    }
}

/// Sizes around powers of two: few cases, large inputs.
#[derive(Clone, Copy, Debug)]
pub enum Big {
    /// n distinct lines, edits of a kind at {first, middle, last} (mask)
    Lines { n: usize, mask: u8, kind: u8 },
    /// h edits of a kind, `gap` lines apart
    Hunks { h: usize, gap: usize, kind: u8 },
    /// a line of this length, changed at byte {first, middle, last}, or extended by one
    LineLen { len: usize, at: u8 },
    /// completely different texts
    Replace { n: usize, m: usize },
    /// halves swapped
    Swap { n: usize, at: usize },
    /// every k-th line of n removed / changed / doubled
    Every { n: usize, k: usize, kind: u8 },
    /// n equal lines to m equal lines
    Same { n: usize, m: usize },
}

pub fn around_powers(lo: u32, hi: u32) -> Vec<usize> {
    let mut v = Vec::new();
    for k in lo..=hi {
        let p = 1usize << k;
        v.extend([p - 1, p, p + 1]);
    }
    v.sort();
    v.dedup();
    v
}

pub fn big_cases(max_pow: u32) -> Vec<Big> {
    let mut v = Vec::new();
    for n in around_powers(1, max_pow) {
        for mask in 1..8u8 {
            for kind in 0..3u8 {
                if n > 3000 && (mask == 3 || mask == 6) {
                    continue;
                }
                v.push(Big::Lines { n, mask, kind });
            }
        }
    }
    for n in around_powers(1, 13.min(max_pow + 1)) {
        for at in 0..4 {
            v.push(Big::LineLen { len: n, at });
        }
    }
    for n in around_powers(14, 17) {
        for at in 0..4 {
            v.push(Big::LineLen { len: n, at });
        }
    }
    let mut hs: Vec<usize> = (1..=40).collect();
    hs.extend(around_powers(6, max_pow.min(11)));
    hs.extend([99, 100, 101, 150, 200, 300]);
    for h in hs {
        for gap in [1, 5, 8, 12] {
            for kind in 0..3 {
                v.push(Big::Hunks { h, gap, kind });
            }
        }
    }
    let small: Vec<usize> = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400]
        .into_iter()
        .collect();
    for &n in &small {
        for &m in &small {
            v.push(Big::Replace { n, m });
            v.push(Big::Same { n, m });
        }
    }
    for &n in &small {
        for at in [1, 2, n / 3, n / 2, n.saturating_sub(1)] {
            v.push(Big::Swap { n, at });
        }
        for k in [2, 3, 4, 5, 7, 10, 20] {
            for kind in 0..3 {
                v.push(Big::Every { n, k, kind });
            }
        }
    }
    v
}

pub fn big_pair(b: Big, p: &mut Pair) -> bool {
    p.o.clear();
    p.m.clear();
    let line = |v: &mut Vec<u8>, i: usize| v.extend_from_slice(format!("line {i}\n").as_bytes());
    match b {
        Big::Lines { n, mask, kind } => {
            let at = [0, n / 2, n - 1];
            for i in 0..n {
                line(&mut p.o, i);
                let hit = (0..3).any(|b| mask >> b & 1 == 1 && at[b] == i);
                match (hit, kind) {
                    (false, _) => line(&mut p.m, i),
                    (true, 0) => {}
                    (true, 1) => {
                        line(&mut p.m, i);
                        p.m.extend_from_slice(b"new\n");
                    }
                    (true, _) => p.m.extend_from_slice(b"new\n"),
                }
            }
        }
        Big::Hunks { h, gap, kind } => {
            for i in 0..h {
                for j in 0..gap {
                    line(&mut p.o, i * gap + j);
                    line(&mut p.m, i * gap + j);
                }
                match kind {
                    0 => p.o.extend_from_slice(b"gone\n"),
                    1 => p.m.extend_from_slice(b"new\n"),
                    _ => {
                        p.o.extend_from_slice(format!("gone {i}\n").as_bytes());
                        p.m.extend_from_slice(format!("new {i}\n").as_bytes());
                    }
                }
            }
            line(&mut p.o, 0);
            line(&mut p.m, 0);
        }
        Big::LineLen { len, at } => {
            let mut l = vec![b'x'; len];
            p.o.extend_from_slice(b"first\n");
            p.m.extend_from_slice(b"first\n");
            p.o.extend_from_slice(&l);
            match at {
                0 => l[0] = b'y',
                1 => l[len / 2] = b'y',
                2 => l[len - 1] = b'y',
                _ => l.push(b'x'),
            }
            p.m.extend_from_slice(&l);
            p.o.extend_from_slice(b"\nlast");
            p.m.extend_from_slice(b"\nlast");
        }
        Big::Replace { n, m } => {
            for i in 0..n {
                line(&mut p.o, i);
            }
            for i in 0..m {
                p.m.extend_from_slice(format!("other {i}\n").as_bytes());
            }
        }
        Big::Swap { n, at } => {
            if at > n {
                return false;
            }
            for i in 0..n {
                line(&mut p.o, i);
            }
            for i in (at..n).chain(0..at) {
                line(&mut p.m, i);
            }
        }
        Big::Every { n, k, kind } => {
            for i in 0..n {
                line(&mut p.o, i);
                match (i % k == k - 1, kind) {
                    (true, 0) => {}
                    (true, 1) => p.m.extend_from_slice(b"changed\n"),
                    (true, _) => {
                        line(&mut p.m, i);
                        line(&mut p.m, i);
                    }
                    _ => line(&mut p.m, i),
                }
            }
        }
        Big::Same { n, m } => {
            for _ in 0..n {
                p.o.extend_from_slice(b"same\n");
            }
            for _ in 0..m {
                p.m.extend_from_slice(b"same\n");
            }
        }
    }
    true
}

pub struct BigPairs {
    pub cases: Vec<Big>,
    pub label: String,
}

impl BigPairs {
    pub fn new(max_pow: u32) -> Box<dyn PairGen> {
        Box::new(BigPairs {
            cases: big_cases(max_pow),
            label: format!("size ladder: lines, hunks, line lengths, full replacements around powers of two up to 2^{max_pow}"),
        })
    }

    /// a few shapes to combine with many context lengths
    pub fn shapes() -> Box<dyn PairGen> {
        let mut cases = Vec::new();
        for n in [1, 2, 7, 40, 600] {
            for kind in 0..3 {
                for mask in [1, 2, 4, 7] {
                    cases.push(Big::Lines { n, mask, kind });
                }
            }
        }
        for h in [2, 3, 5] {
            for gap in [1, 5, 8, 12, 40, 300] {
                for kind in 0..3 {
                    cases.push(Big::Hunks { h, gap, kind });
                }
            }
        }
        Box::new(BigPairs { cases, label: "single and multiple changes at many distances".into() })
    }

    /// thousands of changes, in one hunk or in many
    pub fn many(hs: &[usize]) -> Box<dyn PairGen> {
        let mut cases = Vec::new();
        for h in hs {
            for gap in [1, 8] {
                for kind in 0..3 {
                    cases.push(Big::Hunks { h: *h, gap, kind });
                }
            }
        }
        Box::new(BigPairs { cases, label: format!("n changes 1 or 8 lines apart, n in {hs:?}") })
    }

    /// many long runs of equal lines between many changes
    pub fn long_snakes(n: usize) -> Box<dyn PairGen> {
        let mut cases = Vec::new();
        for k in [10, 20, 21, 40, 100] {
            for kind in 0..3 {
                cases.push(Big::Every { n, k, kind });
            }
        }
        for at in [1, 20, n / 2, n - 50] {
            cases.push(Big::Swap { n, at });
        }
        for h in [100, 300] {
            for kind in 0..3 {
                cases.push(Big::Hunks { h, gap: n / h, kind });
            }
        }
        Box::new(BigPairs { cases, label: format!("{n} lines with a change every 10 to 100 lines, or rotated") })
    }

    /// more lines than 16 bits can count
    pub fn giant(pow: u32) -> Box<dyn PairGen> {
        let p = 1usize << pow;
        let mut cases = Vec::new();
        for n in [p, p + 1, p - 1] {
            for (mask, kind) in [(1, 2), (2, 0), (4, 2), (4, 1)] {
                cases.push(Big::Lines { n, mask, kind });
            }
        }
        Box::new(BigPairs { cases, label: format!("2^{pow}-1, 2^{pow} and 2^{pow}+1 distinct lines, one edit") })
    }
}

/// context lengths around powers of two
pub fn context_ladder() -> Vec<usize> {
    let mut v = vec![0];
    for k in 2..64 {
        let p = 1usize << k;
        if k < 11 {
            v.extend([p - 1, p]);
        } else if k % 8 == 0 || k >= 61 {
            v.extend([p - 1, p, p + 1]);
        } else {
            v.push(p);
        }
    }
    v.extend([usize::MAX - 1, usize::MAX, usize::MAX / 2 + 2, usize::MAX / 3]);
    v
}

/// lines per block in the block ladders
pub const BLOCKS: [usize; 9] = [2, 4, 7, 10, 20, 21, 65, 130, 300];

impl PairGen for BigPairs {
    fn name(&self) -> String {
        self.label.clone()
    }
    fn len(&self) -> u64 {
        self.cases.len() as u64
    }
    fn get(&self, i: u64, p: &mut Pair) -> bool {
        big_pair(self.cases[i as usize], p)
    }
}

pub type PairCheck = fn(&mut Ctx, &Pair, &[usize]) -> Res;

pub struct PairSpace {
    pub gen: Box<dyn PairGen>,
    pub ctxs: Vec<usize>,
    pub check: PairCheck,
}

impl Space for PairSpace {
    fn name(&self) -> String {
        format!("{}; context lengths {:?}", self.gen.name(), self.ctxs)
    }
    fn len(&self) -> u64 {
        self.gen.len()
    }
    fn run(&self, i: u64, c: &mut Ctx) -> Res {
        let mut p = Pair::default();
        if !self.gen.get(i, &mut p) {
            c.skipped += 1;
            return Ok(());
        }
        c.states += 1;
        c.sample(|| format!("original {} modified {} contexts {:?}", esc(&p.o), esc(&p.m), self.ctxs));
        (self.check)(c, &p, &self.ctxs)
    }
    fn describe(&self, i: u64) -> String {
        let mut p = Pair::default();
        self.gen.get(i, &mut p);
        format!("original={} modified={} context lengths tried={:?}", esc(&p.o), esc(&p.m), self.ctxs)
    }
}

/// The pair spaces shared by the diff properties.  `weight` 1 is the normal depth; checks with
/// expensive oracles use 0.
pub fn pair_spaces(tier: crate::engine::Tier, weight: i32, check: PairCheck) -> Vec<Box<dyn Space>> {
    use crate::engine::Tier::*;
    let big = usize::MAX;
    let mut v: Vec<(Box<dyn PairGen>, Vec<usize>)> = Vec::new();
    let t = |q: u32, th: u32| if tier == Quick { q } else { th };
    let w = |n: u32| (n as i32 + if tier == Quick { weight } else { weight.max(0) }) as u32;
    // the light selection of the quick tier
    let light = weight < 0 && tier == Quick;
    let l = |l: u32, n: u32| if light { l } else { n };
    // tiny first: shortest counterexamples
    v.push((Dense::new(3, 3, true), vec![3, 0, 1, 2, 4, big]));
    v.push((Dense::new(3, l(4, t(5, 6)), true), vec![0, 1, 2, 3]));
    v.push((Dense::new(3, w(t(6, 7)), false), vec![0, 1, 3]));
    v.push((Dense::new(2, w(t(8, 10)), false), vec![0, 1, 2]));
    v.push((Dense::new(4, l(4, t(5, 6)), false), vec![0, 1]));
    v.push((Dense::new(5, l(3, t(4, 5)), false), vec![0, 3]));
    v.push((Skin::new(true, 2, l(2, t(3, 4))), vec![0, 3]));
    v.push((Skin::new(false, 2, t(2, 3)), vec![1]));
    v.push((Skin::new(true, 3, l(1, t(2, 3))), vec![0, 3]));
    v.push((Dense::blocks(&[2, 2, 2], t(4, 5)), vec![0, 1, 2, 3]));
    v.push((Dense::blocks(&[1, 3, 7], t(4, 5)), vec![0, 1, 2, 3, 4]));
    v.push((Dense::blocks(&[5, 9, 2], t(4, 5)), vec![0, 2, 3, 7]));
    for (n, dev) in [(1, 2), (2, 3), (4, 3), (7, l(2, 3)), (8, l(2, 3)), (13, t(2, 3)), (20, l(1, 2)), (40, l(1, 2)), (70, t(1, 2))] {
        v.push((Box::new(Dev { l: n, period: 0, fresh: true, dev, eof: n <= 7, ops: DEV_OPS }), vec![0, 1, 2, 3, 4, 6, big]));
    }
    if tier == Thorough {
        v.push((Box::new(Dev { l: 16, period: 0, fresh: true, dev: 4, eof: false, ops: 3 }), vec![0, 1, 2, 3]));
        v.push((Box::new(Dev { l: 150, period: 0, fresh: true, dev: 2, eof: false, ops: DEV_OPS }), vec![0, 1, 3, 10]));
    }
    for period in [1, 2, 3] {
        for (n, dev) in [(5, l(2, 3)), (9, t(2, 3)), (16, l(1, 2))] {
            v.push((Box::new(Dev { l: n, period, fresh: false, dev, eof: n == 5, ops: DEV_OPS }), vec![0, 1, 3]));
            v.push((Box::new(Dev { l: n, period, fresh: true, dev, eof: false, ops: DEV_OPS }), vec![0, 2]));
        }
    }
    v.push((Box::new(Periodic { pmax: l(3, t(4, 5)) as u64, n: l(14, t(20, 45)) as u64 }), vec![0, 3]));
    v.push((BigPairs::new(w(t(11, 15))), vec![3, 0]));
    v.push((BigPairs::shapes(), context_ladder()));
    for b in BLOCKS {
        v.push((Dense::framed(&[b, b], l(3, t(4, 5)), 0), vec![3]));
        v.push((Dense::framed(&[b, b], 3, 5), vec![3]));
    }
    v.push((Words::new(if tier == Quick { &[2, 5, 12, 30, 65] } else { &[1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 17, 20, 24, 30, 33, 40, 50, 65, 80, 100, 129, 150, 200] }), vec![0, 3]));
    v.push((Words::new(if light { &[90] } else if tier == Quick { &[90, 140] } else { &[257, 300, 400, 500, 600] }), vec![2]));
    v.push((BigPairs::long_snakes(if tier == Quick { 3000 } else { 12000 }), vec![3]));
    v.push((Box::new(Alike), if light { vec![0] } else { vec![0, 3] }));
    v.push((Box::new(Chars), if light { vec![3] } else { vec![0, 3] }));
    v.push((Regions2::new(if light { &[40, 300] } else if tier == Quick { &[10, 40, 70, 135, 300, 600, 1100] } else { &[10, 20, 40, 70, 135, 300, 600, 1100, 2200, 4400, 9000] }), if light { vec![3] } else { vec![3, 0] }));
    v.push((BigPairs::many(if light { &[4100] } else if tier == Quick { &[4100, 6000] } else { &[4100, 6000, 10001, 20000, 40000] }), vec![3]));
    v.push((BigPairs::giant(16), vec![3]));
    if tier == Thorough {
        v.push((BigPairs::giant(17), vec![0]));
        v.push((BigPairs::giant(15), vec![0]));
    }
    v.into_iter().map(|(gen, ctxs)| Box::new(PairSpace { gen, ctxs, check }) as Box<dyn Space>).collect()
}

// ------------------------------------------------------------------------------------------------
// triples

pub struct Dense3 {
    pub k: u64,
    /// longest ancestor
    pub no: u32,
    /// longest side
    pub n: u32,
    pub eof: bool,
    pub words: Vec<Vec<u8>>,
    /// number of common lines before and after
    pub frame: usize,
}

impl Dense3 {
    pub fn new(k: u64, n: u32, eof: bool) -> Box<dyn TripleGen> {
        Box::new(Dense3 { k, no: n, n, eof, words: letters(k as usize), frame: 0 })
    }
    pub fn framed(widths: &[usize], no: u32, n: u32, frame: usize) -> Box<dyn TripleGen> {
        Box::new(Dense3 { k: widths.len() as u64, no, n, eof: false, words: blocks(widths), frame })
    }
}

impl TripleGen for Dense3 {
    fn name(&self) -> String {
        let w: Vec<usize> = self.words.iter().map(|w| w.iter().filter(|b| **b == b'\n').count()).collect();
        format!(
            "all triples of sequences, {} letters (lines per letter {:?}), length<={}{}{}{}",
            self.k, w, self.n,
            if self.no < self.n { format!(" (ancestor <={})", self.no) } else { String::new() },
            if self.frame > 0 { format!(", between {} common lines", self.frame) } else { String::new() },
            if self.eof { ", with/without final newline" } else { "" }
        )
    }
    fn len(&self) -> u64 {
        seq_count(self.k, self.no) * seq_count(self.k, self.n).pow(2) * if self.eof { 8 } else { 1 }
    }
    fn get(&self, mut i: u64, p: &mut Triple) -> bool {
        let s = seq_count(self.k, self.n);
        let eof = if self.eof { let e = i % 8; i /= 8; e } else { 0 };
        let (mut a, mut b, mut c) = (Vec::with_capacity(8), Vec::with_capacity(8), Vec::with_capacity(8));
        seq(i / s / s, self.k, self.no, &mut a);
        seq(i / s % s, self.k, self.n, &mut b);
        seq(i % s, self.k, self.n, &mut c);
        let symmetric = self.words.iter().all(|w| w.len() == self.words[0].len());
        if symmetric && !canonical(&[&a, &b, &c]) {
            return false;
        }
        text(&a, &self.words, &mut p.o);
        text(&b, &self.words, &mut p.a);
        text(&c, &self.words, &mut p.b);
        for t in [&mut p.o, &mut p.a, &mut p.b] {
            put_frame(t, self.frame);
        }
        (eof & 1 == 0 || cut_eof(&mut p.o)) && (eof & 2 == 0 || cut_eof(&mut p.a)) && (eof & 4 == 0 || cut_eof(&mut p.b))
    }
}

/// All pairs of edit sets (<= dev each) on one base.
pub struct Dev3 {
    pub l: usize,
    pub period: usize,
    pub fresh: bool,
    /// both sides draw inserted lines from the same names (equal changes possible)
    pub same_tag: bool,
    pub dev: u32,
    pub dev_b: u32,
    pub eof: bool,
    pub ops: u64,
    sets: Vec<Vec<(usize, u8)>>,
    sets_b: Vec<Vec<(usize, u8)>>,
}

impl Dev3 {
    #[allow(clippy::too_many_arguments)]
    pub fn new(l: usize, period: usize, fresh: bool, same_tag: bool, dev: u32, dev_b: u32, eof: bool, ops: u64) -> Box<dyn TripleGen> {
        let all = |dev| {
            let mut sets = Vec::new();
            let mut e = Vec::new();
            for i in 0..dev_count(l, ops, dev) {
                if dev_decode(i, l, ops, dev, &mut e) {
                    sets.push(e.clone());
                }
            }
            sets
        };
        Box::new(Dev3 { l, period, fresh, same_tag, dev, dev_b, eof, ops, sets: all(dev), sets_b: all(dev_b) })
    }
}

impl TripleGen for Dev3 {
    fn name(&self) -> String {
        format!(
            "all pairs of edit sets (<={} edits by ours, <={} by theirs, {} kinds) on {} lines ({}; inserted lines {}{}){}",
            self.dev, self.dev_b, self.ops, self.l,
            if self.period == 0 { "all distinct".to_string() } else { format!("period {}", self.period) },
            if self.fresh { "new" } else { "repeating" },
            if self.same_tag { ", shared by both sides" } else { "" },
            if self.eof { ", with/without final newline" } else { "" }
        )
    }
    fn len(&self) -> u64 {
        (self.sets.len() * self.sets_b.len()) as u64 * if self.eof { 8 } else { 1 }
    }
    fn get(&self, mut i: u64, p: &mut Triple) -> bool {
        let eof = if self.eof { let e = i % 8; i /= 8; e } else { 0 };
        let n = self.sets_b.len() as u64;
        dev_base(self.l, self.period, &mut p.o);
        dev_apply(self.l, self.period, self.fresh, if self.same_tag { "n" } else { "a" }, &self.sets[(i / n) as usize], &mut p.a);
        dev_apply(self.l, self.period, self.fresh, if self.same_tag { "n" } else { "b" }, &self.sets_b[(i % n) as usize], &mut p.b);
        (eof & 1 == 0 || cut_eof(&mut p.o)) && (eof & 2 == 0 || cut_eof(&mut p.a)) && (eof & 4 == 0 || cut_eof(&mut p.b))
    }
}

pub struct Skin3 {
    pool: Vec<Vec<u8>>,
    r: usize,
    n: u32,
    triples: Vec<[Vec<u8>; 3]>,
}

impl Skin3 {
    pub fn new(utf8: bool, r: usize, n: u32) -> Box<dyn TripleGen> {
        let s = seq_count(r as u64, n);
        let mut triples = Vec::new();
        let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
        for i in 0..s * s * s {
            seq(i / s / s, r as u64, n, &mut a);
            seq(i / s % s, r as u64, n, &mut b);
            seq(i % s, r as u64, n, &mut c);
            let used = (0..r as u8).all(|x| a.contains(&x) || b.contains(&x) || c.contains(&x));
            if used && canonical(&[&a, &b, &c]) {
                triples.push([a.clone(), b.clone(), c.clone()]);
            }
        }
        Box::new(Skin3 { pool: special_lines(utf8), r, n, triples })
    }
}

impl TripleGen for Skin3 {
    fn name(&self) -> String {
        format!("all triples over {} distinct lines chosen from {} special lines, length<={}, with/without final newline", self.r, self.pool.len(), self.n)
    }
    fn len(&self) -> u64 {
        (self.pool.len() as u64).pow(self.r as u32) * self.triples.len() as u64 * 8
    }
    fn get(&self, i: u64, p: &mut Triple) -> bool {
        let eof = i % 8;
        let i = i / 8;
        let [a, b, c] = &self.triples[(i % self.triples.len() as u64) as usize];
        let mut w = Vec::new();
        if !perm(i / self.triples.len() as u64, self.pool.len() as u64, self.r, &mut w) {
            return false;
        }
        for (s, t) in [(a, &mut p.o), (b, &mut p.a), (c, &mut p.b)] {
            t.clear();
            for x in s {
                t.extend_from_slice(&self.pool[w[*x as usize]]);
            }
        }
        (eof & 1 == 0 || cut_eof(&mut p.o)) && (eof & 2 == 0 || cut_eof(&mut p.a)) && (eof & 4 == 0 || cut_eof(&mut p.b))
    }
}

/// Large triples: all pairs of big cases on the same base.
pub struct Big3 {
    pub cases: Vec<(usize, u8, u8, u8, u8)>,
    pub label: String,
}

impl Big3 {
    /// more lines than 16 bits can count
    pub fn giant(pow: u32) -> Box<dyn TripleGen> {
        let n = 1usize << pow;
        let cases = vec![(n, 1, 1, 2, 2), (n, 2, 0, 4, 2), (n, 4, 2, 4, 2), (n + 1, 4, 1, 1, 0), (n + 1, 5, 2, 2, 2)];
        Box::new(Big3 { cases, label: format!("2^{pow} and 2^{pow}+1 distinct lines, one or two edits per side") })
    }

    /// a conflict every other line
    pub fn conflicts(sizes: &[usize]) -> Box<dyn TripleGen> {
        let mut cases = Vec::new();
        for n in sizes {
            for (a, b) in [(2, 2), (1, 1), (0, 2)] {
                cases.push((2 * *n, 8 + 2, a, 8 + 2, b));
            }
        }
        Box::new(Big3 { cases, label: format!("both sides edit every other of 2n distinct lines, n in {sizes:?}") })
    }

    /// many regions
    pub fn many(sizes: &[usize]) -> Box<dyn TripleGen> {
        let mut cases = Vec::new();
        for n in sizes {
            for (ka, kb) in [(2, 2), (3, 2), (2, 3), (3, 3), (5, 7)] {
                for (a, b) in [(2, 2), (1, 1), (0, 2), (2, 1)] {
                    cases.push((*n, 8 + ka, a, 8 + kb, b));
                }
            }
        }
        Box::new(Big3 { cases, label: format!("both sides edit every k-th of n distinct lines, n in {sizes:?}") })
    }

    pub fn new(max_pow: u32) -> Box<dyn TripleGen> {
        let mut cases = Vec::new();
        for n in around_powers(2, max_pow) {
            for ma in 0..8u8 {
                for mb in 0..8u8 {
                    for (ka, kb) in [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (0, 2), (2, 0), (2, 2)] {
                        if n > 200 && (ma + mb) % 3 != 0 {
                            continue;
                        }
                        cases.push((n, ma, ka, mb, kb));
                    }
                }
            }
        }
        // every k-th line: encoded with mask >= 8
        for n in [30usize, 64, 100, 257, 600] {
            for ka in 2..8u8 {
                for kb in 2..8u8 {
                    for kind in 0..9u8 {
                        cases.push((n, 8 + ka, kind % 3, 8 + kb, kind / 3));
                    }
                }
            }
        }
        Box::new(Big3 {
            cases,
            label: format!("size ladder: both sides edit first/middle/last or every k-th of n distinct lines, n around powers of two up to 2^{max_pow}"),
        })
    }
}

/// One region of a large size: what each side does with a block.
pub struct Block3 {
    sizes: Vec<usize>,
    places: usize,
}

impl Block3 {
    const OPS: usize = 11;
    pub fn new(sizes: Vec<usize>, places: usize) -> Box<dyn TripleGen> {
        Box::new(Block3 { sizes, places })
    }
}

impl TripleGen for Block3 {
    fn name(&self) -> String {
        format!("one block of k lines inserted or deleted by each side ({0} x {0} ways: own lines, the same lines, all but one of the same, ...) at {1} places, k in {2:?}", Self::OPS, self.places, self.sizes)
    }
    fn len(&self) -> u64 {
        (self.sizes.len() * self.places * Self::OPS * Self::OPS) as u64
    }
    fn get(&self, i: u64, p: &mut Triple) -> bool {
        let mut i = i as usize;
        let (x, y) = (i % Self::OPS, i / Self::OPS % Self::OPS);
        i /= Self::OPS * Self::OPS;
        if (x == 8 || y == 8) && self.sizes[i / self.places] > 5001 {
            // takes quadratic time
            return false;
        }
        // the middle first
        let place = [1, 0, 2][i % self.places];
        let k = self.sizes[i / self.places];
        let lines = |tag: &str, r: std::ops::Range<usize>, t: &mut Vec<u8>| {
            for j in r {
                t.extend_from_slice(format!("{tag}{j}\n").as_bytes());
            }
        };
        p.o.clear();
        if place > 0 {
            lines("before ", 0..4, &mut p.o);
        }
        lines("line ", 0..k, &mut p.o);
        if place < 2 {
            lines("after ", 0..4, &mut p.o);
        }
        for (t, op, tag) in [(&mut p.a, x, "ours "), (&mut p.b, y, "theirs ")] {
            t.clear();
            if place > 0 {
                lines("before ", 0..4, t);
            }
            match op {
                0 => lines("line ", 0..k, t),
                1 => {
                    lines("line ", 0..k / 2, t);
                    lines(tag, 0..k, t);
                    lines("line ", k / 2..k, t);
                }
                2 => {}
                3 => {
                    lines("line ", 0..k / 2, t);
                    lines("same ", 0..k, t);
                    lines("line ", k / 2..k, t);
                }
                4 => {
                    lines("line ", 0..k / 2, t);
                    lines("same ", 0..k - 1, t);
                    lines("line ", k / 2..k, t);
                }
                5 => {
                    lines("line ", 0..k / 2, t);
                    lines("same ", 1..k, t);
                    lines("line ", k / 2..k, t);
                }
                6 => {
                    lines("line ", 0..k / 2, t);
                    lines("same ", 0..k / 2, t);
                    lines(tag, 0..1, t);
                    lines("same ", k / 2 + 1..k, t);
                    lines("line ", k / 2..k, t);
                }
                7 => lines("line ", k - 1..k, t),
                9 => {
                    lines("line ", 0..k / 2, t);
                    lines("same ", 0..k - 1, t);
                    lines(tag, 0..1, t);
                    lines("line ", k / 2..k, t);
                }
                10 => {
                    lines("line ", 0..k / 2, t);
                    lines(tag, 0..1, t);
                    lines("same ", 1..k, t);
                    lines("line ", k / 2..k, t);
                }
                _ => {
                    lines("line ", 0..1, t);
                    lines(tag, 0..1, t);
                }
            }
            if place < 2 {
                lines("after ", 0..4, t);
            }
        }
        true
    }
}

impl TripleGen for Big3 {
    fn name(&self) -> String {
        self.label.clone()
    }
    fn len(&self) -> u64 {
        self.cases.len() as u64
    }
    fn get(&self, i: u64, p: &mut Triple) -> bool {
        let (n, ma, ka, mb, kb) = self.cases[i as usize];
        p.o.clear();
        p.a.clear();
        p.b.clear();
        let at = [0, n / 2, n - 1];
        for i in 0..n {
            let l = format!("line {i}\n");
            p.o.extend_from_slice(l.as_bytes());
            for (t, mask, kind, tag) in [(&mut p.a, ma, ka, "a"), (&mut p.b, mb, kb, "b")] {
                let hit = if mask < 8 {
                    (0..3).any(|b| mask >> b & 1 == 1 && at[b] == i)
                } else {
                    i % (mask as usize - 8) == 1
                };
                match (hit, kind) {
                    (false, _) => t.extend_from_slice(l.as_bytes()),
                    (true, 0) => {}
                    (true, 1) => {
                        t.extend_from_slice(l.as_bytes());
                        t.extend_from_slice(format!("{tag} new\n").as_bytes());
                    }
                    (true, _) => t.extend_from_slice(format!("{tag} changed {i}\n").as_bytes()),
                }
            }
        }
        true
    }
}

pub type TripleCheck = fn(&mut Ctx, &Triple) -> Res;

pub struct TripleSpace {
    pub gen: Box<dyn TripleGen>,
    pub check: TripleCheck,
}

impl Space for TripleSpace {
    fn name(&self) -> String {
        self.gen.name()
    }
    fn len(&self) -> u64 {
        self.gen.len()
    }
    fn run(&self, i: u64, c: &mut Ctx) -> Res {
        let mut p = Triple::default();
        if !self.gen.get(i, &mut p) {
            c.skipped += 1;
            return Ok(());
        }
        c.states += 1;
        c.sample(|| format!("ancestor {} ours {} theirs {}", esc(&p.o), esc(&p.a), esc(&p.b)));
        (self.check)(c, &p)
    }
    fn describe(&self, i: u64) -> String {
        let mut p = Triple::default();
        self.gen.get(i, &mut p);
        format!("ancestor={} ours={} theirs={}", esc(&p.o), esc(&p.a), esc(&p.b))
    }
}

pub fn triple_spaces(tier: crate::engine::Tier, weight: i32, check: TripleCheck) -> Vec<Box<dyn Space>> {
    use crate::engine::Tier::*;
    let t = |q: u32, th: u32| if tier == Quick { q } else { th };
    let light = weight < 0 && tier == Quick;
    let l = |l: u32, n: u32| if light { l } else { n };
    let d = Dense3::new;
    let mut v: Vec<Box<dyn TripleGen>> = vec![
        d(3, 2, true),
        d(3, 3, true),
        d(2, l(3, t(4, 5)), true),
        d(3, l(3, 4), false),
        d(2, l(4, t(5, 6)), false),
        d(4, 3, false),
    ];
    if tier == Thorough {
        v.push(d(4, 4, false));
        v.push(d(3, 5, false));
        v.push(d(2, 7, false));
    } else if weight > 0 {
        v.push(d(2, 6, false));
        v.push(d(4, 4, false));
    }
    v.push(Dense3::framed(&[1, 3, 6], 3, 3, 0));
    v.push(Dense3::framed(&[2, 5], 4, 4, 0));
    // one region between common lines
    v.push(Dense3::framed(&[1; 4], 1, l(3, 4), 1));
    v.push(Dense3::framed(&[1; 3], 2, t(3, 4), 2));
    for w in BLOCKS {
        v.push(Dense3::framed(&[w, w], 2, if w > 50 { t(2, 3) } else { 3 }, 1));
    }
    v.push(Skin3::new(true, 2, l(1, 2)));
    v.push(Skin3::new(false, 2, t(1, 2)));
    v.push(Skin3::new(true, 3, 1));
    for (n, a, b, eof) in [
        (1, 2, 2, true),
        (2, 2, 2, true),
        (3, 2, 2, true),
        (4, 2, 2, false),
        (6, l(1, 2), 2, false),
        (7, t(1, 2), 2, false),
        (10, 1, l(1, 2), false),
        (12, l(1, 2), 1, false),
        (30, 1, 1, tier == Thorough),
    ] {
        for same in [false, true] {
            v.push(Dev3::new(n, 0, true, same, a, b, eof, DEV_OPS));
        }
    }
    for period in [1, 2] {
        v.push(Dev3::new(4, period, false, true, 2, l(1, 2), false, DEV_OPS));
        v.push(Dev3::new(5, period, true, false, t(1, 2), 2, false, DEV_OPS));
    }
    if tier == Thorough {
        v.push(Dev3::new(5, 0, true, true, 3, 2, false, 5));
        v.push(Dev3::new(8, 0, true, false, 2, 2, false, DEV_OPS));
        v.push(Dev3::new(4, 0, true, true, 3, 3, false, 4));
    }
    v.push(Big3::new((t(9, 13) as i32 + if tier == Quick { weight } else { weight.max(0) }) as u32));
    v.push(Big3::giant(16));
    v.push(Big3::many(if light { &[2100] } else if tier == Quick { &[1100, 2100, 4200] } else { &[1100, 2100, 4200, 8400, 16800, 33000, 70000] }));
    v.push(Big3::conflicts(if tier == Quick { &[4100] } else { &[4100, 10001, 20000, 40000] }));
    v.push(Block3::new(vec![1, 2, 3, 5, 8, 9, 16, 17, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025], if light { 1 } else { 3 }));
    v.push(Block3::new(if light { vec![2049, 5000, 10001] } else if tier == Quick { vec![2047, 2048, 2049, 4096, 4097, 5001, 8193, 10001, 16385] } else { vec![2047, 2048, 2049, 4096, 4097, 5001, 8193, 10001, 16385, 20001, 32769, 50001, 65535, 65536, 65537, 100001] }, 1));
    if tier == Quick {
        v.push(Block3::new(vec![65537], 1));
    }
    v.push(Box::new(Alike3));
    v.push(Box::new(Chars3));
    v.push(Regions3::new(if light { &[40, 300] } else if tier == Quick { &[10, 40, 70, 135, 300, 600] } else { &[10, 20, 40, 70, 135, 300, 600, 1100, 2200, 4400] }));
    v.push(Words3::new(if light { &[2, 5, 12, 30] } else if tier == Quick { &[2, 5, 12, 30, 60] } else { &[1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20, 30, 45, 60, 80, 100, 150] }));
    v.into_iter().map(|gen| Box::new(TripleSpace { gen, check }) as Box<dyn Space>).collect()
}

// ------------------------------------------------------------------------------------------------
// structured words: long repetitive texts, on which searches split in many different ways

pub const WORDS: u64 = 12;

/// letter i of word w of length n
fn word_letter(w: u64, i: u64, n: u64) -> u64 {
    match w {
        0 => i % 2,
        1 => i % 3,
        2 => i % 7,
        // Thue-Morse
        3 => (i.count_ones() % 2) as u64,
        // Fibonacci: by the Zeckendorf representation's last digit
        4 => {
            let (mut a, mut b) = (1u64, 2u64);
            while b <= i {
                (a, b) = (b, a + b);
            }
            let mut r = i;
            let mut last = 0;
            while a > 0 && b > 1 {
                if a <= r {
                    r -= a;
                    last = (a == 1) as u64;
                } else if a == 1 {
                    last = 0;
                }
                (a, b) = (b - a, a);
            }
            last
        }
        // ruler
        5 => (i + 1).trailing_zeros() as u64,
        // squares modulo 17
        6 => i * i % 17,
        7 => (i * i * i + 3 * i) % 101 % 5,
        // growing runs: a b aa bb aaa bbb
        8 => {
            let mut k = 1;
            let mut r = i;
            let mut run = 0;
            while r >= k {
                r -= k;
                run += 1;
                k = run / 2 + 1;
            }
            run % 2
        }
        // blocks of about the square root of n equal lines
        9 => i / ((n as f64).sqrt() as u64).max(1),
        // period of about the square root of n
        10 => i % ((n as f64).sqrt() as u64).max(1),
        // all distinct
        _ => 1000 + i,
    }
}

pub const TRANSFORMS: u64 = 22;

/// word w of length n after transformation t
fn transformed(w: u64, n: u64, t: u64, tag: u64) -> Vec<u64> {
    let v: Vec<u64> = (0..n).map(|i| word_letter(w, i, n)).collect();
    let fresh = |i: u64| 1_000_000 + tag * 1_000_000 + i;
    let cont = |from: u64, k: u64| (from..from + k).map(move |i| word_letter(w, i, n));
    let every = |k: u64| move |i: &(usize, u64)| i.0 as u64 % k == k - 1;
    match t {
        0 => v,
        // shifts: the window moves along the infinite word
        1..=4 => cont([1, 2, 5, n / 3 + 1][t as usize - 1], n).collect(),
        // every k-th removed
        5..=7 => {
            let k = [2, 3, 7][t as usize - 5];
            v.into_iter().enumerate().filter(|x| !every(k)(x)).map(|x| x.1).collect()
        }
        // every k-th replaced by a new line
        8..=10 => {
            let k = [2, 5, 19][t as usize - 8];
            v.into_iter().enumerate().map(|x| if every(k)(&x) { fresh(x.0 as u64) } else { x.1 }).collect()
        }
        // a new line after every k-th
        11..=12 => {
            let k = [1, 6][t as usize - 11];
            v.into_iter().enumerate().flat_map(|x| if every(k)(&x) { vec![x.1, fresh(x.0 as u64)] } else { vec![x.1] }).collect()
        }
        // every k-th doubled
        13 => v.into_iter().enumerate().flat_map(|x| if every(4)(&x) { vec![x.1, x.1] } else { vec![x.1] }).collect(),
        14 => v.into_iter().rev().collect(),
        15 => {
            let h = v.len() / 2;
            [&v[h..], &v[..h]].concat()
        }
        16 => {
            let h = v.len() / 3;
            [&v[h..], &v[..h]].concat()
        }
        // neighbours swapped
        17 => v.chunks(2).flat_map(|c| c.iter().rev().copied().collect::<Vec<_>>()).collect(),
        // the middle third reversed
        18 => {
            let (a, b) = (v.len() / 3, v.len() * 2 / 3);
            let mut v = v;
            v[a..b].reverse();
            v
        }
        // the middle third removed
        19 => {
            let (a, b) = (v.len() / 3, v.len() * 2 / 3);
            [&v[..a], &v[b..]].concat()
        }
        // once more
        20 => [&v[..], &v[..]].concat(),
        // the same letters in another order: i -> k i mod n
        _ => {
            let k = (n / 3 * 2 + 1).max(1);
            (0..n).map(|i| v[(i * k % n.max(1)) as usize]).collect()
        }
    }
}

fn word_text(v: &[u64], out: &mut Vec<u8>) {
    out.clear();
    for x in v {
        if *x < 26 {
            out.extend_from_slice(&[b'a' + *x as u8, b'\n']);
        } else {
            out.extend_from_slice(format!("w{x}\n").as_bytes());
        }
    }
}

pub struct Words {
    lens: Vec<u64>,
}

impl Words {
    pub fn new(lens: &[u64]) -> Box<dyn PairGen> {
        Box::new(Words { lens: lens.to_vec() })
    }
}

impl PairGen for Words {
    fn name(&self) -> String {
        format!("{WORDS} structured words (periodic, Thue-Morse, Fibonacci, ruler, residues, runs, distinct) x all pairs of {TRANSFORMS} transformations of each, lengths {:?}", self.lens)
    }
    fn len(&self) -> u64 {
        WORDS * TRANSFORMS * TRANSFORMS * self.lens.len() as u64
    }
    fn get(&self, mut i: u64, p: &mut Pair) -> bool {
        let s = i % TRANSFORMS;
        i /= TRANSFORMS;
        let t = i % TRANSFORMS;
        i /= TRANSFORMS;
        let w = i % WORDS;
        let n = self.lens[(i / WORDS) as usize];
        if s == t && s != 0 {
            return false;
        }
        word_text(&transformed(w, n, s, 0), &mut p.o);
        word_text(&transformed(w, n, t, 1), &mut p.m);
        true
    }
}

pub struct Words3 {
    lens: Vec<u64>,
}

impl Words3 {
    pub fn new(lens: &[u64]) -> Box<dyn TripleGen> {
        Box::new(Words3 { lens: lens.to_vec() })
    }
}

impl TripleGen for Words3 {
    fn name(&self) -> String {
        format!("{WORDS} structured words (periodic, Thue-Morse, Fibonacci, ruler, residues, runs, distinct) and all pairs of {TRANSFORMS} transformations of each, with separate and shared new lines, lengths {:?}", self.lens)
    }
    fn len(&self) -> u64 {
        2 * WORDS * TRANSFORMS * TRANSFORMS * self.lens.len() as u64
    }
    fn get(&self, mut i: u64, p: &mut Triple) -> bool {
        let shared = i % 2;
        i /= 2;
        let s = i % TRANSFORMS;
        i /= TRANSFORMS;
        let t = i % TRANSFORMS;
        i /= TRANSFORMS;
        let w = i % WORDS;
        let n = self.lens[(i / WORDS) as usize];
        word_text(&transformed(w, n, 0, 0), &mut p.o);
        word_text(&transformed(w, n, s, 0), &mut p.a);
        word_text(&transformed(w, n, t, 1 - shared), &mut p.b);
        true
    }
}

// ------------------------------------------------------------------------------------------------
// lines that a careless comparison takes for equal

/// Hash functions one might identify lines by, with the truncations that make them too weak.
fn weak_hashes() -> Vec<(&'static str, fn(&[u8]) -> u64)> {
    use std::hash::{DefaultHasher, Hash, Hasher};
    fn sip<H: Hash + ?Sized>(x: &H) -> u64 {
        let mut h = DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    }
    fn sip_write(b: &[u8]) -> u64 {
        let mut h = DefaultHasher::new();
        h.write(b);
        h.finish()
    }
    fn fnv64(b: &[u8]) -> u64 {
        b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
    }
    fn poly(b: &[u8], base: u64, m: u64) -> u64 {
        b.iter().fold(0, |h, x| (h * base + *x as u64) % m)
    }
    fn crc(b: &[u8], p: u32) -> u64 {
        let mut c = !0u32;
        for x in b {
            c ^= *x as u32;
            for _ in 0..8 {
                c = if c & 1 == 1 { c >> 1 ^ p } else { c >> 1 };
            }
        }
        !c as u64
    }
    fn one_at_a_time(b: &[u8]) -> u64 {
        let mut h = 0u32;
        for x in b {
            h = h.wrapping_add(*x as u32);
            h = h.wrapping_add(h << 10);
            h ^= h >> 6;
        }
        h as u64
    }
    fn fx(b: &[u8]) -> u64 {
        let mut h = 0u64;
        for c in b.chunks(8) {
            let mut w = [0; 8];
            w[..c.len()].copy_from_slice(c);
            h = (h.rotate_left(5) ^ u64::from_le_bytes(w)).wrapping_mul(0x517cc1b727220a95);
        }
        h
    }
    vec![
        ("sip str, low half", |b| sip(std::str::from_utf8(b).unwrap()) as u32 as u64),
        ("sip str, high half", |b| sip(std::str::from_utf8(b).unwrap()) >> 32),
        ("sip bytes, low half", |b| sip(b) as u32 as u64),
        ("sip bytes, high half", |b| sip(b) >> 32),
        ("sip raw, low half", |b| sip_write(b) as u32 as u64),
        ("sip str, folded", |b| {
            let h = sip(std::str::from_utf8(b).unwrap());
            (h ^ h >> 32) as u32 as u64
        }),
        ("sip bytes, folded", |b| {
            let h = sip(b);
            (h ^ h >> 32) as u32 as u64
        }),
        ("fnv1a 32", |b| b.iter().fold(0x811c9dc5u32, |h, x| (h ^ *x as u32).wrapping_mul(0x01000193)) as u64),
        ("fnv1 32", |b| b.iter().fold(0x811c9dc5u32, |h, x| h.wrapping_mul(0x01000193) ^ *x as u32) as u64),
        ("fnv1a 64, low half", |b| fnv64(b) as u32 as u64),
        ("fnv1a 64, high half", |b| fnv64(b) >> 32),
        ("31", |b| b.iter().fold(0u64, |h, x| h.wrapping_mul(31).wrapping_add(*x as u64))),
        ("33", |b| b.iter().fold(5381u64, |h, x| h.wrapping_mul(33).wrapping_add(*x as u64))),
        ("33 xor", |b| b.iter().fold(5381u32, |h, x| h.wrapping_mul(33) ^ *x as u32) as u64),
        ("131", |b| b.iter().fold(0u32, |h, x| h.wrapping_mul(131).wrapping_add(*x as u32)) as u64),
        ("257", |b| b.iter().fold(0u32, |h, x| h.wrapping_mul(257).wrapping_add(*x as u32)) as u64),
        ("65599", |b| b.iter().fold(0u32, |h, x| h.wrapping_mul(65599).wrapping_add(*x as u32)) as u64),
        ("31 mod 1e9+7", |b| poly(b, 31, 1_000_000_007)),
        ("131 mod 1e9+7", |b| poly(b, 131, 1_000_000_007)),
        ("256 mod 1e9+7", |b| poly(b, 256, 1_000_000_007)),
        ("257 mod 1e9+7", |b| poly(b, 257, 1_000_000_007)),
        ("911382323 mod 1e9+7", |b| poly(b, 911382323, 1_000_000_007)),
        ("257 mod 2^31-1", |b| poly(b, 257, (1 << 31) - 1)),
        ("sum", |b| b.iter().map(|x| *x as u64).sum()),
        ("xor", |b| b.iter().fold(0, |h, x| h ^ *x as u64)),
        ("rotating xor", |b| b.iter().fold(0u32, |h, x| h.rotate_left(5) ^ *x as u32) as u64),
        ("adler", |b| {
            let (x, y) = b.iter().fold((1u64, 0u64), |(x, y), c| ((x + *c as u64) % 65521, (x + y + *c as u64) % 65521));
            y << 16 | x
        }),
        ("crc32", |b| crc(b, 0xedb88320)),
        ("crc32c", |b| crc(b, 0x82f63b78)),
        ("one at a time", one_at_a_time),
        ("fx, low half", |b| fx(b) as u32 as u64),
        ("fx, high half", |b| fx(b) >> 32),
    ]
}

/// Pairs of different lines (without line end) that are equal in a partial or weak digest.
pub fn lookalikes() -> &'static [(Vec<u8>, Vec<u8>)] {
    static ALL: std::sync::OnceLock<Vec<(Vec<u8>, Vec<u8>)>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut v: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
        let base = |l: usize| (0..l).map(|i| b'a' + (i * 7 % 23) as u8).collect::<Vec<u8>>();
        // one byte differs: every length, every place
        let ladder = [71, 79, 80, 81, 95, 96, 97, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 70000];
        for l in (1..=70).chain(ladder) {
            let x = base(l);
            let places: Vec<usize> = if l <= 130 {
                (0..l).collect()
            } else {
                let mut p: Vec<usize> = (0..9).chain(l - 9..l).chain([l / 2 - 1, l / 2, l / 2 + 1, l / 3, l / 4, 3 * l / 4]).collect();
                for k in 3..17 {
                    for d in [0usize, 1, 2] {
                        p.push((1 << k) + d - 1);
                        p.push(l.wrapping_sub((1 << k) + d));
                    }
                }
                p.retain(|x| *x < l);
                p.sort();
                p.dedup();
                p
            };
            for p in places {
                let mut y = x.clone();
                y[p] = if p % 2 == 0 { b'z' } else { y[p] ^ 0x20 };
                v.push((x.clone(), y));
            }
            // lengths that a narrow counter takes for equal are far apart; neighbours here
            let mut y = x.clone();
            y.push(b'a');
            v.push((x.clone(), y));
        }
        // two bytes swapped
        for l in (2..=12).chain([16, 17, 24, 32, 33, 64, 65]) {
            let x = base(l);
            for p in 0..l {
                for q in p + 1..l {
                    if x[p] != x[q] && (l <= 12 || [1, 2, 3, 4, 7, 8, 15, 16, 32, l - 1].contains(&(q - p))) {
                        let mut y = x.clone();
                        y.swap(p, q);
                        v.push((x.clone(), y));
                    }
                }
            }
        }
        // rotations and reversals
        for l in [2, 3, 4, 5, 8, 13, 16, 22] {
            let x = base(l);
            for r in 1..l {
                let mut y = x.clone();
                y.rotate_left(r);
                v.push((x.clone(), y));
            }
            let mut y = x.clone();
            y.reverse();
            v.push((x, y));
        }
        // repetition and padding
        for l in (0..=40).chain([63, 64, 65, 127, 128, 255, 256]) {
            for b in [b"\0", b" ", b"a", b"0", b"\t", b"\r"] {
                let x = [&b"k"[..], &b.repeat(l)].concat();
                for more in [1, 2, 8] {
                    v.push((x.clone(), [&x[..], &b.repeat(more)].concat()));
                }
                if l < 20 {
                    v.push((x.clone(), [&b.repeat(l)[..], b"k"].concat()));
                }
            }
        }
        // lengths that are equal modulo 2^8, 2^16
        for (l, m) in [(0, 256), (1, 257), (5, 261), (255, 511), (0, 65536), (1, 65537), (3, 65539)] {
            v.push((b"a".repeat(l), b"a".repeat(m)));
        }
        // numbers, other digits
        for (x, y) in [("1", "01"), ("1", "1.0"), ("0", "-0"), ("1e1", "10"), ("\u{661}", "1"), ("\u{ff11}", "1"), ("ß", "ss"), ("İ", "i"), ("ı", "i"), ("ſ", "s"), ("K", "K"), ("Å", "Å"), ("é", "e\u{301}"), ("ﬁ", "fi"), ("a\u{200b}", "a"), ("a\u{a0}b", "a b"), ("\u{fffd}", "?"), ("\u{2028}", ""), ("\u{3b5}", "\u{2b5}"), ("é", "è"), ("日本", "日木"), ("\u{1f600}", "\u{1f601}"), ("\u{10ffff}", "\u{10fffe}")] {
            v.push((x.as_bytes().to_vec(), y.as_bytes().to_vec()));
        }
        // equal polynomial hashes of any width, for every small base
        for m in 2..=93u8 {
            v.push((vec![b'@', 126], vec![b'A', 126 - m]));
            v.push((vec![b'x', b'@', 126, b'y'], vec![b'x', b'A', 126 - m, b'y']));
            v.push((vec![126, b'@'], vec![126 - m, b'A']));
        }
        // collisions of weak hashes, by birthday among numbered lines (their line end included)
        let mut names: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
        let hashes = weak_hashes();
        let found: Vec<Vec<(Vec<u8>, Vec<u8>)>> = std::thread::scope(|s| {
            let hs: Vec<_> = hashes
                .iter()
                .map(|(_, h)| {
                    s.spawn(move || {
                        let line = |i: u32, nl: bool| {
                            // short lines of letters first, then longer ones
                            let mut b = format!("{i:x}");
                            b = b.chars().map(|c| ((c as u8 - if c.is_ascii_digit() { 0 } else { 39 }) + 49) as char).collect();
                            if nl {
                                b.push('\n');
                            }
                            b.into_bytes()
                        };
                        let mut out = Vec::new();
                        for nl in [true, false] {
                            let mut all: Vec<(u64, u32)> = (0..250_000).map(|i| (h(&line(i, nl)), i)).collect();
                            all.sort();
                            let n = all.windows(2).filter(|w| w[0].0 == w[1].0).take(3);
                            for w in n {
                                out.push((line(w[0].1, false), line(w[1].1, false)));
                            }
                        }
                        out
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for f in found {
            names.extend(f);
        }
        v.extend(names);
        v.retain(|(x, y)| x != y);
        v
    })
}

/// Lines around look-alikes.
fn put(out: &mut Vec<u8>, lines: &[&[u8]]) {
    out.clear();
    for l in lines {
        out.extend_from_slice(l);
        out.push(b'\n');
    }
}

/// puts many lines around a text
fn frame(both: bool, t: &mut Vec<u8>) {
    let lines: Vec<u8> = (0..40).flat_map(|i| format!("line {i}\n").into_bytes()).collect();
    let inner = std::mem::take(t);
    t.extend_from_slice(&lines);
    t.extend_from_slice(&inner);
    if both {
        t.extend_from_slice(&lines);
    }
}

pub struct Alike;

impl PairGen for Alike {
    fn name(&self) -> String {
        format!("{} pairs of lines which differ in one byte, are permutations, paddings or collisions of {} weak hashes, in 8 arrangements", lookalikes().len(), weak_hashes().len())
    }
    fn len(&self) -> u64 {
        lookalikes().len() as u64 * 8
    }
    fn get(&self, i: u64, p: &mut Pair) -> bool {
        let (x, y) = &lookalikes()[(i / 8) as usize];
        let (c, d) = (&b"c"[..], &b"d"[..]);
        let (o, m): (&[&[u8]], &[&[u8]]) = match i % 8 {
            0 | 1 | 6 | 7 => (&[x], &[y]),
            2 => (&[c, x, d], &[c, y, d]),
            3 => (&[x, c, y], &[y, c, x]),
            4 => (&[x, x, y], &[y, d]),
            _ => (&[c, x, y, x], &[c, y, x, y, d]),
        };
        put(&mut p.o, o);
        put(&mut p.m, m);
        if i % 8 == 1 {
            p.o.pop();
            p.m.pop();
        }
        if i % 8 >= 6 {
            frame(i % 8 == 7, &mut p.o);
            frame(i % 8 == 7, &mut p.m);
        }
        true
    }
}

pub struct Alike3;

impl TripleGen for Alike3 {
    fn name(&self) -> String {
        format!("{} pairs of lines which differ in one byte, are permutations, paddings or collisions of {} weak hashes, in 8 arrangements", lookalikes().len(), weak_hashes().len())
    }
    fn len(&self) -> u64 {
        lookalikes().len() as u64 * 8
    }
    fn get(&self, i: u64, p: &mut Triple) -> bool {
        let (x, y) = &lookalikes()[(i / 8) as usize];
        let (c, d) = (&b"c"[..], &b"d"[..]);
        let (o, a, b): (&[&[u8]], &[&[u8]], &[&[u8]]) = match i % 8 {
            0 | 6 => (&[x], &[y], &[x]),
            7 => (&[x], &[x], &[y]),
            1 => (&[x, c], &[x, c], &[y, c]),
            2 => (&[c, d], &[c, x, d], &[c, y, d]),
            3 => (&[c, x], &[c, y], &[c, y]),
            4 => (&[x, c, y], &[y, c, y], &[x, c, x]),
            _ => (&[x, d], &[c, x, d], &[y, d, c]),
        };
        put(&mut p.o, o);
        put(&mut p.a, a);
        put(&mut p.b, b);
        if i % 8 >= 6 {
            for t in [&mut p.o, &mut p.a, &mut p.b] {
                frame(i % 8 == 7, t);
            }
        }
        true
    }
}

/// Every byte, pairs of unusual bytes, and Unicode scalar values.
pub fn tokens() -> &'static [Vec<u8>] {
    static ALL: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut v: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
        let odd: Vec<u8> = (0..=32).chain(b"!\"#'+,-/0@Aaz\\".iter().copied()).chain([126, 127, 128, 0x85, 0xa0, 0xbb, 0xbf, 0xc0, 0xc2, 0xe2, 0xef, 0xf4, 0xfe, 0xff]).collect();
        for x in &odd {
            for y in &odd {
                v.push(vec![*x, *y]);
            }
        }
        let points = (0x80..0x3100u32).chain([0xd7ff, 0xe000, 0xf8ff, 0xfdd0, 0xfe0f, 0xfeff, 0xff0a, 0xfff9, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x1fffe, 0x1ffff, 0x20000, 0xe0001, 0xe0100, 0xf0000, 0x10fffd, 0x10ffff]);
        for c in points.filter_map(char::from_u32) {
            v.push(c.to_string().into_bytes());
        }
        v
    })
}

/// which lines with token t the k-th arrangement is made of; the last one is not terminated if k is odd
fn token_lines(t: &[u8], k: u64) -> [Vec<u8>; 3] {
    match k / 2 {
        0 => [[b"x", t, b"y"].concat(), [b"x", t, b"z"].concat(), b"xy".to_vec()],
        1 => [t.to_vec(), [t, t].concat(), Vec::new()],
        _ => [[b"x", t].concat(), b"x".to_vec(), [t, b"x"].concat()],
    }
}

fn put_token_lines(out: &mut Vec<u8>, lines: &[&[u8]], k: u64) {
    put(out, lines);
    if k % 2 == 1 {
        out.pop();
    }
}

pub struct Chars;

impl PairGen for Chars {
    fn name(&self) -> String {
        format!("lines with each of {} tokens (every byte, pairs of unusual bytes, scalar values), alone, first, last and inside, kept and changed, with/without final newline", tokens().len())
    }
    fn len(&self) -> u64 {
        tokens().len() as u64 * 6
    }
    fn get(&self, i: u64, p: &mut Pair) -> bool {
        let k = i % 6;
        let [x, y, z] = token_lines(&tokens()[(i / 6) as usize], k);
        put_token_lines(&mut p.o, &[&x, &y, b"k", &x, &z], k);
        put_token_lines(&mut p.m, &[&x, &z, &y, b"k", &x], k);
        true
    }
}

pub struct Chars3;

impl TripleGen for Chars3 {
    fn name(&self) -> String {
        Chars.name()
    }
    fn len(&self) -> u64 {
        tokens().len() as u64 * 6
    }
    fn get(&self, i: u64, p: &mut Triple) -> bool {
        let k = i % 6;
        let [x, y, z] = token_lines(&tokens()[(i / 6) as usize], k);
        put_token_lines(&mut p.o, &[&x, &y, b"k", &x], k);
        put_token_lines(&mut p.a, &[&x, &z, b"k", &y, &x], k);
        put_token_lines(&mut p.b, &[&x, &y, &z, b"k", &x, &y], k);
        true
    }
}

// ------------------------------------------------------------------------------------------------
// many regions of one type and one of another

/// What one side of a region of lines x, y (or of no lines) is.
const WAYS: u64 = 10;
fn way(w: u64, full: bool, n: usize, tag: char, out: &mut Vec<u8>) {
    let l = |c: char| format!("{c}{n}\n").into_bytes();
    let (x, y) = if full { (l('x'), l('y')) } else { (vec![], vec![]) };
    let parts: Vec<Vec<u8>> = match w {
        0 => vec![x, y],
        1 => vec![],
        2 => vec![l('p')],
        3 => vec![x, l('p'), y],
        4 => vec![l('p'), l('q')],
        5 => vec![l('p'), l(tag)],
        6 => vec![l(tag)],
        7 => vec![x, y, l('p')],
        8 => vec![y],
        _ => vec![l('p'), x, y],
    };
    for p in parts {
        out.extend_from_slice(&p);
    }
}

/// Regions of a triple: type t = ancestor empty or not, what ours does, what theirs does.
pub struct Regions3 {
    sizes: Vec<usize>,
}

impl Regions3 {
    const TYPES: u64 = 2 * WAYS * WAYS;
    const GROUNDS: u64 = 6;
    pub fn new(sizes: &[usize]) -> Box<dyn TripleGen> {
        Box::new(Regions3 { sizes: sizes.to_vec() })
    }
    fn region(t: u64, n: usize, p: &mut Triple) {
        let (full, a, b) = (t / WAYS / WAYS == 1, t / WAYS % WAYS, t % WAYS);
        way(0, full, n, ' ', &mut p.o);
        way(a, full, n, 'a', &mut p.a);
        way(b, full, n, 'b', &mut p.b);
    }
}

impl TripleGen for Regions3 {
    fn name(&self) -> String {
        format!("n regions between common lines, n in {:?}: one region (the last, or one third in) of each of {} types, all others of each of {} types, or all types in turn", self.sizes, Self::TYPES, Self::GROUNDS - 1)
    }
    fn len(&self) -> u64 {
        self.sizes.len() as u64 * Self::TYPES * Self::GROUNDS * 2
    }
    fn get(&self, i: u64, p: &mut Triple) -> bool {
        let (at, i) = (i % 2, i / 2);
        let (t, i) = (i % Self::TYPES, i / Self::TYPES);
        let (g, i) = (i % Self::GROUNDS, i / Self::GROUNDS);
        let n = self.sizes[i as usize];
        if n > 100 && at == 1 && g % 2 == 0 {
            return false;
        }
        let full = WAYS * WAYS;
        let ground = [
            full + 2 * WAYS + 2, // the same change
            full + 6 * WAYS + 6, // a conflict
            full + 2 * WAYS,     // ours alone
            2,                   // theirs inserts
            2 * WAYS + 2,        // the same insertion
        ];
        for x in [&mut p.o, &mut p.a, &mut p.b] {
            x.clear();
        }
        let special = if at == 0 { n - 1 } else { n / 3 };
        for r in 0..n {
            let k = format!("key {r}\n");
            for x in [&mut p.o, &mut p.a, &mut p.b] {
                x.extend_from_slice(k.as_bytes());
            }
            let ty = if r == special {
                t
            } else if g < 5 {
                ground[g as usize]
            } else {
                // a step coprime to the number of types
                (r as u64 * 77) % Self::TYPES
            };
            Self::region(ty, r, p);
        }
        if t % 2 == 0 {
            for x in [&mut p.o, &mut p.a, &mut p.b] {
                x.extend_from_slice(b"end\n");
            }
        }
        true
    }
}

pub struct Regions2 {
    sizes: Vec<usize>,
}

impl Regions2 {
    const TYPES: u64 = 2 * WAYS;
    const GROUNDS: u64 = 4;
    pub fn new(sizes: &[usize]) -> Box<dyn PairGen> {
        Box::new(Regions2 { sizes: sizes.to_vec() })
    }
}

impl PairGen for Regions2 {
    fn name(&self) -> String {
        format!("n changes between 1 or 9 common lines, n in {:?}: one (the last, or one third in) of each of {} types, all others of each of {} types, or all types in turn", self.sizes, Self::TYPES, Self::GROUNDS - 1)
    }
    fn len(&self) -> u64 {
        self.sizes.len() as u64 * Self::TYPES * Self::GROUNDS * 4
    }
    fn get(&self, i: u64, p: &mut Pair) -> bool {
        let (at, i) = (i % 2, i / 2);
        let (gap, i) = ([1usize, 9][(i % 2) as usize], i / 2);
        let (t, i) = (i % Self::TYPES, i / Self::TYPES);
        let (g, i) = (i % Self::GROUNDS, i / Self::GROUNDS);
        let n = self.sizes[i as usize];
        p.o.clear();
        p.m.clear();
        let special = if at == 0 { n - 1 } else { n / 3 };
        for r in 0..n {
            for j in 0..gap {
                let k = format!("key {r} {j}\n");
                p.o.extend_from_slice(k.as_bytes());
                p.m.extend_from_slice(k.as_bytes());
            }
            let ty = if r == special {
                t
            } else {
                match g {
                    0 => WAYS + 2,
                    1 => 2,
                    2 => WAYS + 1,
                    _ => (r as u64 * 7) % Self::TYPES,
                }
            };
            way(0, ty >= WAYS, r, ' ', &mut p.o);
            way(ty % WAYS, ty >= WAYS, r, 'a', &mut p.m);
        }
        if t % 2 == 0 {
            p.o.extend_from_slice(b"end\n");
            p.m.extend_from_slice(b"end\n");
        }
        true
    }
}
