//! Generators of patch texts (valid and invalid), used by every property that reads patches.

use crate::engine::Tier;
use crate::gen::{seq, seq_count};
use std::sync::Arc;

#[derive(Clone)]
pub struct TextGen {
    pub name: String,
    pub len: u64,
    #[allow(clippy::type_complexity)]
    pub get: Arc<dyn Fn(u64, &mut Vec<u8>) -> bool + Sync + Send>,
}

fn tg(name: impl Into<String>, len: u64, f: impl Fn(u64, &mut Vec<u8>) -> bool + Sync + Send + 'static) -> TextGen {
    TextGen { name: name.into(), len, get: Arc::new(f) }
}

/// Lines that can stand in a hunk body, simplest first.
pub const BODY: &[&[u8]] = &[
    b" a\n",
    b"-a\n",
    b"+a\n",
    b"\n",
    b"\\ No newline at end of file\n",
    b"-b\n",
    b"+b\n",
    b" b\n",
    b" \n",
    b"-\n",
    b"+\n",
    b"--- a\n",
    b"+++ b\n",
    b"-@@ -1 +1 @@\n",
    b" \\ No newline at end of file\n",
    b"+\xff\n",
    b"-\xc3\xa9\n",
    b" a\r\n",
    b"\r\n",
    b"@@ -1 +1 @@\n",
    b"@@ -5 +5 @@\n",
    b"@\n",
    b"a\n",
    b"\\ No newline\n",
    b"\\ No newline at end of file",
    b"\\ No newline at end of file, really\n",
    b"\\\n",
    b"\t\n",
    b"diff --git a/x b/x\n",
    b" a",
    b"-a",
    b"+a",
];
/// the first so many are hunk lines that are always acceptable
pub const BODY_GOOD: u64 = 18;

pub const CONTEXTS: &[&[u8]] = &[b"", b" f", b" ", b"  ", b"  f ", b" @@ x", b"f", b" \xff", b" f\t", b" f\r", b" -1 +1 @@", b" fn main() {"];
pub const NAMES: &[&[u8]] = &[
    b"",
    b"--- a\n+++ b\n",
    b"--- a\n",
    b"+++ b\n",
    b"+++ b\n--- a\n",
    b"--- a b\t2020-01-01\n+++ \tx\n",
    b"--- \"a\\n\\\"\\\\\"\n+++ \"\\t\\0\\r\"\n",
    b"diff --git a/x b/x\nindex 1..2\n--- /dev/null\n+++ b/x\n",
    b"text\n-- a\n++ b\n @@ -1 +1 @@\n--- a\n+++ b\n",
    b"--- \n+++ \"\"\n",
    b"--- \xff\n+++ \"\xc3\"\n",
];

/// appends a hunk: header with the right counts (plus deviations), then the body
#[allow(clippy::too_many_arguments)]
pub fn push_hunk(out: &mut Vec<u8>, os: u64, ns: u64, dev: (i64, i64), fc: &[u8], body: &[&[u8]]) {
    let mut o = 0i64;
    let mut n = 0i64;
    for l in body {
        match l[0] {
            b' ' | b'\n' => {
                o += 1;
                n += 1
            }
            b'-' => o += 1,
            b'+' => n += 1,
            _ => {}
        }
    }
    let (o, n) = ((o + dev.0).max(0), (n + dev.1).max(0));
    let r = |s: u64, l: i64| if l == 1 { format!("{s}") } else { format!("{s},{l}") };
    out.extend_from_slice(format!("@@ -{} +{} @@", r(os, o), r(ns, n)).as_bytes());
    out.extend_from_slice(fc);
    out.push(b'\n');
    for l in body {
        out.extend_from_slice(l);
    }
}

fn body_of(i: u64, k: u64, n: u32) -> Vec<&'static [u8]> {
    let mut s = Vec::new();
    seq(i, k, n, &mut s);
    s.iter().map(|x| BODY[*x as usize]).collect()
}

/// an unterminated line can only be the last one
fn joined_ok(body: &[&[u8]]) -> bool {
    body.iter().rev().skip(1).all(|l| l.ends_with(b"\n"))
}

/// Mostly valid texts.
pub fn text_gens(t: Tier) -> Vec<TextGen> {
    let mut v = vec![size_ladder(t)];
    let k = BODY.len() as u64;
    let n1 = seq_count(k, 1);
    let (nn, nc) = (NAMES.len() as u64, CONTEXTS.len() as u64);
    v.push(tg(
        format!("{nn} file headers x {nc} function contexts x all bodies of <=1 of {k} lines"),
        nn * nc * n1,
        move |i, out| {
            let b = body_of(i % n1, k, 1);
            let i = i / n1;
            out.clear();
            out.extend_from_slice(NAMES[(i / nc) as usize]);
            push_hunk(out, 1, 1, (0, 0), CONTEXTS[(i % nc) as usize], &b);
            true
        },
    ));
    let (g, l) = (BODY_GOOD + 1, t.pick(3, 4));
    let n2 = seq_count(g, l);
    v.push(tg(format!("all bodies of <={l} of {g} hunk lines"), n2, move |i, out| {
        // the last code is the marker without newline
        let mut s = Vec::new();
        seq(i, g, l, &mut s);
        let b: Vec<&[u8]> = s.iter().map(|x| if *x as u64 == BODY_GOOD { BODY[24] } else { BODY[*x as usize] }).collect();
        if !joined_ok(&b) {
            return false;
        }
        out.clear();
        push_hunk(out, 1, 1, (0, 0), b"", &b);
        true
    }));
    let deep = t.pick(5, 6);
    let n3 = seq_count(6, deep);
    v.push(tg(format!("all bodies of <={deep} of 6 hunk lines"), n3, move |i, out| {
        out.clear();
        push_hunk(out, 3, 3, (0, 0), b" f", &body_of(i, 6, deep));
        true
    }));
    let small: Vec<Vec<&'static [u8]>> = (0..seq_count(6, 2)).map(|i| body_of(i, 6, 2)).collect();
    let small = Arc::new(small);
    let m = small.len() as u64;
    v.push(tg(format!("all pairs of hunks with bodies of <=2 of 6 lines, 4 distances, 4 function context placements"), m * m * 16, move |i, out| {
        let (d, f) = (i % 4, i / 4 % 4);
        let i = i / 16;
        out.clear();
        out.extend_from_slice(b"--- a\n+++ b\n");
        push_hunk(out, 1, 1, (0, 0), if f & 1 == 1 { b" f" } else { b"" }, &small[(i / m) as usize]);
        push_hunk(out, 2 + d, 2 + d, (0, 0), if f & 2 == 2 { b"  g " } else { b"" }, &small[(i % m) as usize]);
        true
    }));
    // stated numbers that need not be small or consistent
    const STARTS: [u64; 7] = [0, 1, 2, 10, 1 << 32, (1 << 63) + 5, u64::MAX - 4];
    let k = t.pick(6u64, 8);
    let n = seq_count(k, 2);
    v.push(tg(format!("all bodies of <=2 of {k} lines x 7 x 7 stated line numbers, alone and after another hunk"), n * 49 * 2, move |i, out| {
        let second = i % 2 == 1;
        let (a, b) = (STARTS[(i / 2 % 7) as usize], STARTS[(i / 14 % 7) as usize]);
        out.clear();
        if second {
            push_hunk(out, 0, 1, (0, 0), b" f", &[b"+first\n"]);
        }
        push_hunk(out, a, b, (0, 0), b" g", &body_of(i / 98, k, 2));
        true
    }));
    v
}

/// Valid patch texts with one thing of every size.
fn size_ladder(t: Tier) -> TextGen {
    let mut sizes: Vec<usize> = vec![0, 1, 2, 3, 9, 10, 11, 20, 31, 32, 33, 50, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16384, 32767, 32768, 65535, 65536, 65537];
    if t == Tier::Thorough {
        sizes.extend([3000, 5000, 16383, 16385, 20000, 32769, 50000, 100_000, 131_072, 200_000, 300_001]);
        sizes.sort();
    }
    const FILL: [&str; 10] = [" ", "\t", "\r", "-", "+", "@", "\\", "\0", "é", " \t"];
    const KINDS: u64 = 22 + FILL.len() as u64;
    let n = sizes.len() as u64;
    tg(format!("size ladder: {KINDS} places of a patch (preamble, names, numbers, function contexts, lines, hunks) in {n} sizes up to {}", sizes[sizes.len() - 1]), n * KINDS, move |i, out| {
        out.clear();
        let n = sizes[(i / KINDS) as usize];
        let put = |out: &mut Vec<u8>, s: &str| out.extend_from_slice(s.as_bytes());
        const HUNK: &str = "@@ -1 +1 @@\n-a\n+b\n";
        let r = |n: usize| if n == 1 { "1".to_string() } else { format!("1,{n}") };
        match i % KINDS {
            0 => {
                (0..n).for_each(|j| put(out, &format!("about {j}\n")));
                put(out, "--- a\n+++ b\n");
                put(out, HUNK);
            }
            1 => {
                out.resize(n, b'#');
                put(out, "\n");
                put(out, HUNK);
            }
            2 => {
                put(out, "--- ");
                put(out, &"n".repeat(n));
                put(out, "\n+++ b\n");
                put(out, HUNK);
            }
            3 => {
                put(out, "--- a\n+++ \"");
                put(out, &"\\n\\\"".repeat(n / 2));
                put(out, "\"\n");
                put(out, HUNK);
            }
            4 => {
                put(out, "--- a\t");
                put(out, &"2020 ".repeat(n / 5));
                put(out, "\n+++ b\n");
                put(out, HUNK);
            }
            5 => put(out, &format!("@@ -{}1 +1 @@\n-a\n+b\n", "0".repeat(n))),
            6 => put(out, &format!("@@ -1,{}1 +{}1 @@\n-a\n+b\n", "0".repeat(n), "0".repeat(n / 3))),
            7 => put(out, &format!("@@ -1 +1 @@ {}\n-a\n+b\n@@ -5 +5 @@\n-a\n+b\n", "f".repeat(n))),
            k @ 8..=11 => {
                // long lines: deleted, inserted, context, without newline
                let l = "x".repeat(n);
                put(out, &match k {
                    8 => format!("@@ -1,2 +1 @@\n a\n-{l}\n"),
                    9 => format!("@@ -1 +1,2 @@\n a\n+{l}\n"),
                    10 => format!("@@ -1,2 +1,2 @@\n {l}\n-a\n+b\n"),
                    _ => format!("@@ -1 +1 @@\n-{l}\n\\ No newline at end of file\n+{l}y\n"),
                });
            }
            k @ 12..=16 => {
                // many lines in one hunk
                let (o, m, f): (usize, usize, fn(usize) -> String) = match k {
                    12 => (n + 1, n + 1, |j| format!(" l{j}\n")),
                    13 => (1, n + 1, |j| format!("+l{j}\n")),
                    14 => (n + 1, 1, |j| format!("-l{j}\n")),
                    15 => (n + 1, n + 1, |_| "\n".to_string()),
                    _ => (n + 1, n + 1, |j| format!("-o{j}\n+n{j}\n")),
                };
                put(out, &format!("--- a\n+++ b\n@@ -{} +{} @@\n", r(o), r(m)));
                (0..n).for_each(|j| put(out, &f(j)));
                put(out, "-a\n+b\n");
            }
            17 => (0..n + 1).for_each(|j| put(out, &format!("@@ -{0} +{0} @@\n-a\n+b\n", j + 1))),
            18 => (0..n + 1).for_each(|j| put(out, &format!("@@ -{0} +{0} @@ f{j}\n-a\n+b\n", 3 * j + 1))),
            19 => (0..n + 1).for_each(|j| put(out, &format!("@@ -{},0 +{} @@\n+b\n", 2 * j, 3 * j + 1))),
            20 => put(out, &format!("@@ -{n} +{n} @@\n-a\n+b\n@@ -{0} +{0} @@\n-a\n+b\n", 2 * n + 5)),
            k @ 22.. => {
                // lines of nothing but one character
                let l = FILL[k as usize - 22].repeat(n);
                put(out, &format!("@@ -1,4 +1,5 @@ {l}\n {l}\n-{l}x\n+{l}\n+x{l}\n \n-{l}\n+{l}\n\\ No newline at end of file\n"));
            }
            _ => {
                // the last line, and a file header, after many hunks
                put(out, "+++ b\n--- a\n");
                (0..n).for_each(|j| put(out, &format!("@@ -{0},2 +{0},2 @@ f{j}\n \n-a\n+b\n", 10 * j + 1)));
                put(out, &format!("@@ -{0},2 +{0} @@\n-a\n-b\n\\ No newline at end of file\n+b", 10 * n + 1));
            }
        }
        true
    })
}

/// Sequences of tokens glued together: every header line the grammar can be confused with.
const HEADER_TOKENS: &[&[u8]] = &[b"@@ ", b" @@", b"-", b"+", b",", b" ", b"0", b"1", b"2", b"@@", b"f", b"\n"];
const FILE_LINES: &[&[u8]] = &[
    b"@@ -1 +1 @@\n",
    b"@@ -1,2 +1,2 @@\n",
    b"@@ -3 +3 @@ f\n",
    b"@@ -0,0 +1 @@\n",
    b"@@ -1 +0,0 @@\n",
    b"@@ -0,0 +0,0 @@\n",
    b"--- a\n",
    b"+++ b\n",
    b"-a\n",
    b"+b\n",
    b" c\n",
    b"\n",
    b"\\ No newline at end of file\n",
    b"text\n",
    b"@@\n",
    b"---\n",
    b"--- \"x\n",
    b"--- a\tb\n",
    b"+++ \"x\\\"\"\n",
    b"@@ -2 +2 @@",
    b"--- a",
    b"diff --git a/a b/b\n",
    b" --- a\n",
    b"@@ -1 +1\n",
];
const NAME_TOKENS: &[&[u8]] = &[b"\"", b"\\", b"n", b"t", b"0", b"r", b"x", b"\t", b"\r", b"\0", b" ", b"\xc3\xa9", b"a", b"\xff"];

pub const VALID: &[&[u8]] = &[
    b"--- a\n+++ b\n@@ -1,3 +1,3 @@ f\n a\n-b\n+c\n d\n",
    b"--- \"a\\n\\\\\"\t1\n+++ b c\n@@ -1 +1,2 @@\n-a\n\\ No newline at end of file\n+a\n+b\n\\ No newline at end of file\n",
    b"@@ -1,2 +1,2 @@\n\n-a\n+b\n@@ -10,2 +10 @@\n c\n-d\n",
    b"diff --git a/a b/b\nindex 1..2 100644\n--- a/a\n+++ b/b\n@@ -0,0 +1,2 @@\n+x\n+y\n",
    b"--- o\n+++ /dev/null\n@@ -1,2 +0,0 @@ x\n-x\n-y\n\\ No newline at end of file\n",
    b"--- a\n+++ b\n@@ -1 +1 @@\n-x\n+y\n@@ -2 +2 @@\n-z\n+w\n@@ -3,2 +3,2 @@ fn\n q\n\\ No newline at end of file\n",
    b"@@ -5,0 +6 @@\n+x",
    b"+++ b\n@@ -1,4 +1,4 @@\n a\n \n\n--- x\n++++ y\n",
];

const MUT_BYTES: &[u8] = b"\n -+@\\,\"09a\t\r\xff";

/// valid and invalid texts
/// Patches of many hunks, or of one long hunk, with one place that is odd (some are errors).
fn one_oddity(t: Tier) -> TextGen {
    let mut sizes: Vec<usize> = vec![2, 3, 5, 8, 9, 16, 17, 33, 65, 100, 129, 257, 513, 1025, 2049, 4097];
    if t == Tier::Thorough {
        sizes.extend([1000, 5000, 8193, 10001, 16385, 32769, 65537]);
    }
    const HUNKS: u64 = 28;
    const LINES: u64 = 18;
    let per = (HUNKS + LINES) * 4;
    let n = sizes.len() as u64;
    tg(format!("patches of n hunks and hunks of 3n lines with one of {HUNKS} + {LINES} oddities at one of 4 places, n in {sizes:?}"), n * per, move |i, out| {
        out.clear();
        let n = sizes[(i / per) as usize];
        let i = i % per;
        let at = [1, n / 2, n - 1, n.saturating_sub(2)][(i % 4) as usize];
        let odd = i / 4;
        let put = |out: &mut Vec<u8>, s: &str| out.extend_from_slice(s.as_bytes());
        const MARK: &str = "\\ No newline at end of file\n";
        put(out, "--- a\n+++ b\n");
        if odd < HUNKS {
            let mut order: Vec<usize> = (0..n).collect();
            if odd == 0 && at > 0 {
                order.swap(at, at - 1);
            }
            for j in order {
                let k = if j == at { odd } else { 99 };
                let (mut os, mut ns, mut ol, mut nl) = (4 * j + 1, 4 * j + 1, 2, 2);
                match k {
                    1 => os = os.saturating_sub(3),
                    2 => os = os.saturating_sub(2),
                    3 => ns = ns.saturating_sub(3),
                    4 => ns = ns.saturating_sub(2),
                    5 => os += 3,
                    6 => ns += 3,
                    7 => ol += 1,
                    8 => ol -= 1,
                    9 => nl += 1,
                    10 => nl -= 1,
                    11 => os = 0,
                    12 => ns = usize::MAX - 1,
                    13 => (ol, nl) = (3, 1),
                    14 => (os, ns) = (os + 2, ns + 2),
                    _ => {}
                }
                let head = match k {
                    15 => format!("@@ -{os},{ol} +{ns},{nl} \n"),
                    16 => format!("@@ -{os},{ol}, +{ns},{nl} @@\n"),
                    17 => format!("@@ +{ns},{nl} -{os},{ol} @@\n"),
                    18 => format!("@@ -{os},{ol} +{ns},{nl} @@ f\n"),
                    19 => format!("@@ -{os},{ol} +{ns},{nl} @@\r\n"),
                    20 => format!("@@ -{os},{ol} +{ns},{nl}x @@\n"),
                    _ => format!("@@ -{os},{ol} +{ns},{nl} @@\n"),
                };
                put(out, &head);
                put(out, &match k {
                    21 => format!("\n-o{j}\n+n{j}\n"),
                    22 => format!(" c{j}\n{MARK}-o{j}\n+n{j}\n"),
                    23 => format!(" c{j}\n-o{j}\n{MARK}+n{j}\n{MARK}"),
                    24 => format!(" c{j}\n-o{j}\n+n{j}\n{MARK}"),
                    25 => format!(" c{j}\n-o{j}\n+n{j}\nx\n"),
                    26 => format!(" c{j}\n-o{j}\n+n{j}\n--- a\n+++ b\n"),
                    27 => format!(" c{j}\n-o{j}\n"),
                    _ => format!(" c{j}\n-o{j}\n+n{j}\n"),
                });
            }
        } else {
            // without context lines a marker that ends a side is contradicted by its own side only
            let bare = odd >= HUNKS + 15;
            put(out, &format!("@@ -1,{0} +1,{0} @@\n", if bare { n } else { 2 * n }));
            for j in 0..n {
                if bare {
                    put(out, &match odd - HUNKS {
                        15 if j == at => format!("-o{j}\n{MARK}+n{j}\n"),
                        16 if j == at => format!("-o{j}\n+n{j}\n{MARK}"),
                        17 if j == at => format!("-o{j}\n{MARK}+n{j}\n{MARK}"),
                        _ => format!("-o{j}\n+n{j}\n"),
                    });
                    continue;
                }
                put(out, &match if j == at { odd - HUNKS } else { 99 } {
                    0 => format!("?c{j}\n-o{j}\n+n{j}\n"),
                    1 => format!("\n-o{j}\n+n{j}\n"),
                    2 => format!(" c{j}\n{MARK}-o{j}\n+n{j}\n"),
                    3 => format!(" c{j}\n-o{j}\n{MARK}+n{j}\n"),
                    4 => format!(" c{j}\n-o{j}\n+n{j}\n{MARK}"),
                    5 => format!(" c{j}\n-o{j}\n{MARK}+n{j}\n{MARK}"),
                    6 => format!(" c{j}\n+n{j}\n"),
                    7 => format!(" c{j}\n-o{j}\n+n{j}\n+n\n"),
                    8 => format!(" c{j}\n-o{j}\n+n{j}\n@@ -1 +1 @@\n"),
                    9 => format!(" c{j}\n--- o{j}\n+++ n{j}\n"),
                    10 => " \n-\n+\n".to_string(),
                    11 => format!(" c{j}\r\n-o{j}\0\n+n{j}\r\n"),
                    12 => format!(" c{j}\n+n{j}\n-o{j}\n"),
                    13 => format!("\r\n-o{j}\n+n{j}\n"),
                    14 => format!("\\ c{j}\n-o{j}\n+n{j}\n"),
                    _ => format!(" c{j}\n-o{j}\n+n{j}\n"),
                });
            }
        }
        true
    })
}

pub fn parse_gens(t: Tier) -> Vec<TextGen> {
    let mut v = text_gens(t);
    let k = BODY.len() as u64;
    let l = t.pick(3, 4);
    let n = seq_count(k, l);
    v.push(tg(format!("all bodies of <={l} of {k} lines with matching counts"), n, move |i, out| {
        let b = body_of(i, k, l);
        if !joined_ok(&b) {
            return false;
        }
        out.clear();
        push_hunk(out, 1, 1, (0, 0), b"", &b);
        true
    }));
    let n = seq_count(k, 2);
    v.push(tg(format!("all bodies of <=2 of {k} lines with counts off by -2..=2"), n * 25, move |i, out| {
        let d = i % 25;
        let b = body_of(i / 25, k, 2);
        if !joined_ok(&b) {
            return false;
        }
        out.clear();
        push_hunk(out, 1, 1, ((d % 5) as i64 - 2, (d / 5) as i64 - 2), b"", &b);
        true
    }));
    let l = t.pick(4, 5);
    let k = FILE_LINES.len() as u64;
    v.push(tg(format!("all files of <={l} of {k} lines"), seq_count(k, l), move |i, out| {
        let mut s = Vec::new();
        seq(i, k, l, &mut s);
        if s.iter().rev().skip(1).any(|x| !FILE_LINES[*x as usize].ends_with(b"\n")) {
            return false;
        }
        out.clear();
        s.iter().for_each(|x| out.extend_from_slice(FILE_LINES[*x as usize]));
        true
    }));
    let l = t.pick(6, 7);
    let k = HEADER_TOKENS.len() as u64;
    for (prefix, suffix, l) in [
        (&b""[..], &b"\n-a\n+b\n"[..], l - 1),
        (b"@@ ", b"\n-a\n+b\n", l - 1),
        (b"@@ -", b"\n", l - 1),
        (b"@@ -1", b"@@\n-a\n+b\n", l - 1),
        (b"@@ -1 +", b" @@\n-a\n+b\n", l - 1),
        (b"@@ -1 +1 @@", b"-a\n+b\n", l - 2),
        (b"@@ -1 +1 @@", b"\n-a\n+b\n@@ -2", 3),
    ] {
        v.push(tg(
            format!("all hunk headers {} + <={l} of {k} tokens + {}", crate::engine::esc(prefix), crate::engine::esc(suffix)),
            seq_count(k, l),
            move |i, out| {
                let mut s = Vec::new();
                seq(i, k, l, &mut s);
                out.clear();
                out.extend_from_slice(prefix);
                s.iter().for_each(|x| out.extend_from_slice(HEADER_TOKENS[*x as usize]));
                out.extend_from_slice(suffix);
                true
            },
        ));
    }
    let l = t.pick(5, 6);
    let k = NAME_TOKENS.len() as u64;
    for (prefix, suffix, l) in [
        (&b"--- "[..], &b"\n+++ b\n@@ -1 +1 @@\n-a\n+b\n"[..], l),
        (b"--- \"", b"\"\n", l - 1),
        (b"--- a\n+++ ", b"\n@@ -1 +1 @@\n-a\n+b\n", l - 1),
        (b"+++ \"", b"\"\t2020\n@@ -1 +1 @@\n-a\n+b\n", l - 1),
        (b"+++ ", b"", l - 1),
    ] {
        v.push(tg(
            format!("all file headers {} + <={l} of {k} tokens + {}", crate::engine::esc(prefix), crate::engine::esc(suffix)),
            seq_count(k, l),
            move |i, out| {
                let mut s = Vec::new();
                seq(i, k, l, &mut s);
                out.clear();
                out.extend_from_slice(prefix);
                s.iter().for_each(|x| out.extend_from_slice(NAME_TOKENS[*x as usize]));
                out.extend_from_slice(suffix);
                true
            },
        ));
    }
    // escapes in quoted names: numeric forms, and every byte
    const ESC: [&[u8]; 13] = [b"0", b"1", b"3", b"7", b"8", b"x", b"u", b"{", b"}", b"f", b"A", b"\\", b"\xc3\xa9"];
    const PLACES: [(&[u8], &[u8]); 4] = [
        (b"--- \"\\", b"\"\n+++ b\n@@ -1 +1 @@\n-a\n+b\n"),
        (b"--- a\n+++ \"x\\", b"y\"\n@@ -1 +1 @@\n-a\n+b\n"),
        (b"--- \"\\n\\", b"\n+++ b\n"),
        (b"+++ \"\\", b"\"\tz\n"),
    ];
    let l = t.pick(4, 5);
    let n = seq_count(13, l);
    v.push(tg(format!("4 quoted file headers with a backslash + all sequences of <={l} of 13 tokens of numeric escapes"), n * 4, move |i, out| {
        let mut s = Vec::new();
        seq(i / 4, 13, l, &mut s);
        let (a, b) = PLACES[(i % 4) as usize];
        out.clear();
        out.extend_from_slice(a);
        s.iter().for_each(|x| out.extend_from_slice(ESC[*x as usize]));
        out.extend_from_slice(b);
        true
    }));
    v.push(tg("3 quoted file headers with a backslash + every pair of bytes", 3 * 65536, move |i, out| {
        let (a, b) = PLACES[(i % 3) as usize];
        out.clear();
        out.extend_from_slice(a);
        out.push((i / 3 % 256) as u8);
        out.push((i / 3 / 256) as u8);
        out.extend_from_slice(b);
        true
    }));
    // numbers
    v.push(number_gen());
    // order of hunks: all starts and lengths (bodies made to fit)
    let m = t.pick(5u64, 6);
    v.push(tg(format!("two hunks, all starts 0..{m} and lengths 0..3 on both sides"), m.pow(4) * 81, move |i, out| {
        let mut i = i;
        let mut d = |n: u64| {
            let x = i % n;
            i /= n;
            x
        };
        let lens = [d(3), d(3), d(3), d(3)];
        let starts = [d(m), d(m), d(m), d(m)];
        out.clear();
        for h in 0..2 {
            let mut b: Vec<&[u8]> = vec![b"-x\n"; lens[2 * h] as usize];
            b.extend(vec![&b"+y\n"[..]; lens[2 * h + 1] as usize]);
            push_hunk(out, starts[2 * h], starts[2 * h + 1], (0, 0), b"", &b);
        }
        true
    }));
    v.push(tg("three hunks, all starts 0..7 on both sides of the middle and last", 7u64.pow(4), move |i, out| {
        let s = [i % 7, i / 7 % 7, i / 49 % 7, i / 343];
        out.clear();
        push_hunk(out, 1, 1, (0, 0), b"", &[b"-x\n", b"+y\n"]);
        push_hunk(out, s[0], s[1], (0, 0), b" f", &[b" c\n", b"+y\n"]);
        push_hunk(out, s[2], s[3], (0, 0), b"", &[b"-x\n", b"+y\n"]);
        true
    }));
    v.push(one_oddity(t));
    // mutations of valid patches
    for (vi, p) in VALID.iter().enumerate() {
        let nb = MUT_BYTES.len() as u64;
        let per = 2 + 2 * nb; // truncate, delete, replace, insert
        let one = (p.len() as u64 + 1) * per;
        v.push(tg(format!("all single-byte truncations, deletions, replacements and insertions of valid patch {vi}"), one, move |i, out| {
            out.clear();
            out.extend_from_slice(p);
            mutate(out, (i / per) as usize, i % per)
        }));
        let lines: Vec<&'static [u8]> = p.split_inclusive(|b| *b == b'\n').collect();
        let nl = lines.len() as u64;
        let lines = Arc::new(lines);
        v.push(tg(format!("all line moves, doublings and pairs of line deletions of valid patch {vi}"), nl * nl * 3, move |i, out| {
            let (kind, a, b) = (i % 3, (i / 3 % nl) as usize, (i / 3 / nl) as usize);
            let mut w: Vec<&[u8]> = lines.to_vec();
            match kind {
                0 => {
                    let x = w.remove(a);
                    w.insert(b.min(w.len()), x);
                }
                1 => {
                    let x = w[a];
                    w.insert(b, x);
                }
                _ => {
                    if a <= b {
                        return false;
                    }
                    w.remove(a);
                    w.remove(b);
                }
            }
            out.clear();
            w.iter().for_each(|l| out.extend_from_slice(l));
            true
        }));
        if t == Tier::Thorough && p.len() < 120 {
            v.push(tg(format!("all pairs of byte mutations of valid patch {vi}"), one * one, move |i, out| {
                out.clear();
                out.extend_from_slice(p);
                let (a, b) = (i / one, i % one);
                mutate(out, (a / per) as usize, a % per) && mutate(out, (b / per) as usize, b % per)
            }));
        }
    }
    v
}

fn mutate(out: &mut Vec<u8>, at: usize, kind: u64) -> bool {
    let nb = MUT_BYTES.len() as u64;
    if at > out.len() || (at == out.len() && kind < 2 + nb) {
        return false;
    }
    match kind {
        0 => out.truncate(at),
        1 => {
            out.remove(at);
        }
        k if k < 2 + nb => out[at] = MUT_BYTES[(k - 2) as usize],
        k => out.insert(at, MUT_BYTES[(k - 2 - nb) as usize]),
    }
    true
}

pub const NUMBERS: &[&str] = &[
    "0", "1", "2", "3", "7", "10", "00", "01", "007", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
    "18446744073709551613", "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617",
    "36893488147419103232", "99999999999999999999999", "", "-1", " 1", "1 ", "0x1", "1e1", "1_0", "\u{661}", "a", "1,1",
];

/// All numbers of the ladder in each of the four places, bodies with 0..=1 lines.
pub fn number_gen() -> TextGen {
    let n = NUMBERS.len() as u64;
    tg(format!("{n} numbers as start and length on both sides, pairwise, also as a second hunk"), n * n * 6 * 4 * 2, move |i, out| {
        let two = i % 2 == 1;
        let i = i / 2;
        let body = i % 4;
        let i = i / 4;
        let which = i % 6;
        let (x, y) = (NUMBERS[(i / 6 % n) as usize], NUMBERS[(i / 6 / n) as usize]);
        let (o, w): (&str, &str) = (["0", "1"][(body & 1) as usize], ["0", "1"][(body >> 1) as usize]);
        let mut f = ["1", o, "1", w];
        let (a, b) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][which as usize];
        f[a] = x;
        f[b] = y;
        out.clear();
        if two {
            out.extend_from_slice(b"@@ -0,0 +1 @@\n+a\n");
        }
        out.extend_from_slice(format!("@@ -{},{} +{},{} @@\n", f[0], f[1], f[2], f[3]).as_bytes());
        if body & 1 == 1 {
            out.extend_from_slice(b"-a\n");
        }
        if body & 2 == 2 {
            out.extend_from_slice(b"+b\n");
        }
        if two && body == 3 {
            out.extend_from_slice(format!("@@ -{} +{} @@\n-a\n+b\n", f[2], f[0]).as_bytes());
        }
        true
    })
}

pub type TextCheck = fn(&mut crate::engine::Ctx, &[u8]) -> crate::engine::Res;

/// One space per generator; each text goes to the check.
pub fn text_spaces(gens: Vec<TextGen>, check: TextCheck) -> Vec<Box<dyn crate::engine::Space>> {
    gens.into_iter()
        .map(|g| {
            let g2 = g.clone();
            crate::engine::space(
                g.name.clone(),
                g.len,
                move |i, c| {
                    let mut b = Vec::new();
                    if !(g.get)(i, &mut b) {
                        c.skipped += 1;
                        return Ok(());
                    }
                    c.sample(|| crate::engine::esc(&b));
                    check(c, &b)
                },
                move |i| {
                    let mut b = Vec::new();
                    (g2.get)(i, &mut b);
                    format!("input {}", crate::engine::esc(&b))
                },
            )
        })
        .collect()
}
