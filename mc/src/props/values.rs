//! C22: patches, hunks, ranges and lines are plain values.

use crate::api::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::{self, *};
use crate::props::tokens;
use crate::{ensure, fail};
use diffy::{Hunk, HunkRange, Line, Patch};
use std::sync::OnceLock;

type Pool<T> = Vec<(Patch<'static, T>, MPatch<'static>)>;

fn leak(v: Vec<u8>) -> &'static [u8] {
    Box::leak(v.into_boxed_slice())
}

fn add<A: Api>(pool: &mut Pool<A::T>, p: Patch<'static, A::T>) {
    // the views borrow from the texts, which are leaked, not from the patch
    let m = own(&view(&p));
    pool.push((p, m));
}

fn own(m: &MPatch<'_>) -> MPatch<'static> {
    MPatch {
        orig: m.orig.clone(),
        modi: m.modi.clone(),
        hunks: m
            .hunks
            .iter()
            .map(|h| MHunk {
                os: h.os,
                ol: h.ol,
                ns: h.ns,
                nl: h.nl,
                fc: h.fc.map(|f| leak(f.to_vec())),
                lines: h.lines.iter().map(|l| (l.0, leak(l.1.to_vec()))).collect(),
            })
            .collect(),
    }
}

/// Texts of patches that are close to each other in every component.
fn texts(t: Tier) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = Vec::new();
    let names: [&[u8]; 13] = [
        b"", b"--- a\n", b"+++ a\n", b"--- a\n+++ a\n", b"--- a\n+++ b\n", b"--- b\n+++ a\n", b"--- \n+++ \n", b"--- \"\"\n", b"--- \"a\"\n",
        b"--- \"a\\\"\"\n", b"--- \"a\\n\"\n+++ a \n", b"+++ ab\n", b"--- aa\n+++ \xc3\xa9\n",
    ];
    let fcs: [&[u8]; 6] = [b"", b" ", b" f", b" f ", b"  f", b" g"];
    let k = t.pick(7u64, 8);
    let lines: [&[u8]; 8] = [b" a\n", b"-a\n", b"+a\n", b" b\n", b"-b\n", b"+b\n", b" \n", b"- a\n"];
    let body = |i: u64, n: u32| -> Vec<&'static [u8]> {
        let mut s = Vec::new();
        seq(i, k, n, &mut s);
        s.iter().map(|x| leak(lines[*x as usize].to_vec())).collect()
    };
    // names x function contexts x small bodies
    for nm in names {
        for fc in fcs {
            for i in 0..seq_count(k, 1) {
                let mut o = nm.to_vec();
                tokens::push_hunk(&mut o, 1, 1, (0, 0), fc, &body(i, 1));
                v.push(o);
            }
        }
    }
    // start lines x bodies
    for (os, ns) in [(1u64, 1u64), (0, 0), (1, 2), (2, 1), (2, 2), (12, 12), (1 << 40, 1 << 40)] {
        for i in 0..seq_count(k, t.pick(2, 3)) {
            let mut o = Vec::new();
            tokens::push_hunk(&mut o, os, ns, (0, 0), b"", &body(i, 3));
            v.push(o);
        }
    }
    // two and three hunks
    for i in 0..seq_count(k, 1) {
        for j in 0..seq_count(k, 1) {
            for at in [5u64, 6] {
                let mut o = Vec::new();
                tokens::push_hunk(&mut o, 1, 1, (0, 0), b"", &body(i, 1));
                tokens::push_hunk(&mut o, at, at, (0, 0), b"", &body(j, 1));
                if at == 6 {
                    tokens::push_hunk(&mut o, 9, 9, (0, 0), b" f", &body(j, 1));
                }
                v.push(o);
            }
        }
    }
    // unterminated lines
    let m = b"\\ No newline at end of file\n";
    for b in [&b"@@ -1 +1 @@\n-a\n"[..], b"@@ -1 +1 @@\n+a\n", b"@@ -1 +1 @@\n a\n", b"@@ -1 +1 @@\n-a\n+a\n", b"@@ -1 +1 @@\n-a\n+b\n"] {
        for cut in 0..4usize {
            let mut o = Vec::new();
            for (n, l) in b.split_inclusive(|c| *c == b'\n').enumerate() {
                o.extend_from_slice(l);
                if n > 0 && cut >> (n - 1) & 1 == 1 {
                    o.extend_from_slice(m);
                }
            }
            let (dels, adds) = (o.iter().filter(|c| **c == b'-').count(), o.iter().filter(|c| **c == b'+').count());
            let ctx = o.windows(3).any(|w| w == b"\n a") as usize;
            let head = format!("@@ -1,{} +1,{} @@\n", dels - 1 + ctx, adds - 1 + ctx);
            let rest = o.iter().position(|c| *c == b'\n').unwrap();
            v.push([head.as_bytes(), &o[rest + 1..]].concat());
        }
    }
    v.sort();
    v.dedup();
    v
}

fn fill<A: Api>(t: Tier) -> Pool<A::T>
where
    Patch<'static, A::T>: Clone,
{
    let mut pool = Vec::new();
    for x in texts(t) {
        let x = leak(x);
        let Some(x) = A::text(x) else { continue };
        let Ok(p) = A::parse(x) else { continue };
        let src: &'static Patch<'static, A::T> = Box::leak(Box::new(p.clone()));
        add::<A>(&mut pool, p);
        // reversing some of them suffices to meet an equal patch made in another way
        if pool.len() % 3 == 0 {
            add::<A>(&mut pool, src.reverse());
        }
    }
    let mut p = Pair { o: vec![], m: vec![] };
    let g = Dense::new(2, t.pick(3, 4), true);
    for i in 0..g.len() {
        if !g.get(i, &mut p) {
            continue;
        }
        let (o, m) = (leak(p.o.clone()), leak(p.m.clone()));
        for n in [0usize, 3] {
            let mut opts = diff_opts(n);
            match i % 3 {
                0 => {
                    opts.set_original_filename("a");
                    opts.set_modified_filename("b");
                }
                1 => {}
                _ => {
                    opts.set_modified_filename("a".to_string());
                }
            }
            add::<A>(&mut pool, A::create(&opts, A::text(o).unwrap(), A::text(m).unwrap()));
        }
    }
    pool
}

static STR: [OnceLock<Pool<str>>; 2] = [OnceLock::new(), OnceLock::new()];
static BYTES: [OnceLock<Pool<[u8]>>; 2] = [OnceLock::new(), OnceLock::new()];

fn pool_s(t: Tier) -> &'static Pool<str> {
    STR[t.pick(0, 1)].get_or_init(|| fill::<S>(t))
}
fn pool_b(t: Tier) -> &'static Pool<[u8]> {
    BYTES[t.pick(0, 1)].get_or_init(|| fill::<B>(t))
}

/// The numbers of a range in every form it offers.
fn range(r: HunkRange, start: usize, len: usize) -> Res {
    ensure!(r.start() == start && r.len() == len, "range {r:?}: start {} length {}, expected {start} and {len}", r.start(), r.len());
    ensure!(r.end() == start + len, "range {start}+{len} ends at {}", r.end());
    ensure!(r.is_empty() == (len == 0), "range {start}+{len}: is_empty is {}", r.is_empty());
    ensure!(r.range() == (start..start + len), "range {start}+{len}: range() is {:?}", r.range());
    let want = if len == 1 { format!("{start}") } else { format!("{start},{len}") };
    ensure!(r.to_string() == want, "range {start}+{len} is displayed as {r}");
    let again = r;
    ensure!(again == r && !(again != r), "range {start}+{len} differs from its copy");
    Ok(())
}

fn kind<T: ?Sized>(l: &Line<'_, T>) -> u8 {
    match l {
        Line::Context(_) => b' ',
        Line::Delete(_) => b'-',
        Line::Insert(_) => b'+',
    }
}

/// One patch against itself, its clone and its parts.
fn single<A: Api>(c: &mut Ctx, p: &Patch<'_, A::T>, m: &MPatch<'_>) -> Res
where
    A::T: PartialEq,
{
    c.step(6);
    let q = p.clone();
    ensure!(view(&q) == *m, "{}: the clone reads {:?} instead of {m:?}", A::NAME, view(&q));
    ensure!(q == *p && *p == q && !(q != *p), "{}: a patch differs from its clone: {m:?}", A::NAME);
    ensure!(A::show(&q) == A::show(p), "{}: the clone is formatted as {}, its source as {}", A::NAME, esc(&A::show(&q)), esc(&A::show(p)));
    ensure!(view(p) == *m, "{}: cloning changed the patch", A::NAME);
    let back = model::reverse(m);
    ensure!(view(&q.reverse()) == back, "{}: the clone reversed is {:?}", A::NAME, view(&q.reverse()));
    let r = p.reverse();
    let rr = r.reverse();
    ensure!(rr == *p, "{}: reversed twice {m:?} becomes {:?}", A::NAME, view(&rr));
    for (h, w) in p.hunks().iter().zip(&m.hunks) {
        range(h.old_range(), w.os, w.ol)?;
        range(h.new_range(), w.ns, w.nl)?;
        let g = h.clone();
        ensure!(g == *h && *h == g, "{}: a hunk differs from its clone: {w:?}", A::NAME);
        let r = h.reverse();
        ensure!(
            r.old_range() == h.new_range() && r.new_range() == h.old_range() && r.lines().len() == h.lines().len(),
            "{}: reversed hunk has the ranges {} and {}, source {} and {}",
            A::NAME,
            r.old_range(),
            r.new_range(),
            h.old_range(),
            h.new_range()
        );
        ensure!(
            r.function_context().map(|f| f.by()) == h.function_context().map(|f| f.by()),
            "{}: a reversed hunk has another function context",
            A::NAME
        );
        for (l, n) in h.lines().iter().zip(r.lines()) {
            let want = match kind(l) {
                b'-' => b'+',
                b'+' => b'-',
                k => k,
            };
            ensure!(kind(n) == want && kind(&l.reverse()) == want, "{}: reversing a {:?} line gives {:?}", A::NAME, kind(l) as char, kind(n) as char);
            ensure!(l.reverse() == *n && l.reverse().reverse() == *l, "{}: reversing a line changes its text", A::NAME);
            let copy = *l;
            ensure!(copy == *l, "{}: a line differs from its copy", A::NAME);
        }
        ensure!(r.reverse() == *h, "{}: a hunk reversed twice differs: {w:?}", A::NAME);
    }
    Ok(())
}

fn two<A: Api>(p: &Patch<'_, A::T>, m: &MPatch<'_>, q: &Patch<'_, A::T>, n: &MPatch<'_>) -> Res {
    let same = m == n;
    ensure!((p == q) == same, "{}: {} patches compare {}: {m:?} and {n:?}", A::NAME, word(same), eq(!same));
    ensure!((p != q) != same, "{}: {} patches: `!=` gives {same}: {m:?} and {n:?}", A::NAME, word(same));
    // their first hunks
    if let (Some(g), Some(h)) = (p.hunks().last(), q.hunks().last()) {
        let (x, y) = (m.hunks.last().unwrap(), n.hunks.last().unwrap());
        let same = x == y;
        ensure!((g == h) == same, "{}: {} hunks compare {}: {x:?} and {y:?}", A::NAME, word(same), eq(!same));
        let same = (x.os, x.ol) == (y.os, y.ol);
        ensure!((g.old_range() == h.old_range()) == same, "{}: old ranges {} and {} compare {}", A::NAME, g.old_range(), h.old_range(), eq(!same));
        let same = (x.os, x.ol) == (y.ns, y.nl);
        ensure!((g.old_range() == h.new_range()) == same, "{}: ranges {} and {} compare {}", A::NAME, g.old_range(), h.new_range(), eq(!same));
        if let (Some(k), Some(l)) = (g.lines().last(), h.lines().last()) {
            let (a, b) = (x.lines.last().unwrap(), y.lines.last().unwrap());
            ensure!((k == l) == (a == b), "{}: {} lines compare {}: {a:?} and {b:?}", A::NAME, word(a == b), eq(a != b));
        }
    }
    Ok(())
}

fn word(same: bool) -> &'static str {
    if same { "equal" } else { "different" }
}
fn eq(same: bool) -> &'static str {
    if same { "equal" } else { "different" }
}

fn row<A: Api>(c: &mut Ctx, pool: &Pool<A::T>, i: usize) -> Res {
    let (p, m) = &pool[i];
    single::<A>(c, p, m)?;
    c.outcome(m);
    for (q, n) in pool {
        two::<A>(p, m, q, n)?;
    }
    c.step(pool.len() as u64);
    c.states += pool.len() as u64;
    c.traces += pool.len() as u64;
    Ok(())
}

/// A patch of many parts against variants of it that differ in one part.
fn variants(n: usize, at: usize, what: u64) -> Option<(Vec<u8>, Vec<u8>)> {
    let mut out = [Vec::new(), Vec::new()];
    for (side, o) in out.iter_mut().enumerate() {
        for k in 0..n {
            let hit = side == 1 && k == at;
            let (mut os, mut fc) = (10 * k as u64 + 1, b" f".to_vec());
            let mut body: Vec<&[u8]> = vec![b" a\n", b"-b\n", b"+c\n", b" d\n"];
            if hit {
                match what {
                    0 => os += 1,
                    1 => fc = b" g".to_vec(),
                    2 => fc.clear(),
                    3 => body[0] = b" A\n",
                    4 => body[3] = b" dd\n",
                    5 => body[1] = b"-B\n",
                    6 => body[2] = b"+\n",
                    7 => body.swap(1, 2),
                    8 => {
                        body.pop();
                    }
                    9 if k + 1 == n => continue,
                    _ => return None,
                }
            }
            tokens::push_hunk(o, os, 10 * k as u64 + 1, (0, 0), &fc, &body);
        }
    }
    let [a, b] = out;
    Some((a, b))
}

fn differ<A: Api>(c: &mut Ctx, a: &[u8], b: &[u8]) -> Res {
    let (Some(a), Some(b)) = (A::text(a), A::text(b)) else { return Ok(()) };
    c.step(2);
    let (Ok(p), Ok(q)) = (A::parse(a), A::parse(b)) else { fail!("{}: a well-formed patch is rejected", A::NAME) };
    let (m, n) = (view(&p), view(&q));
    two::<A>(&p, &m, &q, &n)?;
    ensure!(p != q, "{}: patches of different texts compare equal", A::NAME);
    let again = A::parse(a).unwrap();
    ensure!(again == p, "{}: two patches of the same text differ", A::NAME);
    single::<A>(c, &q, &n)
}

fn long(which: u64, n: usize, at: usize) -> (Vec<u8>, Vec<u8>) {
    let mut s = vec![b'x'; n];
    let base = s.clone();
    s[at] = b'y';
    let f = |s: &[u8]| -> Vec<u8> {
        let s = String::from_utf8(s.to_vec()).unwrap();
        match which {
            0 => format!("--- {s}\n+++ b\n@@ -1 +1 @@\n-a\n+b\n"),
            1 => format!("--- a\n+++ {s}\n@@ -1 +1 @@\n-a\n+b\n"),
            2 => format!("@@ -1 +1 @@ {s}\n-a\n+b\n"),
            3 => format!("@@ -1 +1 @@\n-{s}\n+b\n"),
            4 => format!("@@ -1 +1 @@\n-b\n+{s}\n"),
            5 => format!("@@ -1 +1 @@\n {s}\n"),
            _ => format!("--- \"\\t{s}\"\n+++ b\n@@ -1 +1 @@\n-a\n+b\n"),
        }
        .into_bytes()
    };
    (f(&base), f(&s))
}

fn hunk_of(l: usize) -> Vec<u8> {
    let mut o = format!("@@ -1,{l} +1,{} @@\n", l / 2).into_bytes();
    for k in 0..l {
        o.extend_from_slice(if k < l / 2 { b" a\n" } else { b"-a\n" });
    }
    o
}

pub fn c22(t: Tier) -> Vec<Box<dyn Space>> {
    let (ns, nb) = (pool_s(t).len() as u64, pool_b(t).len() as u64);
    let mut v = vec![
        space(
            format!("all ordered pairs of {nb} patches (bytes), parsed, created and reversed"),
            nb,
            move |i, c| row::<B>(c, pool_b(t), i as usize),
            move |i| format!("patch {:?} against all", pool_b(t)[i as usize].1),
        ),
        space(
            format!("all ordered pairs of {ns} patches (str), parsed, created and reversed"),
            ns,
            move |i, c| row::<S>(c, pool_s(t), i as usize),
            move |i| format!("patch {:?} against all", pool_s(t)[i as usize].1),
        ),
    ];
    let sizes = [1usize, 2, 3, 5, 8, 9, 16, 17, 33, 65, 129, 257, 300];
    let places: Vec<(usize, usize)> = sizes.iter().flat_map(|n| (0..*n).map(move |k| (*n, k))).collect();
    let len = places.len() as u64 * 10;
    let pl = places.clone();
    v.push(space(
        "patches of up to 300 hunks that differ in one part of one hunk, at every hunk",
        len,
        move |i, c| {
            let (n, at) = places[(i / 10) as usize];
            let Some((a, b)) = variants(n, at, i % 10) else { return Ok(()) };
            c.states += 1;
            c.traces += 1;
            differ::<B>(c, &a, &b)?;
            differ::<S>(c, &a, &b)
        },
        move |i| format!("{:?} hunks and place, difference {}", pl[(i / 10) as usize], i % 10),
    ));
    let lens = [1usize, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513];
    let spots: Vec<(usize, usize)> = lens.iter().flat_map(|n| (0..*n).map(move |k| (*n, k))).collect();
    let sp = spots.clone();
    v.push(space(
        "patches with a name, function context or line of up to 513 bytes that differ in one byte of it, at every byte",
        spots.len() as u64 * 7,
        move |i, c| {
            let (n, at) = spots[(i / 7) as usize];
            let (a, b) = long(i % 7, n, at);
            c.states += 1;
            c.traces += 1;
            differ::<B>(c, &a, &b)?;
            differ::<S>(c, &a, &b)
        },
        move |i| format!("{:?} length and place, kind {}", sp[(i / 7) as usize], i % 7),
    ));
    let al = lookalikes().len() as u64;
    v.push(space(
        format!("patches which differ in one of {al} pairs of look-alike lines"),
        al * 3,
        move |i, c| {
            let (x, y) = &lookalikes()[(i / 3) as usize];
            if [x, y].iter().any(|l| l.contains(&b'\n')) {
                return Ok(());
            }
            let s = [&b" "[..], b"-", b"+"][(i % 3) as usize];
            let h = [&b"@@ -1 +1 @@\n"[..], b"@@ -1 +0,0 @@\n", b"@@ -0,0 +1 @@\n"][(i % 3) as usize];
            c.states += 1;
            c.traces += 1;
            let (a, b) = ([h, s, x, b"\n"].concat(), [h, s, y, b"\n"].concat());
            differ::<B>(c, &a, &b)?;
            differ::<S>(c, &a, &b)
        },
        move |i| format!("{:?} as line kind {}", lookalikes()[(i / 3) as usize], i % 3),
    ));
    v.push(space(
        "hunks of up to 300 lines, and hunks at start lines around powers of two",
        300 + 63 * 3,
        move |i, c| {
            let text = if i < 300 {
                hunk_of(i as usize + 1)
            } else {
                let (k, d) = ((i - 300) / 3, (i - 300) % 3);
                let s = (1u64 << k) - 1 + d;
                format!("@@ -{s} +{s} @@\n-a\n+b\n").into_bytes()
            };
            c.states += 1;
            c.traces += 1;
            c.step(2);
            let p: Patch<'_, [u8]> = Patch::from_bytes(&text).map_err(|e| format!("a well-formed patch is rejected: {e}"))?;
            let want = match ref_parse(&text) {
                Verdict::Accept(m) => m,
                _ => return Ok(()),
            };
            ensure!(view(&p) == want, "parses to {:?}", view(&p));
            let _: &[Hunk<'_, [u8]>] = p.hunks();
            single::<B>(c, &p, &want)
        },
        |i| format!("case {i}"),
    ));
    v
}
