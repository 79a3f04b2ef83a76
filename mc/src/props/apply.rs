//! C09, C10, C21: applying patches.

use crate::api::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::{self, *};
use crate::props::tokens::push_hunk;
use crate::{ensure, fail};
use std::sync::Arc;

/// Every patch text applied to every base must do what the reference does.
fn c09_one<A: Api>(c: &mut Ctx, base: &[u8], text: &[u8]) -> Res {
    let (Some(b), Some(t)) = (A::text(base), A::text(text)) else { return Ok(()) };
    let Ok(p) = A::parse(t) else {
        c.cat("patch text not accepted (not compared)");
        return Ok(());
    };
    c09_patch::<A>(c, base, b, &p)
}

fn c09_patch<A: Api>(c: &mut Ctx, base: &[u8], b: &A::T, p: &diffy::Patch<'_, A::T>) -> Res {
    let v = view(p);
    let want = apply_nearest(base, &v);
    let got = A::apply(b, p);
    c.step(1);
    c.traces += 1;
    match (&want, &got) {
        (Ok((w, moved)), Ok(g)) => {
            ensure!(w == g, "{}: the result is {}, expected {} (displacements {moved:?})", A::NAME, esc(g), esc(w));
            c.cat(if moved.iter().all(|m| *m == 0) { "placed as stated" } else { "placed elsewhere" });
            c.outcome(&(g, moved));
        }
        (Err(n), Err(e)) => {
            let msg = format!("error applying hunk #{n}");
            ensure!(*e == msg, "{}: the error is {e:?}, expected {msg:?}", A::NAME);
            c.cat("no place for a hunk");
            c.outcome(n);
        }
        (Ok((w, moved)), Err(e)) => fail!("{}: fails with {e:?}, but there is a place: expected {} (displacements {moved:?})", A::NAME, esc(w)),
        (Err(n), Ok(g)) => fail!("{}: gives {}, but hunk #{n} has no place", A::NAME, esc(g)),
    }
    Ok(())
}

fn both(c: &mut Ctx, base: &[u8], text: &[u8]) -> Res {
    c.states += 1;
    c09_one::<B>(c, base, text)?;
    c09_one::<S>(c, base, text)
}

type Case = (Vec<u8>, Vec<u8>);

fn case_space(name: String, len: u64, f: impl Fn(u64) -> Option<Case> + Sync + Send + 'static) -> Box<dyn Space> {
    let f = Arc::new(f);
    let g = f.clone();
    space(
        name,
        len,
        move |i, c| {
            let Some((base, text)) = f(i) else {
                c.skipped += 1;
                return Ok(());
            };
            c.sample(|| format!("base {} patch {}", esc(&base), esc(&text)));
            both(c, &base, &text)
        },
        move |i| match g(i) {
            Some((base, text)) => format!("base={} patch={}", esc(&base), esc(&text)),
            None => "not a case".into(),
        },
    )
}

/// hunk lines over the first k letters: code -> line
fn hline(x: u8, k: u8) -> &'static [u8] {
    const L: [[&[u8]; 3]; 3] = [[b" a\n", b"-a\n", b"+a\n"], [b" b\n", b"-b\n", b"+b\n"], [b" c\n", b"-c\n", b"+c\n"]];
    L[(x % k) as usize][(x / k) as usize]
}

fn bodies(k: u8, n: u32) -> Vec<Vec<&'static [u8]>> {
    let t = 3 * k as u64;
    let mut s = Vec::new();
    (1..seq_count(t, n))
        .map(|i| {
            seq(i, t, n, &mut s);
            s.iter().map(|x| hline(*x, k)).collect()
        })
        .collect()
}

fn image(i: u64, k: u64, n: u32) -> Vec<u8> {
    let mut s = Vec::new();
    seq(i, k, n, &mut s);
    let mut out = Vec::new();
    text(&s, &letters(k as usize), &mut out);
    out
}

const FAR: [u64; 6] = [1000, 1 << 31, 1 << 32, u64::MAX / 2 + 7, u64::MAX - 50, 50];

pub fn c09(t: Tier) -> Vec<Box<dyn Space>> {
    let mut v = Vec::new();
    // lines of the base which a careless comparison takes for those of the hunk
    v.push(case_space(
        format!("{} pairs of look-alike lines: a hunk over one of them, bases with the other one at the stated place, 6 arrangements", lookalikes().len()),
        lookalikes().len() as u64 * 6,
        |i| {
            let (x, y) = &lookalikes()[(i / 6) as usize];
            let line = |s: &str, l: &[u8]| [s.as_bytes(), l, b"\n"].concat();
            let (x0, y0) = (line("", x), line("", y));
            let del = [line("-", x), line("+", b"new")].concat();
            let ctx = [line(" ", x), line("+", b"new")].concat();
            let (base, body, n, old) = match i % 6 {
                0 => (y0, del, 1, 1),
                1 => ([y0, b"q\n".to_vec(), x0].concat(), del, 1, 1),
                2 => ([x0, y0].concat(), del, 2, 1),
                3 => ([b"q\n".to_vec(), y0.clone(), y0].concat(), ctx, 2, 1),
                4 => ([y0.clone(), x0, y0].concat(), ctx, 3, 1),
                _ => ([y0.clone(), b"q\n".to_vec(), x0, b"q\n".to_vec()].concat(), [line(" ", x), line("-", b"q"), line("+", y)].concat(), 1, 2),
            };
            let new = if i % 6 < 3 { 1 } else { 2 };
            let (old, new) = if i % 6 == 5 { (2, 2) } else { (old, new) };
            Some((base, [format!("@@ -1,{old} +{n},{new} @@\n").into_bytes(), body].concat()))
        },
    ));
    // one hunk: all images x all bodies x all stated places
    for (k, n, bl, eofs) in [(2u8, t.pick(5, 6), t.pick(3, 3), 1u64), (2, 4, 2, 4), (3, t.pick(4, 5), 2, 1)] {
        let bs = Arc::new(bodies(k, bl));
        let images = seq_count(k as u64, n);
        let starts: Vec<u64> = (0..=n as u64 + 2).chain(FAR).collect();
        let (ns, nb) = (starts.len() as u64, bs.len() as u64);
        v.push(case_space(
            format!("one hunk: {images} bases over {k} lines (<={n}), {nb} bodies (<={bl} lines), {ns} stated new line numbers, 3 old line numbers{}", if eofs > 1 { ", with/without final newline in base and hunk" } else { "" }),
            images * nb * ns * 3 * eofs,
            move |mut i| {
                let eof = i % eofs;
                i /= eofs;
                let o = i % 3;
                i /= 3;
                let s = starts[(i % ns) as usize];
                i /= ns;
                let b = &bs[(i % nb) as usize];
                let mut base = image(i / nb, k as u64, n);
                if eof & 1 == 1 && !cut_eof(&mut base) {
                    return None;
                }
                let mut text = Vec::new();
                push_hunk(&mut text, [s, 1, 7][o as usize], s, (0, 0), b"", b);
                if eof & 2 == 2 {
                    text.extend_from_slice(b"\\ No newline at end of file\n");
                }
                Some((base, text))
            },
        ));
    }
    // two hunks
    let bs = Arc::new(bodies(2, 2));
    for (n, far) in [(t.pick(4, 5), false), (3, true)] {
        let images = seq_count(2, n);
        let nb = bs.len() as u64;
        let starts: Vec<(u64, u64)> = if far {
            vec![(1, 1 << 33), (1 << 33, u64::MAX - 9), (3, 60), (40, 80)]
        } else {
            let m = n as u64 + 2;
            (0..m).flat_map(|a| (a..m + 1).map(move |b| (a, b))).collect()
        };
        let ns = starts.len() as u64;
        let bs = bs.clone();
        v.push(case_space(
            format!("two hunks: {images} bases over 2 lines (<={n}), {nb} x {nb} bodies (<=2 lines), {ns} pairs of stated line numbers"),
            images * nb * nb * ns,
            move |mut i| {
                let (s1, s2) = starts[(i % ns) as usize];
                i /= ns;
                let (x, y) = (&bs[(i % nb) as usize], &bs[(i / nb % nb) as usize]);
                let base = image(i / nb / nb, 2, n);
                let mut text = Vec::new();
                push_hunk(&mut text, 0, s1, (0, 0), b"", x);
                push_hunk(&mut text, 40, s2, (0, 0), b"", y);
                Some((base, text))
            },
        ));
    }
    // a hunk that only inserts, then any hunk: no later hunk may touch what was written
    let bs3 = Arc::new(bodies(2, 3));
    let (nb, n) = (bs3.len() as u64, t.pick(4, 5));
    let images = seq_count(2, n);
    let m = n as u64 + 2;
    let starts: Vec<(u64, u64)> = (0..m).flat_map(|a| (a..m + 1).map(move |b| (a, b))).collect();
    let ns = starts.len() as u64;
    v.push(case_space(
        format!("an inserting hunk (3 bodies), then one of {nb} bodies (<=3 lines): {images} bases over 2 lines (<={n}), {ns} pairs of stated line numbers"),
        images * nb * 3 * ns,
        move |mut i| {
            let (s1, s2) = starts[(i % ns) as usize];
            i /= ns;
            let first: &[&[u8]] = match i % 3 {
                0 => &[b"+a\n"],
                1 => &[b"+b\n"],
                _ => &[b"+a\n", b"+b\n"],
            };
            i /= 3;
            let mut text = Vec::new();
            push_hunk(&mut text, 0, s1, (0, 0), b"", first);
            push_hunk(&mut text, 40, s2, (0, 0), b"", &bs3[(i % nb) as usize]);
            Some((image(i / nb, 2, n), text))
        },
    ));
    // three hunks
    let few: Arc<Vec<Vec<&'static [u8]>>> = Arc::new(vec![
        vec![b"+a\n"],
        vec![b"-a\n"],
        vec![b" a\n", b"+b\n"],
        vec![b"+b\n", b" a\n"],
        vec![b"-b\n", b"+a\n"],
        vec![b"-a\n", b"-b\n"],
        vec![b" a\n", b"-b\n", b"+c\n", b" a\n"],
    ]);
    let nf = few.len() as u64;
    let n = t.pick(5, 6);
    let images = seq_count(2, n);
    v.push(case_space(
        format!("three hunks: {images} bases over 2 lines (<={n}), {nf}^3 bodies, 27 placements"),
        images * nf.pow(3) * 27,
        move |mut i| {
            let g = [i % 3, i / 3 % 3, i / 9 % 3];
            i /= 27;
            let mut text = Vec::new();
            let mut at = g[0];
            for k in 0..3 {
                let b = &few[(i % nf) as usize];
                i /= nf;
                push_hunk(&mut text, at, at, (0, 0), b"", b);
                at += 4 + g[k.min(1) + 1] * 2;
            }
            Some((image(i, 2, n), text))
        },
    ));
    // long bases: every pair of candidate places x every stated line number
    for (l, shape) in [(t.pick(24usize, 40), 0u8), (t.pick(24, 40), 1), (t.pick(24, 40), 2), (t.pick(24, 40), 3)] {
        let m = l as u64 + 1;
        v.push(case_space(
            format!("long bases: {l} lines, two candidate places anywhere, every stated line number 0..={} (hunk shape {shape})", l + 4),
            m * m * (l as u64 + 5),
            move |i| {
                let (s, p, q) = (i % (l as u64 + 5), i / (l as u64 + 5) % m, i / (l as u64 + 5) / m);
                if p > q {
                    return None;
                }
                let mut base = Vec::new();
                for j in 0..l as u64 {
                    if j == p || j == q {
                        base.extend_from_slice(b"x\ny\n");
                    } else {
                        base.extend_from_slice(format!("l{j}\n").as_bytes());
                    }
                }
                let body: &[&[u8]] = match shape {
                    0 => &[b" x\n", b"-y\n", b"+z\n"],
                    1 => &[b"-x\n", b"-y\n"],
                    2 => &[b" x\n", b"+new\n", b" y\n"],
                    _ => &[b"+0\n", b"+1\n", b"+2\n", b" x\n", b"-y\n"],
                };
                let mut text = Vec::new();
                push_hunk(&mut text, 1, s, (0, 0), b"", body);
                Some((base, text))
            },
        ));
    }
    // similar lines: a hunk must match byte for byte
    let pool: Arc<Vec<Vec<u8>>> = Arc::new(special_lines(false));
    let n = pool.len() as u64;
    v.push(case_space(
        format!("{n} x {n} special lines: a hunk about one line, a base with the other (and with both), with/without final newline in base and hunk"),
        n * n * 3 * 4 * 3,
        move |mut i| {
            let eof = i % 4;
            i /= 4;
            let kind = i % 3;
            i /= 3;
            let shape = i % 3;
            i /= 3;
            let (x, y) = (&pool[(i % n) as usize], &pool[(i / n) as usize]);
            let mut base = Vec::new();
            match shape {
                0 => base.extend_from_slice(y),
                1 => {
                    base.extend_from_slice(y);
                    base.extend_from_slice(x);
                }
                _ => {
                    base.extend_from_slice(x);
                    base.extend_from_slice(y);
                }
            }
            if eof & 1 == 1 && !cut_eof(&mut base) {
                return None;
            }
            let mut text = Vec::new();
            match kind {
                0 => {
                    text.extend_from_slice(b"@@ -1 +0,0 @@\n-");
                    text.extend_from_slice(x);
                }
                1 => {
                    text.extend_from_slice(b"@@ -1 +1,2 @@\n+new\n ");
                    text.extend_from_slice(x);
                }
                _ => {
                    text.extend_from_slice(b"@@ -2 +2 @@\n-");
                    text.extend_from_slice(x);
                    if eof & 2 == 2 {
                        text.extend_from_slice(NO_NL);
                        text.push(b'\n');
                    }
                    text.extend_from_slice(b"+");
                    text.extend_from_slice(y);
                }
            }
            if eof & 2 == 2 && kind != 2 {
                text.extend_from_slice(NO_NL);
                text.push(b'\n');
            }
            Some((base, text))
        },
    ));
    // created patches against every other base
    let (k, n) = (2u64, t.pick(3, 4));
    let s = seq_count(k, n);
    let dec = move |i: u64| -> (Vec<u8>, Vec<u8>, Vec<u8>, usize) { (image(i / 2 / s / s, k, n), image(i / 2 / s % s, k, n), image(i / 2 % s, k, n + 0), [0, 1][(i % 2) as usize]) };
    v.push(space(
        format!("created patches (all pairs over {k} lines, <={n}; context 0 and 1) applied to all {s} bases"),
        s * s * s * 2,
        move |i, c| {
            let (o, m, base, ctx) = dec(i);
            c.states += 1;
            let p = diff_opts(ctx).create_patch_bytes(&o, &m);
            c09_patch::<B>(c, &base, &base, &p)?;
            let (so, sm) = (S::text(&o).unwrap(), S::text(&m).unwrap());
            let p = diff_opts(ctx).create_patch(so, sm);
            c09_patch::<S>(c, &base, S::text(&base).unwrap(), &p)
        },
        move |i| {
            let (o, m, base, ctx) = dec(i);
            format!("patch from {} to {} with context {ctx}, applied to {}", esc(&o), esc(&m), esc(&base))
        },
    ));
    // created patches with several hunks against bases whose blocks were moved, removed or doubled
    let q = 4usize;
    let seqs = seq_count(q as u64, t.pick(4, 5));
    let (lens, gaps): (&[usize], &[usize]) = (&[1, 3], &[0, 2, 9]);
    let nn = seqs * (lens.len() * gaps.len()) as u64 * 15 * 3;
    let dec = move |i: u64| -> (Vec<u8>, Vec<u8>, Vec<u8>, usize) {
        let ctx = [0, 1, 3][(i % 3) as usize];
        let mask = i / 3 % 15 + 1;
        let i = i / 45;
        let (len, gap) = (lens[(i % 2) as usize], gaps[(i / 2 % 3) as usize]);
        let mut s = Vec::new();
        seq(i / 6, q as u64, t.pick(4, 5), &mut s);
        let block = |out: &mut Vec<u8>, b: usize, new: bool| {
            for j in 0..gap {
                out.extend_from_slice(format!("g{b}.{j}\n").as_bytes());
            }
            for j in 0..len {
                out.extend_from_slice(format!("{}{b}.{j}\n", if new && j == 0 { "new" } else { "b" }).as_bytes());
            }
            for j in 0..gap {
                out.extend_from_slice(format!("h{b}.{j}\n").as_bytes());
            }
        };
        let (mut o, mut m, mut base) = (vec![], vec![], vec![]);
        for b in 0..q {
            block(&mut o, b, false);
            block(&mut m, b, mask >> b & 1 == 1);
        }
        for b in s {
            block(&mut base, b as usize, false);
        }
        (o, m, base, ctx)
    };
    v.push(space(
        format!("created patches changing any of {q} blocks, applied to all {seqs} sequences of <={} blocks, 6 sizes, context 0, 1, 3", t.pick(4, 5)),
        nn,
        move |i, c| {
            let (o, m, base, ctx) = dec(i);
            c.states += 1;
            let p = diff_opts(ctx).create_patch_bytes(&o, &m);
            c09_patch::<B>(c, &base, &base, &p)?;
            let (so, sm) = (S::text(&o).unwrap(), S::text(&m).unwrap());
            let p = diff_opts(ctx).create_patch(so, sm);
            c09_patch::<S>(c, &base, S::text(&base).unwrap(), &p)
        },
        move |i| {
            let (o, m, base, ctx) = dec(i);
            format!("patch from {} to {} with context {ctx}, applied to {}", esc(&o), esc(&m), esc(&base))
        },
    ));
    // many hunks on equal lines: each has to find the next place that is still free
    let top = t.pick(300u64, 1200);
    v.push(case_space(
        format!("1..={top} hunks with the same body (4 bodies), stated 0, 1 or 3 lines apart, on a base of as many equal lines, one less, or twice as many"),
        top * 4 * 3 * 3,
        move |i| {
            let h = i % top + 1;
            let i = i / top;
            let body: &[&[u8]] = match i % 4 {
                0 => &[b"-x\n", b"+x\n"],
                1 => &[b"-x\n"],
                2 => &[b"+y\n", b" x\n"],
                _ => &[b"-x\n", b"+x\n", b"+x\n"],
            };
            let apart = [0, 1, 3][(i / 4 % 3) as usize];
            let n = [h, h - 1, 2 * h][(i / 12) as usize];
            let mut text = Vec::new();
            for j in 0..h {
                // old line numbers as the parser wants them: in order and apart
                push_hunk(&mut text, 1 + 3 * j, 1 + apart * j, (0, 0), b"", body);
            }
            Some(("x\n".repeat(n as usize).into_bytes(), text))
        },
    ));
    // a long hunk whose lines reach into what an earlier hunk wrote
    let lens: Vec<u64> = t.pick(
        vec![1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 33, 65, 129, 257, 513, 1025],
        (1..=40).chain([63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4096]).collect(),
    );
    let nl = lens.len() as u64;
    v.push(case_space(
        format!("two hunks on equal lines, {nl} x {nl} lengths up to {}: all patched and free lines that the second could reach, 4 ways of writing, 5 places, 4 amounts of free lines", lens[lens.len() - 1]),
        nl * nl * 4 * 5 * 4,
        move |i| {
            let (a, b) = (lens[(i % nl) as usize], lens[(i / nl % nl) as usize]);
            let i = i / nl / nl;
            let way = i % 4;
            let place = i / 4 % 5;
            let free = [b - 1, b, b + 1, 2 * b][(i / 20) as usize];
            // free lines, the lines of the first hunk, as many free lines
            let first: Vec<&[u8]> = match way {
                0 => (0..=a).map(|j| if j == a { &b"+x\n"[..] } else { b" x\n" }).collect(),
                1 => (0..=a).map(|j| if j == 0 { &b"-y\n"[..] } else { b"+x\n" }).collect(),
                2 => (0..=a).map(|j| if j == a { &b"+x\n"[..] } else if j == a / 2 { b"-x\n" } else { b" x\n" }).collect(),
                _ => (0..a).flat_map(|_| [&b"-x\n"[..], b"+x\n"]).collect(),
            };
            let own = if way == 1 { b"y\n".to_vec() } else { b"x\n".repeat(a as usize) };
            let mut base = b"x\n".repeat(free as usize);
            base.extend_from_slice(&own);
            base.extend_from_slice(&b"x\n".repeat(if place % 2 == 0 { 0 } else { free as usize }));
            let second: Vec<&[u8]> = (0..b).map(|j| if j == b - 1 { &b"-x\n"[..] } else { b" x\n" }).collect();
            // line numbers must be in order, so the second is stated behind the first
            let end = free + 1 + if way == 0 { a + 1 } else { a };
            let s = [end, end, end + free / 2, end + free, end + 3 * free][place as usize];
            let mut text = Vec::new();
            push_hunk(&mut text, 1, free + 1, (0, 0), b"", &first);
            push_hunk(&mut text, 1 + 2 * a + 2, s, (0, 0), b"", &second);
            Some((base, text))
        },
    ));
    // long hunks: a run that differs from the hunk in one line only
    let sizes: Vec<usize> = t.pick(
        vec![4, 5, 8, 9, 10, 16, 17, 20, 21, 32, 33, 50, 64, 65, 100, 101, 128, 129, 200, 256, 257, 500, 512, 513, 1000, 1024, 1025, 2048, 2049, 4096, 4097, 8193, 20_000],
        (4..=40).chain([49, 50, 51, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 258, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16_385, 32_769, 65_535, 65_536, 65_537, 70_000]).collect(),
    );
    let cases: Vec<(usize, usize)> = sizes
        .iter()
        .flat_map(|n| {
            let n = *n;
            let mut at: Vec<usize> = if n <= 33 { (0..n).collect() } else { [0, 1, 2, 3, n / 4, n / 3, n / 2 - 1, n / 2, n / 2 + 1, 2 * n / 3, n - 4, n - 3, n - 2, n - 1].into() };
            if n > 1100 {
                at = vec![1, n / 2, n - 2];
            }
            for k in (2..17).map(|k| 1 << k).filter(|k| n > 33 && n <= 1100 && *k < n) {
                at.extend([k - 1, k, n - k - 1, n - k]);
            }
            at.sort();
            at.dedup();
            at.into_iter().map(move |p| (n, p))
        })
        .collect();
    let nc = cases.len() as u64;
    v.push(case_space(
        format!("hunks of {sizes:?} lines and a run of the base that differs from them in one line ({nc} choices): alone, before or behind the true run, distinct or equal lines, changed in front, behind or everywhere"),
        nc * 3 * 2 * 3,
        move |i| {
            let (n, p) = cases[(i % nc) as usize];
            let i = i / nc;
            let (where_, distinct, shape) = (i % 3, i / 3 % 2 == 0, i / 6);
            // a search takes quadratic time
            if !distinct && n > 300 || n > 2100 && (where_ != 2 || shape != 1) {
                return None;
            }
            let line = |j: usize| if distinct { format!("l{j}\n") } else { "l\n".to_string() };
            let run: Vec<String> = (0..n).map(line).collect();
            let mut bad = run.clone();
            bad[p] = "m\n".to_string();
            let base = match where_ {
                0 => bad.concat(),
                1 => [bad.concat(), "between\n".to_string(), run.concat()].concat(),
                _ => [run.concat(), "between\n".to_string(), bad.concat()].concat(),
            };
            let mut body: Vec<Vec<u8>> = Vec::new();
            for (j, l) in run.iter().enumerate() {
                let gone = match shape {
                    0 => j == 0,
                    1 => j == n - 1,
                    _ => true,
                };
                body.push(format!("{}{l}", if gone { '-' } else { ' ' }).into_bytes());
            }
            body.push(b"+new\n".to_vec());
            let stated = if where_ == 2 { n + 2 } else { 1 };
            let mut text = Vec::new();
            push_hunk(&mut text, 1, stated as u64, (0, 0), b"", &body.iter().map(|l| &l[..]).collect::<Vec<_>>());
            Some((base.into_bytes(), text))
        },
    ));
    // one of many hunks has no place, or two places
    let counts: Vec<u64> = t.pick(vec![500, 1000, 1025, 4097, 10_001], vec![500, 1000, 1025, 4097, 8193, 16_385, 20_000]);
    let nc = counts.len() as u64;
    v.push(case_space(
        format!("{counts:?} hunks, one of them (9 choices) without a place, at a tie of places, or far from its place"),
        nc * 9 * 4,
        move |i| {
            let n = counts[(i % nc) as usize];
            let bad = [0, 1, 255, 256, n / 2, n - 257, n - 3, n - 2, n - 1][(i / nc % 9) as usize];
            let kind = i / nc / 9;
            let (mut base, mut text) = (Vec::new(), Vec::new());
            for j in 0..n {
                let old = format!("{}{j}\n", if j == bad && kind == 0 { "gone" } else { "l" });
                base.extend_from_slice(format!("l{j}\n").as_bytes());
                let (x, y) = (format!("-{old}"), format!("+m{j}\n"));
                if j == bad && kind == 1 {
                    base.extend_from_slice(format!("{old}t\n{old}").as_bytes());
                }
                // shifted by the lines of the tie
                let mut s = j + 1 + if kind == 1 && j > bad { 3 } else { 0 };
                if j == bad {
                    s = [s, s + 1, 1, n + 5][kind as usize];
                }
                push_hunk(&mut text, 3 * j + 1, s, (0, 0), b"", &[x.as_bytes(), y.as_bytes()]);
            }
            Some((base, text))
        },
    ));
    // large bases
    let sizes = around_powers(1, t.pick(11, 14));
    let n = sizes.len() as u64;
    v.push(case_space(
        format!("{n} base sizes around powers of two x 7 stated line numbers x 4 true places x 3 shapes"),
        n * 7 * 4 * 3,
        move |i| {
            let l = sizes[(i % n) as usize];
            let i = i / n;
            let place = [0, l / 2, l.saturating_sub(2), l][(i % 4) as usize];
            let i = i / 4;
            let s = [0usize, 1, l / 2 + 1, l, l + 1, 2 * l + 5, usize::MAX / 3][(i % 7) as usize] as u64;
            let shape = i / 7;
            let mut base = Vec::new();
            for j in 0..l {
                if j == place {
                    base.extend_from_slice(b"x\ny\n");
                }
                base.extend_from_slice(b"filler\n");
            }
            if place == l {
                base.extend_from_slice(b"x\ny\n");
            }
            let body: &[&[u8]] = match shape {
                0 => &[b" x\n", b"-y\n", b"+z\n"],
                1 => &[b" filler\n", b"+z\n", b" x\n", b" y\n"],
                _ => &[b"-filler\n", b"-filler\n"],
            };
            let mut text = Vec::new();
            push_hunk(&mut text, 1, s, (0, 0), b"", body);
            Some((base, text))
        },
    ));
    v
}

// ------------------------------------------------------------------------------------------------
// C10

const DRIFTS: u64 = 8;

/// A region outside the hunks after drift number d.  `None`: not applicable.
fn drift(lines: &[&[u8]], d: u64, tag: &str) -> Option<Vec<u8>> {
    let fresh = |n: usize| (0..n).flat_map(|j| format!("drift {tag} {j}\n").into_bytes()).collect::<Vec<u8>>();
    let cat = |l: &[&[u8]]| l.concat();
    Some(match d {
        0 => cat(lines),
        1 => [fresh(1), cat(lines)].concat(),
        2 => [cat(lines), fresh(1)].concat(),
        3 => [fresh(7), cat(lines)].concat(),
        4 => {
            let h = lines.len() / 2;
            [cat(&lines[..h]), fresh(2), cat(&lines[h..])].concat()
        }
        5 if !lines.is_empty() => vec![],
        6 if lines.len() > 1 => cat(&lines[1..]),
        7 if lines.len() > 1 => [fresh(40), cat(&lines[..lines.len() - 1])].concat(),
        _ => return None,
    })
}

fn c10_case<A: Api>(c: &mut Ctx, p: &Pair, ctx: usize, max_regions: usize) -> Res {
    let (Some(o), Some(m)) = (A::text(&p.o), A::text(&p.m)) else { return Ok(()) };
    let patch = A::create(&diff_opts(ctx), o, m);
    let v = view(&patch);
    let (ol, ml) = (split_lines(&p.o), split_lines(&p.m));
    if crate::props::diff::unfaithful(&ol, &ml, &v).is_some() || v.hunks.is_empty() {
        return Ok(());
    }
    // regions outside the hunks
    let mut regions: Vec<Vec<&[u8]>> = Vec::new();
    let mut at = 0;
    for h in &v.hunks {
        regions.push(ol[at..h.old_pos().unwrap()].to_vec());
        at = h.old_pos().unwrap() + h.ol;
    }
    regions.push(ol[at..].to_vec());
    if regions.len() > max_regions || v.hunks.iter().any(|h| h.ol == 0) {
        c.cat("not applicable (too many regions, or a hunk without old lines)");
        return Ok(());
    }
    let n = DRIFTS.pow(regions.len() as u32);
    'next: for mut i in 0..n {
        let (mut base, mut want) = (Vec::new(), Vec::new());
        for (k, r) in regions.iter().enumerate() {
            let d = i % DRIFTS;
            i /= DRIFTS;
            let Some(x) = drift(r, d, &k.to_string()) else { continue 'next };
            base.extend_from_slice(&x);
            want.extend_from_slice(&x);
            if let Some(h) = v.hunks.get(k) {
                for (s, l) in &h.lines {
                    if *s != b'+' {
                        base.extend_from_slice(l);
                    }
                    if *s != b'-' {
                        want.extend_from_slice(l);
                    }
                }
            }
        }
        // each hunk's lines occur exactly once
        let bl = split_lines(&base);
        for h in &v.hunks {
            let pre: Vec<&[u8]> = h.lines.iter().filter(|l| l.0 != b'+').map(|l| l.1).collect();
            if bl.windows(pre.len()).filter(|w| **w == pre[..]).count() != 1 {
                c.cat("ambiguous base (not compared)");
                continue 'next;
            }
        }
        c.states += 1;
        c.traces += 1;
        c.step(1);
        let Some(bt) = A::text(&base) else { continue };
        match A::apply(bt, &patch) {
            Ok(r) => ensure!(r == want, "{} context {ctx}: drifted base {} gives {}, expected {}", A::NAME, esc(&base), esc(&r), esc(&want)),
            Err(e) => fail!("{} context {ctx}: drifted base {}: {e}", A::NAME, esc(&base)),
        }
        c.outcome(&base.len());
        if v.hunks.len() > 1 {
            c.cat("several hunks, each with its own displacement");
        } else {
            c.cat("one hunk displaced");
        }
    }
    Ok(())
}

fn c10_pair(c: &mut Ctx, p: &Pair, ctxs: &[usize]) -> Res {
    for &n in ctxs {
        c10_case::<B>(c, p, n, 4)?;
        c10_case::<S>(c, p, n, 4)?;
    }
    Ok(())
}

pub fn c10(t: Tier) -> Vec<Box<dyn Space>> {
    let x = |g: Box<dyn PairGen>, ctxs: Vec<usize>| Box::new(PairSpace { gen: g, ctxs, check: c10_pair }) as Box<dyn Space>;
    let mut v = Vec::new();
    v.push(x(Dense::new(3, t.pick(3, 4), true), vec![0, 1, 3]));
    for (l, dev, ops) in [(2, 2, DEV_OPS), (5, 2, DEV_OPS), (9, 2, DEV_OPS), (9, t.pick(2, 3), 2), (12, 3, 2), (20, 2, 3), (30, 2, 3)] {
        v.push(x(Box::new(Dev { l, period: 0, fresh: true, dev, eof: l <= 5, ops }), vec![0, 1, 2, 3]));
    }
    v.push(x(Box::new(Dev { l: 7, period: 2, fresh: true, dev: 2, eof: false, ops: DEV_OPS }), vec![1, 2, 3]));
    // many hunks: cumulative displacement k per gap
    let last = t.pick(40u64, 120);
    let many: Vec<u64> = (1..=last).chain([127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 600, 1000, 1024, 1025]).collect();
    let top = many.len() as u64;
    let dec = move |i: u64| (many[(i % top) as usize], (i / top % 9) as i64 - 4, [1usize, 3][(i / top / 9 % 2) as usize]);
    let d1 = dec.clone();
    let build = |hunks: u64, step: i64| -> (Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>) {
        let (mut o, mut m, mut base, mut want) = (vec![], vec![], vec![], vec![]);
        let fill = |v: &mut Vec<u8>, h: u64, j: u64| v.extend_from_slice(format!("fill {h}.{j}\n").as_bytes());
        for h in 0..hunks {
            for j in 0..12 {
                fill(&mut o, h, j);
                fill(&mut m, h, j);
                // drift in the middle of the gap, away from any context
                if j == 6 && step > 0 {
                    for s in 0..step {
                        fill(&mut base, h, 100 + s as u64);
                        fill(&mut want, h, 100 + s as u64);
                    }
                }
                if step < 0 && (4..4 + (-step) as u64).contains(&j) {
                    continue;
                }
                fill(&mut base, h, j);
                fill(&mut want, h, j);
            }
            for v in [&mut o, &mut base] {
                v.extend_from_slice(format!("old {h}\n").as_bytes());
            }
            for v in [&mut m, &mut want] {
                v.extend_from_slice(format!("new {h}\n").as_bytes());
                if h % 3 == 0 {
                    v.extend_from_slice(format!("more {h}\n").as_bytes());
                }
            }
        }
        (o, m, base, want)
    };
    v.push(space(
        format!("1..={last} hunks and a ladder up to 1025, the base drifting by -4..=4 lines before every one of them"),
        top * 9 * 2,
        move |i, c| {
            let (h, step, ctx) = dec(i);
            let (o, m, base, want) = build(h, step);
            c.states += 1;
            c.traces += 1;
            c.step(2);
            c.outcome(&want);
            let p = diff_opts(ctx).create_patch_bytes(&o, &m);
            match diffy::apply_bytes(&base, &p) {
                Ok(r) => ensure!(r == want, "bytes: drifted base gives a wrong text"),
                Err(e) => fail!("bytes: {e}"),
            }
            let (o, m) = (S::text(&o).unwrap(), S::text(&m).unwrap());
            match S::apply(S::text(&base).unwrap(), &diff_opts(ctx).create_patch(o, m)) {
                Ok(r) => ensure!(r == want, "str: drifted base gives a wrong text"),
                Err(e) => fail!("str: {e}"),
            }
            Ok(())
        },
        move |i| format!("(hunks, drift per hunk, context) = {:?}", d1(i)),
    ));
    // how far: added or removed lines around powers of two, before the first, between, after
    let sizes: Vec<usize> = around_powers(1, t.pick(13, 16)).into_iter().chain([10, 20, 50, 99, 100, 101, 500, 999, 1000, 1001, 2000, 5000, 9999, 10000, 10001, 65535, 65536, 65537, 100_000]).collect();
    let ns = sizes.len() as u64;
    let dec = move |i: u64| (sizes[(i % ns) as usize], i / ns % 6, [0usize, 3][(i / ns / 6 % 2) as usize], (i / ns / 12) as usize + 1);
    let d2 = dec.clone();
    v.push(space(
        format!("{ns} sizes of added or removed regions (around powers of two and of ten, up to 100000 lines) before, between and after 1..=3 hunks"),
        ns * 6 * 2 * 3,
        move |i, c| {
            let (size, place, ctx, hunks) = dec(i);
            let (mut o, mut m, mut base, mut want) = (vec![], vec![], vec![], vec![]);
            let all = |t: [&mut Vec<u8>; 4], mask: u8, l: String| {
                for (k, v) in t.into_iter().enumerate() {
                    if mask >> k & 1 == 1 {
                        v.extend_from_slice(l.as_bytes());
                    }
                }
            };
            // the region exists in the patch's texts (removed from the base), or in the base only
            let region = |o: &mut Vec<u8>, m: &mut Vec<u8>, b: &mut Vec<u8>, w: &mut Vec<u8>, here: u64| {
                let mask = match (place % 3 == here, place < 3) {
                    (false, _) => return,
                    (true, true) => 0b1100,
                    (true, false) => 0b0011,
                };
                for j in 0..size {
                    all([o, m, b, w], mask, format!("region {j}\n"));
                }
            };
            let pad = |o: &mut Vec<u8>, m: &mut Vec<u8>, b: &mut Vec<u8>, w: &mut Vec<u8>, s: &str| {
                for j in 0..5 {
                    all([o, m, b, w], 15, format!("{s} {j}\n"));
                }
            };
            for h in 0..hunks {
                pad(&mut o, &mut m, &mut base, &mut want, &format!("before {h}"));
                if h == 0 {
                    region(&mut o, &mut m, &mut base, &mut want, 0);
                } else if h == 1 {
                    region(&mut o, &mut m, &mut base, &mut want, 1);
                }
                pad(&mut o, &mut m, &mut base, &mut want, &format!("above {h}"));
                all([&mut o, &mut m, &mut base, &mut want], 0b0101, format!("old {h}\n"));
                all([&mut o, &mut m, &mut base, &mut want], 0b1010, format!("new {h}\n"));
                pad(&mut o, &mut m, &mut base, &mut want, &format!("below {h}"));
            }
            region(&mut o, &mut m, &mut base, &mut want, 2);
            c.states += 1;
            c.traces += 1;
            c.step(2);
            c.outcome(&want.len());
            let p = diff_opts(ctx).create_patch_bytes(&o, &m);
            match diffy::apply_bytes(&base, &p) {
                Ok(r) => ensure!(r == want, "bytes: drifted base gives a wrong text"),
                Err(e) => fail!("bytes: {e}"),
            }
            let (o, m) = (S::text(&o).unwrap(), S::text(&m).unwrap());
            match S::apply(S::text(&base).unwrap(), &diff_opts(ctx).create_patch(o, m)) {
                Ok(r) => ensure!(r == want, "str: drifted base gives a wrong text"),
                Err(e) => fail!("str: {e}"),
            }
            Ok(())
        },
        move |i| {
            let (size, place, ctx, hunks) = d2(i);
            format!("{size} lines {} {} of {hunks} hunks, context {ctx}", if place < 3 { "added" } else { "removed" }, ["before the first", "before the second", "after the last"][(place % 3) as usize])
        },
    ));
    v
}

// ------------------------------------------------------------------------------------------------
// C21: histories

#[derive(Clone, Copy, Debug)]
enum Kept {
    Object,
    Text,
    Bytes,
}

/// All walks of `depth` steps over the versions, one patch per unordered pair, used in both
/// directions.
fn walks<A: Api>(c: &mut Ctx, vs: &[Vec<u8>], ctx: usize, kept: Kept, depth: u32) -> Res {
    let texts: Vec<&A::T> = match vs.iter().map(|v| A::text(v)).collect::<Option<Vec<_>>>() {
        Some(t) => t,
        None => return Ok(()),
    };
    let n = vs.len();
    let o = diff_opts(ctx);
    let mut stored: Vec<Vec<u8>> = Vec::new();
    let mut objects = Vec::new();
    for i in 0..n {
        for j in i + 1..n {
            let p = A::create(&o, texts[i], texts[j]);
            stored.push(match kept {
                Kept::Object => vec![],
                Kept::Text => A::show(&p),
                Kept::Bytes => p.to_bytes(),
            });
            objects.push(p);
        }
    }
    let before: Vec<MPatch<'_>> = objects.iter().map(view).collect();
    let slot = |i: usize, j: usize| -> usize {
        let mut k = 0;
        for a in 0..n {
            for b in a + 1..n {
                if (a, b) == (i, j) {
                    return k;
                }
                k += 1;
            }
        }
        unreachable!()
    };
    for start in 0..n {
        // depth-first over all walks
        let total = (n as u64 - 1).pow(depth);
        for mut w in 0..total {
            let mut at = start;
            let mut cur: Vec<u8> = vs[start].clone();
            let mut path = vec![start];
            for _ in 0..depth {
                let step = (w % (n as u64 - 1)) as usize;
                w /= n as u64 - 1;
                let to = if step >= at { step + 1 } else { step };
                path.push(to);
                let (lo, hi) = (at.min(to), at.max(to));
                let k = slot(lo, hi);
                let base = A::text(&cur).unwrap();
                c.step(1);
                let r = match kept {
                    Kept::Object => {
                        if to == hi {
                            A::apply(base, &objects[k])
                        } else {
                            A::apply(base, &objects[k].reverse())
                        }
                    }
                    _ => {
                        let Some(t) = A::text(&stored[k]) else { fail!("{}: stored patch is not valid UTF-8", A::NAME) };
                        let p = match A::parse(t) {
                            Ok(p) => p,
                            Err(e) => fail!("{} context {ctx} {kept:?}: stored patch {} does not parse: {e}", A::NAME, esc(&stored[k])),
                        };
                        if to == hi {
                            A::apply(base, &p)
                        } else {
                            A::apply(base, &p.reverse())
                        }
                    }
                };
                match r {
                    Ok(x) => {
                        ensure!(x == vs[to], "{} context {ctx} {kept:?}: walk {path:?} arrives at {} instead of {}", A::NAME, esc(&x), esc(&vs[to]));
                        cur = x;
                    }
                    Err(e) => fail!("{} context {ctx} {kept:?}: walk {path:?}: {e}", A::NAME),
                }
                at = to;
            }
            c.traces += 1;
        }
    }
    for (p, b) in objects.iter().zip(&before) {
        ensure!(view(p) == *b, "{}: using a patch changed it", A::NAME);
    }
    c.states += (n * n) as u64;
    c.outcome(&before);
    Ok(())
}

pub fn c21(t: Tier) -> Vec<Box<dyn Space>> {
    let mut v: Vec<Box<dyn Space>> = Vec::new();
    let mk = |name: String, len: u64, depth: u32, f: Arc<dyn Fn(u64) -> Option<Vec<Vec<u8>>> + Sync + Send>| {
        let g = f.clone();
        space(
            name,
            len,
            move |i, c| {
                let Some(vs) = f(i) else {
                    c.skipped += 1;
                    return Ok(());
                };
                c.sample(|| vs.iter().map(|v| esc(v)).collect::<Vec<_>>().join(" / "));
                for ctx in [0, 1, 3] {
                    for kept in [Kept::Object, Kept::Text, Kept::Bytes] {
                        walks::<B>(c, &vs, ctx, kept, depth)?;
                        walks::<S>(c, &vs, ctx, kept, depth)?;
                    }
                }
                Ok(())
            },
            move |i| g(i).map(|vs| vs.iter().map(|v| esc(v)).collect::<Vec<_>>().join(" / ")).unwrap_or_default(),
        )
    };
    let n = 3;
    let s = seq_count(2, n) * 2;
    let ver = move |i: u64| -> Option<Vec<u8>> {
        let mut b = image(i / 2, 2, n);
        if i % 2 == 1 && !cut_eof(&mut b) {
            return None;
        }
        Some(b)
    };
    v.push(mk(
        format!("all histories of 3 versions over 2 lines (<={n}, with/without final newline), all walks of {} steps", t.pick(3, 4)),
        s * s * s,
        t.pick(3, 4),
        Arc::new(move |i| Some(vec![ver(i / s / s)?, ver(i / s % s)?, ver(i % s)?])),
    ));
    // version k+1 is version k with one edit, out of all single edits
    for (l, period, depth) in [(6usize, 0usize, 3u32), (12, 0, 3), (5, 2, 3)] {
        let ops = 5u64;
        let e = (l as u64 + 1) * ops;
        let q = t.pick(2u32, 3);
        v.push(mk(
            format!("all histories of {} versions, each one edit away from a base of {l} lines (period {period}), all walks of {depth} steps", q + 1),
            e.pow(q),
            depth,
            Arc::new(move |i| {
                let mut vs = Vec::new();
                let mut b = Vec::new();
                dev_base(l, period, &mut b);
                vs.push(b);
                let mut i = i;
                let mut edits: Vec<(usize, u8)> = Vec::new();
                for k in 0..q {
                    let x = i % e;
                    i /= e;
                    let (pos, op) = ((x / ops) as usize, (x % ops) as u8);
                    if pos == l && !matches!(op, 2 | 4) || edits.iter().any(|y| y.0 == pos) {
                        return None;
                    }
                    edits.push((pos, op));
                    edits.sort();
                    let mut b = Vec::new();
                    dev_apply(l, period, true, &format!("v{k}."), &edits, &mut b);
                    vs.push(b);
                }
                Some(vs)
            }),
        ));
    }
    // blocks of many lines
    for w in BLOCKS {
        let words = Arc::new(blocks(&[w, w]));
        let nv = if w > 100 { 2 } else { t.pick(2, 3) };
        let s = seq_count(2, nv);
        v.push(mk(
            format!("3 versions over 2 blocks of {w} lines (<={nv} blocks), all walks of 2 steps"),
            s * s * s,
            2,
            Arc::new(move |i| {
                let mut q = Vec::new();
                Some(
                    [i / s / s, i / s % s, i % s]
                        .iter()
                        .map(|x| {
                            let mut out = Vec::new();
                            seq(*x, 2, nv, &mut q);
                            text(&q, &words, &mut out);
                            out
                        })
                        .collect(),
                )
            }),
        ));
    }
    // size ladder: the two texts and a third that has only the second half changed
    let big: Arc<Vec<Big>> = Arc::new(big_cases(t.pick(8, 10)));
    v.push(mk(
        format!("3 versions from the size ladder up to 2^{}, all walks of 2 steps", t.pick(8, 10)),
        big.len() as u64,
        2,
        Arc::new(move |i| {
            let mut p = Pair::default();
            if !big_pair(big[i as usize], &mut p) {
                return None;
            }
            let (ol, ml) = (split_lines(&p.o), split_lines(&p.m));
            let third = [&ol[..ol.len() / 2], &ml[ml.len() / 2..]].concat().concat();
            Some(vec![p.o.clone(), third, p.m.clone()])
        }),
    ));
    // special lines
    let pool = Arc::new(special_lines(false));
    let n = pool.len() as u64;
    v.push(mk(
        format!("3 versions built from pairs of {n} special lines, all walks of 2 steps"),
        n * n * 2,
        2,
        Arc::new(move |i| {
            let (x, y) = (&pool[(i / 2 % n) as usize], &pool[(i / 2 / n) as usize]);
            let mut last = [&y[..], x].concat();
            if i % 2 == 1 && !cut_eof(&mut last) {
                return None;
            }
            Some(vec![x.clone(), [&x[..], y].concat(), last])
        }),
    ));
    let _ = model::DEFAULT_RENDER;
    v
}
