//! C01, C03, C04, C05, C06: creating patches.

use crate::api::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::{self, *};
use crate::{ensure, fail};

/// Runs a generic check on both API variants.
macro_rules! both {
    ($name:ident, $inner:ident) => {
        pub fn $name(c: &mut Ctx, p: &Pair, ctxs: &[usize]) -> Res {
            $inner::<B>(c, p, ctxs)?;
            $inner::<S>(c, p, ctxs)
        }
    };
}

// ------------------------------------------------------------------------------------------------

fn c01_inner<A: Api>(c: &mut Ctx, p: &Pair, ctxs: &[usize]) -> Res {
    let (Some(o), Some(m)) = (A::text(&p.o), A::text(&p.m)) else { return Ok(()) };
    for &n in ctxs {
        let patch = A::create(&diff_opts(n), o, m);
        c.step(2);
        c.traces += 1;
        match A::apply(o, &patch) {
            Ok(r) => ensure!(r == p.m, "{} context {n}: applying the created patch gives {} instead of the modified text", A::NAME, esc(&r)),
            Err(e) => fail!("{} context {n}: applying the created patch fails: {e}", A::NAME),
        }
        c.outcome(&patch.hunks().iter().map(|h| (h.old_range().start(), h.old_range().len(), h.new_range().start(), h.new_range().len())).collect::<Vec<_>>());
        c.cat(match patch.hunks().len() {
            0 => "patches without hunks",
            1 => "patches with 1 hunk",
            2 => "patches with 2 hunks",
            _ => "patches with 3 or more hunks",
        });
    }
    Ok(())
}
both!(c01_pair, c01_inner);

fn c01_default(c: &mut Ctx, p: &Pair, ctxs: &[usize]) -> Res {
    c01_pair(c, p, ctxs)?;
    // the plain functions
    let b = diffy::create_patch_bytes(&p.o, &p.m);
    match diffy::apply_bytes(&p.o, &b) {
        Ok(r) => ensure!(r == p.m, "create_patch_bytes + apply_bytes gives {}", esc(&r)),
        Err(e) => fail!("create_patch_bytes + apply_bytes: {e}"),
    }
    c.step(1);
    if let (Some(o), Some(m)) = (S::text(&p.o), S::text(&p.m)) {
        let s = diffy::create_patch(o, m);
        match diffy::apply(o, &s) {
            Ok(r) => ensure!(r == m, "create_patch + apply gives {}", esc(r.as_bytes())),
            Err(e) => fail!("create_patch + apply: {e}"),
        }
        c.step(1);
    }
    Ok(())
}

pub fn c01(t: Tier) -> Vec<Box<dyn Space>> {
    pair_spaces(t, 1, c01_default)
}

// ------------------------------------------------------------------------------------------------

fn c03_inner<A: Api>(c: &mut Ctx, p: &Pair, ctxs: &[usize]) -> Res {
    let (Some(o), Some(m)) = (A::text(&p.o), A::text(&p.m)) else { return Ok(()) };
    for &n in ctxs {
        let patch = A::create(&diff_opts(n), o, m);
        let rev = patch.reverse();
        c.traces += 1;
        c.step(5);
        let (v, r) = (view(&patch), view(&rev));
        ensure!(model::reverse(&v) == r, "{} context {n}: the reverse is {r:?}, expected {:?}", A::NAME, model::reverse(&v));
        ensure!(rev.reverse() == patch, "{} context {n}: reversing twice changes the patch", A::NAME);
        for (h, w) in patch.hunks().iter().zip(rev.hunks()) {
            ensure!(h.reverse() == *w && w.reverse() == *h, "{} context {n}: Hunk::reverse differs from Patch::reverse", A::NAME);
        }
        match A::apply(m, &rev) {
            Ok(x) => ensure!(x == p.o, "{} context {n}: applying the reverse gives {}", A::NAME, esc(&x)),
            Err(e) => fail!("{} context {n}: applying the reverse fails: {e}", A::NAME),
        }
        let text = A::show(&rev);
        let Some(tt) = A::text(&text) else { fail!("{} context {n}: formatted reverse is not valid UTF-8", A::NAME) };
        match A::parse(tt) {
            Err(e) => fail!("{} context {n}: formatted reverse {} does not parse: {e}", A::NAME, esc(&text)),
            Ok(q) => match A::apply(m, &q) {
                Ok(x) => ensure!(x == p.o, "{} context {n}: applying the formatted and parsed reverse gives {}", A::NAME, esc(&x)),
                Err(e) => fail!("{} context {n}: applying the formatted and parsed reverse fails: {e}", A::NAME),
            },
        }
        // the reverse of a parsed patch
        let text = A::show(&patch);
        if let Some(Ok(q)) = A::text(&text).map(A::parse) {
            match A::apply(m, &q.reverse()) {
                Ok(x) => ensure!(x == p.o, "{} context {n}: applying the reverse of the parsed patch gives {}", A::NAME, esc(&x)),
                Err(e) => fail!("{} context {n}: applying the reverse of the parsed patch fails: {e}", A::NAME),
            }
        }
        c.outcome(&r.hunks.iter().map(|h| (h.os, h.ol, h.ns, h.nl)).collect::<Vec<_>>());
    }
    Ok(())
}
both!(c03_pair, c03_inner);

/// The reverse of a patch read from text.
fn c03_parsed<A: Api>(c: &mut Ctx, p: &diffy::Patch<'_, A::T>) -> Res {
    let v = view(p);
    let rev = p.reverse();
    let (want, got) = (model::reverse(&v), view(&rev));
    c.step(4);
    c.traces += 1;
    c.outcome(&got);
    ensure!(want == got, "{}: the reverse is {got:?}, expected {want:?}", A::NAME);
    ensure!(rev.reverse() == *p, "{}: reversing twice changes the patch", A::NAME);
    for (h, w) in p.hunks().iter().zip(rev.hunks()) {
        ensure!(h.reverse() == *w && w.reverse() == *h, "{}: Hunk::reverse differs from Patch::reverse", A::NAME);
        for (x, y) in h.lines().iter().zip(w.lines()) {
            ensure!(x.reverse() == *y, "{}: Line::reverse differs from Hunk::reverse", A::NAME);
        }
    }
    // the base the patch describes, and what it makes of it (applying costs hunks x lines)
    if v.hunks.len() > 5000 {
        return Ok(());
    }
    let (mut base, mut next) = (Vec::new(), Vec::new());
    let (mut filler, mut ob, mut nb) = (0, 0, 0);
    for h in &v.hunks {
        let (Some(o), Some(n)) = (h.old_pos(), h.new_pos()) else { return Ok(()) };
        // only patches whose hunks all lie where they say
        if o < ob || o - ob > 50 || n < nb || o - ob != n - nb || (ob > 0 && !base.ends_with(b"\n")) {
            return Ok(());
        }
        for _ in ob..o {
            let l = format!("filler {filler}\n");
            filler += 1;
            base.extend_from_slice(l.as_bytes());
            next.extend_from_slice(l.as_bytes());
        }
        nb += o - ob + h.nl;
        ob = o + h.ol;
        for (s, l) in &h.lines {
            if *s != b'+' {
                base.extend_from_slice(l);
            }
            if *s != b'-' {
                next.extend_from_slice(l);
            }
        }
        // an unterminated line in the middle is not a text
        let t: Vec<&[u8]> = h.lines.iter().filter(|l| l.0 != b'+').map(|l| l.1).collect();
        let u: Vec<&[u8]> = h.lines.iter().filter(|l| l.0 != b'-').map(|l| l.1).collect();
        if [t, u].iter().any(|x| x.iter().rev().skip(1).any(|l| !l.ends_with(b"\n")) || x.iter().any(|l| l.is_empty())) {
            return Ok(());
        }
    }
    let (Some(b), Some(n)) = (A::text(&base), A::text(&next)) else { return Ok(()) };
    c.step(2);
    match A::apply(b, p) {
        Ok(r) => ensure!(r == next, "{}: applied to {} the patch gives {}, expected {}", A::NAME, esc(&base), esc(&r), esc(&next)),
        Err(e) => fail!("{}: the patch does not apply to {}: {e}", A::NAME, esc(&base)),
    }
    match A::apply(n, &rev) {
        Ok(r) => ensure!(r == base, "{}: applied to {} the reverse gives {}, expected {}", A::NAME, esc(&next), esc(&r), esc(&base)),
        Err(e) => fail!("{}: the reverse does not apply to {}: {e}", A::NAME, esc(&next)),
    }
    c.cat("parsed patch applied forwards and backwards");
    Ok(())
}

fn c03_text(c: &mut Ctx, t: &[u8]) -> Res {
    if !matches!(ref_parse(t), Verdict::Accept(_)) {
        c.skipped += 1;
        return Ok(());
    }
    c.states += 1;
    if let Ok(p) = B::parse(t) {
        c03_parsed::<B>(c, &p)?;
    }
    if let Some(Ok(p)) = S::text(t).map(S::parse) {
        c03_parsed::<S>(c, &p)?;
    }
    Ok(())
}

pub fn c03(t: Tier) -> Vec<Box<dyn Space>> {
    let mut v = crate::props::tokens::text_spaces(crate::props::tokens::text_gens(t), c03_text);
    v.extend(pair_spaces(t, 0, c03_pair));
    v
}

// ------------------------------------------------------------------------------------------------

/// The hunks describe the two texts; None if they do.
pub fn unfaithful(o: &[&[u8]], m: &[&[u8]], v: &MPatch<'_>) -> Option<String> {
    let (mut eo, mut en) = (0, 0); // ends of the previous hunk
    for (k, h) in v.hunks.iter().enumerate() {
        let k = k + 1;
        if h.lines.iter().all(|l| l.0 == b' ') {
            return Some(format!("hunk {k} contains no change"));
        }
        if h.old_count() != h.ol || h.new_count() != h.nl {
            return Some(format!("hunk {k}: line counts {}/{} do not match the ranges {}/{}", h.old_count(), h.new_count(), h.ol, h.nl));
        }
        let (Some(op), Some(np)) = (h.old_pos(), h.new_pos()) else { return Some(format!("hunk {k}: nonempty range starts at line 0")) };
        if op < eo || np < en {
            return Some(format!("hunk {k} overlaps the previous one or is out of order"));
        }
        if op + h.ol > o.len() || np + h.nl > m.len() {
            return Some(format!("hunk {k} lies outside the texts"));
        }
        if o[eo..op] != m[en..np] {
            return Some(format!("the text before hunk {k} and after the previous one differs"));
        }
        if !h.lines.iter().filter(|l| l.0 != b'+').map(|l| l.1).eq(o[op..op + h.ol].iter().copied()) {
            return Some(format!("hunk {k}: context+deleted lines are not the original's lines at {op}"));
        }
        if !h.lines.iter().filter(|l| l.0 != b'-').map(|l| l.1).eq(m[np..np + h.nl].iter().copied()) {
            return Some(format!("hunk {k}: context+inserted lines are not the modified text's lines at {np}"));
        }
        eo = op + h.ol;
        en = np + h.nl;
    }
    if o[eo..] != m[en..] {
        return Some("the text after the last hunk differs".into());
    }
    None
}

fn c04_inner<A: Api>(c: &mut Ctx, p: &Pair, ctxs: &[usize]) -> Res {
    let (Some(o), Some(m)) = (A::text(&p.o), A::text(&p.m)) else { return Ok(()) };
    let (ol, ml) = (split_lines(&p.o), split_lines(&p.m));
    for &n in ctxs {
        let patch = A::create(&diff_opts(n), o, m);
        let v = view(&patch);
        c.traces += 1;
        c.step(3);
        if let Some(e) = unfaithful(&ol, &ml, &v) {
            fail!("{} context {n}: {e}; hunks {:?}", A::NAME, v.hunks);
        }
        ensure!(p.o != p.m || v.hunks.is_empty(), "{} context {n}: identical texts give hunks", A::NAME);
        for text in [A::show(&patch), write_into(&formatter(Fmt { color: false, message: true, suppress: false }), &patch)] {
            match strict_apply_text(&p.o, &text) {
                Some(r) => ensure!(r == p.m, "{} context {n}: a strict reader of {} gets {}", A::NAME, esc(&text), esc(&r)),
                None => fail!("{} context {n}: a strict reader cannot follow {}", A::NAME, esc(&text)),
            }
        }
        c.outcome(&v.hunks);
    }
    Ok(())
}
both!(c04_pair, c04_inner);

pub fn c04(t: Tier) -> Vec<Box<dyn Space>> {
    pair_spaces(t, 0, c04_pair)
}

// ------------------------------------------------------------------------------------------------

/// Longest common subsequence after cutting common ends (which keeps the length).
fn lcs_cut(a: &[&[u8]], b: &[&[u8]]) -> usize {
    let pre = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let (a, b) = (&a[pre..], &b[pre..]);
    let suf = a.iter().rev().zip(b.iter().rev()).take_while(|(x, y)| x == y).count();
    pre + suf + lcs_len(&a[..a.len() - suf], &b[..b.len() - suf])
}

fn c05_inner<A: Api>(c: &mut Ctx, p: &Pair, ctxs: &[usize], want: usize) -> Res {
    let (Some(o), Some(m)) = (A::text(&p.o), A::text(&p.m)) else { return Ok(()) };
    for &n in ctxs {
        let patch = A::create(&diff_opts(n), o, m);
        c.step(1);
        c.traces += 1;
        let got: usize = patch.hunks().iter().map(|h| h.lines().iter().filter(|l| !matches!(l, diffy::Line::Context(_))).count()).sum();
        ensure!(got == want, "{} context {n}: {got} deleted+inserted lines, the minimum is {want}", A::NAME);
    }
    Ok(())
}

fn c05_pair(c: &mut Ctx, p: &Pair, ctxs: &[usize]) -> Res {
    let (ol, ml) = (split_lines(&p.o), split_lines(&p.m));
    let want = ol.len() + ml.len() - 2 * lcs_cut(&ol, &ml);
    c.outcome(&(ol.len(), ml.len(), want));
    c.cat(match want {
        0 => "edit distance 0",
        1..=2 => "edit distance 1-2",
        3..=5 => "edit distance 3-5",
        6..=10 => "edit distance 6-10",
        _ => "edit distance > 10",
    });
    c05_inner::<B>(c, p, ctxs, want)?;
    c05_inner::<S>(c, p, ctxs, want)
}

pub fn c05(t: Tier) -> Vec<Box<dyn Space>> {
    let mut v = pair_spaces(t, 1, c05_pair);
    // minimality is about long, repetitive searches: go deeper on the alphabet sizes that matter
    let x = |g: Box<dyn PairGen>| Box::new(PairSpace { gen: g, ctxs: vec![3], check: c05_pair }) as Box<dyn Space>;
    v.push(x(Dense::new(2, t.pick(10, 12), false)));
    v.push(x(Dense::new(3, t.pick(7, 8), false)));
    v
}

// ------------------------------------------------------------------------------------------------

fn c06_inner<A: Api>(c: &mut Ctx, p: &Pair, ctxs: &[usize]) -> Res {
    let (Some(o), Some(m)) = (A::text(&p.o), A::text(&p.m)) else { return Ok(()) };
    let ol = split_lines(&p.o);
    for &n in ctxs {
        let patch = A::create(&diff_opts(n), o, m);
        let v = view(&patch);
        c.step(1);
        c.traces += 1;
        // overlapping or misplaced hunks are judged too, by what they say
        let mut prev_end: Option<usize> = None; // end (old side) of the last change of the previous hunk
        for (k, h) in v.hunks.iter().enumerate() {
            let k = k + 1;
            let lead = h.lines.iter().take_while(|l| l.0 == b' ').count();
            let trail = h.lines.iter().rev().take_while(|l| l.0 == b' ').count();
            ensure!(lead < h.lines.len(), "{} context {n}: hunk {k} changes nothing; hunks {:?}", A::NAME, v.hunks);
            let first = h.old_pos().unwrap_or(0) + lead;
            let last = h.old_pos().unwrap_or(0) + h.ol.saturating_sub(trail);
            ensure!(lead == n.min(first), "{} context {n}: hunk {k} starts with {lead} context lines, expected {}; hunks {:?}", A::NAME, n.min(first), v.hunks);
            let avail = ol.len().saturating_sub(last);
            ensure!(trail == n.min(avail), "{} context {n}: hunk {k} ends with {trail} context lines, expected {}; hunks {:?}", A::NAME, n.min(avail), v.hunks);
            if let Some(e) = prev_end {
                let gap = first.saturating_sub(e);
                ensure!(gap >= n.saturating_mul(2), "{} context {n}: changes {gap} lines apart are in different hunks {} and {k}; hunks {:?}", A::NAME, k - 1, v.hunks);
                c.cat("neighbouring hunks");
            }
            // runs of context between changes of one hunk
            let body = &h.lines[lead..h.lines.len() - trail];
            let mut run = 0;
            for l in body {
                if l.0 == b' ' {
                    run += 1;
                } else {
                    ensure!(run <= n.saturating_mul(2), "{} context {n}: changes {run} lines apart are in the same hunk {k}; hunks {:?}", A::NAME, v.hunks);
                    if run > 0 {
                        c.cat("joined changes");
                    }
                    run = 0;
                }
            }
            prev_end = Some(last);
        }
        c.outcome(&v.hunks.iter().map(|h| (h.os, h.ol, h.ns, h.nl)).collect::<Vec<_>>());
    }
    Ok(())
}
both!(c06_pair, c06_inner);

pub fn c06(t: Tier) -> Vec<Box<dyn Space>> {
    let mut v = pair_spaces(t, 0, c06_pair);
    // two changes at every distance, for every context length
    for kind in 0..5u8 {
        let max = t.pick(24usize, 60);
        let top = 2 * max + 4;
        let dec = move |i: u64| {
            let n = (i as usize) % (max + 1);
            let gap = (i as usize) / (max + 1) % (top + 1);
            let before = [0, 1, 2, 3, 9, max, max + 1][(i as usize) / (max + 1) / (top + 1)];
            let mut p = Pair::default();
            let line = |v: &mut Vec<u8>, s: &str, i: usize| v.extend_from_slice(format!("{s}{i}\n").as_bytes());
            let change = |p: &mut Pair, i: usize| {
                if kind != 1 && !(kind == 3 && i == 1) && !(kind == 4 && i == 0) {
                    line(&mut p.o, "old", i);
                }
                if kind != 0 && !(kind == 3 && i == 0) && !(kind == 4 && i == 1) {
                    line(&mut p.m, "new", i);
                }
            };
            for j in 0..before {
                line(&mut p.o, "p", j);
                line(&mut p.m, "p", j);
            }
            change(&mut p, 0);
            for j in 0..gap {
                line(&mut p.o, "g", j);
                line(&mut p.m, "g", j);
            }
            change(&mut p, 1);
            for j in 0..before {
                line(&mut p.o, "s", j);
                line(&mut p.m, "s", j);
            }
            (p, n)
        };
        v.push(space(
            format!("two changes (kind {kind}) at every distance 0..={top} x context lengths 0..={max} x 7 distances from the ends"),
            7 * (max as u64 + 1) * (top as u64 + 1),
            move |i, c| {
                let (p, n) = dec(i);
                c.states += 1;
                c06_pair(c, &p, &[n])
            },
            move |i| {
                let (p, n) = dec(i);
                format!("original={} modified={} context length={n}", esc(&p.o), esc(&p.m))
            },
        ));
    }
    // long contexts: gaps and distances from the ends around one and two context lengths
    let mut ladder: Vec<usize> = vec![60, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 10000, 16384, 32767, 32768, 40000];
    if t == Tier::Thorough {
        ladder.extend([65535, 65536, 65537, 100_000, 131_073]);
    }
    let long = move |i: u64| -> Option<(Pair, usize)> {
        let n = ladder[(i / 180) as usize];
        let i = (i % 180) as usize;
        if n > 3000 && (i / 60 == 1 || i % 5 == 1 || i % 5 > 2) {
            return None;
        }
        let gap = [2 * n + 1, 2 * n - 1, n, n + 1][i / 5 % 4];
        let (before, after) = [(n + 1, n - 1), (n - 1, n + 1), (n, n)][i / 20 % 3];
        let kind = i % 5;
        // at most one more line of common text than that: the context length, less, more
        let ctx = [n, n - 1, n + 1][i / 60];
        let mut p = Pair::default();
        let both = |p: &mut Pair, s: char, k: usize| {
            for j in 0..k {
                let l = format!("{s}{j}\n");
                p.o.extend_from_slice(l.as_bytes());
                p.m.extend_from_slice(l.as_bytes());
            }
        };
        let change = |p: &mut Pair, i: usize| {
            if kind != 1 && !(kind == 3 && i == 1) && !(kind == 4 && i == 0) {
                p.o.extend_from_slice(format!("old{i}\n").as_bytes());
            }
            if kind != 0 && !(kind == 3 && i == 0) && !(kind == 4 && i == 1) {
                p.m.extend_from_slice(format!("new{i}\n").as_bytes());
            }
        };
        both(&mut p, 'p', before);
        change(&mut p, 0);
        both(&mut p, 'g', gap);
        change(&mut p, 1);
        both(&mut p, 's', after);
        Some((p, ctx))
    };
    let l2 = long.clone();
    let len = (t.pick(41, 46) * 180) as u64;
    v.push(space(
        "long contexts: two changes (5 kinds), gaps of one and two context lengths, as many lines at the ends, context lengths up to 40000 (131073) and one off",
        len,
        move |i, c| {
            let Some((p, n)) = long(i) else {
                c.skipped += 1;
                return Ok(());
            };
            c.states += 1;
            c06_pair(c, &p, &[n])
        },
        move |i| match l2(i) {
            Some((p, n)) => format!("original={} modified={} context length={n}", esc(&p.o), esc(&p.m)),
            None => "not a case".into(),
        },
    ));
    v
}
