//! C11, C12, C13, C14, C20: merging.

use crate::api::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::{ensure, fail};
use std::collections::HashMap;
use std::sync::Arc;

fn show(r: &Result<Vec<u8>, Vec<u8>>) -> String {
    match r {
        Ok(t) => format!("clean {}", esc(t)),
        Err(t) => format!("conflict {}", esc(t)),
    }
}

pub const STYLES: [(usize, bool); 6] = [(7, true), (7, false), (0, true), (1, false), (12, true), (40, false)];

// ------------------------------------------------------------------------------------------------

fn c11_inner<A: Api>(c: &mut Ctx, p: &Pair) -> Res {
    let (Some(o), Some(a)) = (A::text(&p.o), A::text(&p.m)) else { return Ok(()) };
    for (marker, diff3) in [(7, true), (7, false), (3, true)] {
        let m = merge_opts(marker, diff3);
        for (what, x, y) in [("only ours changed", a, o), ("only theirs changed", o, a), ("both made the same change", a, a)] {
            let r = A::merge(&m, o, x, y);
            c.step(1);
            c.traces += 1;
            ensure!(r.as_deref() == Ok(&p.m[..]), "{} marker {marker} diff3 {diff3}: {what}: {}, expected clean {}", A::NAME, show(&r), esc(&p.m));
        }
    }
    Ok(())
}

fn c11_pair(c: &mut Ctx, p: &Pair, _: &[usize]) -> Res {
    c.outcome(&(&p.o, &p.m));
    c11_inner::<B>(c, p)?;
    c11_inner::<S>(c, p)?;
    // the plain functions
    c.step(1);
    ensure!(diffy::merge_bytes(&p.o, &p.m, &p.o) == Ok(p.m.clone()), "merge_bytes: only ours changed");
    ensure!(diffy::merge_bytes(&p.o, &p.o, &p.m) == Ok(p.m.clone()), "merge_bytes: only theirs changed");
    if let (Some(o), Some(a)) = (S::text(&p.o), S::text(&p.m)) {
        c.step(1);
        ensure!(diffy::merge(o, a, o).as_deref() == Ok(a), "merge: only ours changed");
        ensure!(diffy::merge(o, o, a).as_deref() == Ok(a), "merge: only theirs changed");
        ensure!(diffy::merge(o, a, a).as_deref() == Ok(a), "merge: both the same");
    }
    Ok(())
}

pub fn c11(t: Tier) -> Vec<Box<dyn Space>> {
    let mut v = pair_spaces(t, -1, c11_pair);
    // context lengths play no role here: one is enough (the generator is what matters)
    v.truncate(v.len());
    v
}

// ------------------------------------------------------------------------------------------------

/// The diff3 result from the library's own line diffs (context lengths do not matter).
fn reference<'t>(p: &'t Triple) -> Option<Vec<Region<'t>>> {
    let (o, a, b) = (split_lines(&p.o), split_lines(&p.a), split_lines(&p.b));
    let d = diff_opts(usize::MAX);
    let (pa, pb) = (d.create_patch_bytes(&p.o, &p.a), d.create_patch_bytes(&p.o, &p.b));
    let ma = alignment(&o, &a, &view(&pa))?;
    let mb = alignment(&o, &b, &view(&pb))?;
    Some(diff3(&o, &a, &b, &ma, &mb))
}

fn c12_inner<A: Api>(c: &mut Ctx, p: &Triple, want: &Result<Vec<u8>, Vec<u8>>) -> Res {
    let (Some(o), Some(a), Some(b)) = (A::text(&p.o), A::text(&p.a), A::text(&p.b)) else { return Ok(()) };
    let r = A::merge(&diffy::MergeOptions::new(), o, a, b);
    c.step(1);
    c.traces += 1;
    ensure!(r == *want, "{}: the merge is {}, diff3 of the line diffs gives {}", A::NAME, show(&r), show(want));
    Ok(())
}

fn c12_triple(c: &mut Ctx, p: &Triple) -> Res {
    let Some(r) = reference(p) else {
        c.cat("line diff unusable (not compared)");
        return Ok(());
    };
    let want = render_merge(&r, 7, true);
    c.outcome(&r.iter().map(|x| matches!(x, Region::Clean(_))).collect::<Vec<_>>());
    c.outcome(&want);
    let n = r.iter().filter(|x| matches!(x, Region::Conflict { .. })).count();
    c.cat(match n {
        0 => "clean merges",
        1 => "merges with 1 conflict",
        _ => "merges with several conflicts",
    });
    c12_inner::<B>(c, p, &want)?;
    c12_inner::<S>(c, p, &want)
}

pub fn c12(t: Tier) -> Vec<Box<dyn Space>> {
    triple_spaces(t, 1, c12_triple)
}

// ------------------------------------------------------------------------------------------------

fn restyle(sections: &[Parsed], marker: usize, diff3: bool) -> Vec<u8> {
    let mut out = Vec::new();
    let mark = |out: &mut Vec<u8>, ch: u8, label: &[u8]| {
        out.extend(std::iter::repeat(ch).take(marker));
        out.extend_from_slice(label);
        out.push(b'\n');
    };
    for s in sections {
        match s {
            Parsed::Clean(t) => out.extend_from_slice(t),
            Parsed::Conflict((a, o, b)) => {
                mark(&mut out, b'<', b" ours");
                a.iter().for_each(|l| out.extend_from_slice(l));
                if diff3 {
                    mark(&mut out, b'|', b" original");
                    o.iter().flatten().for_each(|l| out.extend_from_slice(l));
                }
                mark(&mut out, b'=', b"");
                b.iter().for_each(|l| out.extend_from_slice(l));
                mark(&mut out, b'>', b" theirs");
            }
        }
    }
    out
}

fn c13_inner<A: Api>(c: &mut Ctx, p: &Triple, want: Option<&[Region<'_>]>) -> Res {
    let (Some(o), Some(a), Some(b)) = (A::text(&p.o), A::text(&p.a), A::text(&p.b)) else { return Ok(()) };
    let base = A::merge(&diffy::MergeOptions::new(), o, a, b);
    let sections = match &base {
        Ok(_) => None,
        Err(t) => match parse_merge(t, 7, true) {
            Some(s) => Some(s),
            None => fail!("{}: the conflict markers of {} do not stand on lines of their own or are incomplete", A::NAME, esc(t)),
        },
    };
    if let Some(s) = &sections {
        ensure!(s.iter().any(|x| matches!(x, Parsed::Conflict(_))), "{}: reported as conflicting but no conflict is rendered: {}", A::NAME, show(&base));
    }
    for (marker, diff3) in STYLES {
        let m = merge_opts(marker, diff3);
        let r = A::merge(&m, o, a, b);
        c.step(1);
        c.traces += 1;
        // against the default options
        match (&base, &r, &sections) {
            (Ok(x), Ok(y), _) => ensure!(x == y, "{} marker {marker} diff3 {diff3}: clean result {} differs from {}", A::NAME, esc(y), esc(x)),
            (Err(_), Err(y), Some(s)) => {
                let w = restyle(s, marker, diff3);
                ensure!(*y == w, "{} marker {marker} diff3 {diff3}: {} differs from the default rendering {} in more than the markers: expected {}", A::NAME, esc(y), show(&base), esc(&w));
            }
            _ => fail!("{} marker {marker} diff3 {diff3}: {} but by default {}", A::NAME, show(&r), show(&base)),
        }
        // against the reference regions
        if let Some(w) = want {
            let w = render_merge(w, marker, diff3);
            ensure!(r == w, "{} marker {marker} diff3 {diff3}: {}, expected {}", A::NAME, show(&r), show(&w));
        }
    }
    Ok(())
}

fn c13_triple(c: &mut Ctx, p: &Triple) -> Res {
    let r = reference(p);
    c.cat(match &r {
        None => "line diff unusable (only compared across options)",
        Some(r) if r.iter().any(|x| matches!(x, Region::Conflict { .. })) => "with conflicts",
        _ => "clean",
    });
    if let Some(r) = &r {
        c.outcome(&render_merge(r, 7, true));
    }
    c13_inner::<B>(c, p, r.as_deref())?;
    c13_inner::<S>(c, p, r.as_deref())
}

pub fn c13(t: Tier) -> Vec<Box<dyn Space>> {
    let mut v = triple_spaces(t, -1, c13_triple);
    // marker lengths that are large or near a power of two
    let lens: Vec<usize> = around_powers(8, t.pick(17, 20)).into_iter().chain([1000, 1_000_000]).collect();
    let k = lens.len() as u64 * 2;
    let l2 = lens.clone();
    v.push(space(
        format!("3 conflicts x {} marker lengths up to 1000000 x both styles", lens.len()),
        k * 3,
        move |i, c| {
            let (marker, diff3) = (lens[(i / 2 % (k / 2)) as usize], i % 2 == 0);
            let p = match i / k {
                0 => Triple { o: b"o\n".to_vec(), a: b"a\n".to_vec(), b: b"b\n".to_vec() },
                1 => Triple { o: b"x\no\ny\nz\n1".to_vec(), a: b"x\na\ny\nz\n2".to_vec(), b: b"x\nb\ny\nz\n3".to_vec() },
                _ => Triple { o: b"x\no\n".to_vec(), a: b"x\n".to_vec(), b: b"x\nb\nc\n".to_vec() },
            };
            let Some(r) = reference(&p) else { return Ok(()) };
            let want = render_merge(&r, marker, diff3);
            c.states += 1;
            c.traces += 1;
            c.step(2);
            let m = merge_opts(marker, diff3);
            let g = B::merge(&m, &p.o, &p.a, &p.b);
            ensure!(g == want, "bytes: {}, expected {}", show(&g), show(&want));
            let g = S::merge(&m, S::text(&p.o).unwrap(), S::text(&p.a).unwrap(), S::text(&p.b).unwrap());
            ensure!(g == want, "str: {}, expected {}", show(&g), show(&want));
            Ok(())
        },
        move |i| format!("conflict {} marker length {} diff3 {}", i / k, l2[(i / 2 % (k / 2)) as usize], i % 2 == 0),
    ));
    // marker lengths
    let texts: [&[u8]; 6] = [b"", b"a\n", b"a", b"x\ny\n", b"x\ny", b"\n"];
    let top = t.pick(300u64, 5000);
    let n = texts.len() as u64;
    let dec = move |i: u64| (texts[(i % n) as usize], texts[(i / n % n) as usize], texts[(i / n / n % n) as usize], (i / n / n / n / 2) as usize, i / n / n / n % 2 == 0);
    v.push(space(
        format!("all triples of {n} small texts x marker lengths 0..{top} x both styles"),
        n * n * n * 2 * top,
        move |i, c| {
            let (o, a, b, marker, diff3) = dec(i);
            let p = Triple { o: o.to_vec(), a: a.to_vec(), b: b.to_vec() };
            let Some(r) = reference(&p) else { return Ok(()) };
            let want = render_merge(&r, marker, diff3);
            c.states += 1;
            c.traces += 1;
            c.step(2);
            c.outcome(&want);
            let m = merge_opts(marker, diff3);
            let g = B::merge(&m, o, a, b);
            ensure!(g == want, "bytes: {}, expected {}", show(&g), show(&want));
            let g = S::merge(&m, S::text(o).unwrap(), S::text(a).unwrap(), S::text(b).unwrap());
            ensure!(g == want, "str: {}, expected {}", show(&g), show(&want));
            Ok(())
        },
        move |i| {
            let (o, a, b, marker, diff3) = dec(i);
            format!("ancestor={} ours={} theirs={} marker length={marker} diff3={diff3}", esc(o), esc(a), esc(b))
        },
    ));
    v
}

// ------------------------------------------------------------------------------------------------

fn c14_inner<A: Api>(c: &mut Ctx, p: &Triple) -> Res {
    let (Some(o), Some(a), Some(b)) = (A::text(&p.o), A::text(&p.a), A::text(&p.b)) else { return Ok(()) };
    let m = diffy::MergeOptions::new();
    let (x, y) = (A::merge(&m, o, a, b), A::merge(&m, o, b, a));
    c.step(2);
    c.traces += 1;
    match (&x, &y) {
        (Ok(s), Ok(t)) => {
            c.cat("clean");
            ensure!(s == t, "{}: clean merge {} becomes {} when the sides are swapped", A::NAME, esc(s), esc(t));
        }
        (Err(s), Err(t)) => {
            c.cat("with conflicts");
            let (Some(u), Some(v)) = (parse_merge(s, 7, true), parse_merge(t, 7, true)) else {
                fail!("{}: conflict markers not on lines of their own: {} / {}", A::NAME, esc(s), esc(t))
            };
            let swapped: Vec<Parsed> = u
                .into_iter()
                .map(|x| match x {
                    Parsed::Conflict((a, o, b)) => Parsed::Conflict((b, o, a)),
                    x => x,
                })
                .collect();
            ensure!(swapped == v, "{}: {} becomes {} when the sides are swapped", A::NAME, esc(s), esc(t));
        }
        _ => fail!("{}: {} becomes {} when the sides are swapped", A::NAME, show(&x), show(&y)),
    }
    c.outcome(&x);
    Ok(())
}

fn c14_triple(c: &mut Ctx, p: &Triple) -> Res {
    c14_inner::<B>(c, p)?;
    c14_inner::<S>(c, p)
}

pub fn c14(t: Tier) -> Vec<Box<dyn Space>> {
    triple_spaces(t, 0, c14_triple)
}

// ------------------------------------------------------------------------------------------------

/// Side number `code` of an ancestor of l distinct lines: each line kept or deleted, in each gap
/// no new line, one, or two.
fn side(l: usize, gaps: u64, mut code: u64, tag: char, own: &mut Vec<Vec<u8>>, kept: &mut Vec<bool>, out: &mut Vec<u8>) {
    own.clear();
    kept.clear();
    out.clear();
    for i in 0..=l {
        let n = code % gaps;
        code /= gaps;
        for j in 0..n {
            let line = format!("{tag}{i}.{j}\n").into_bytes();
            out.extend_from_slice(&line);
            own.push(line);
        }
        if i < l {
            let k = code % 2 == 0;
            code /= 2;
            kept.push(k);
            if k {
                out.extend_from_slice(format!("line {i}\n").as_bytes());
            }
        }
    }
}

fn in_order(needles: &[Vec<u8>], hay: &[Vec<u8>]) -> bool {
    // relative order of those needles that occur
    let pos: Vec<usize> = needles.iter().filter_map(|n| hay.iter().position(|h| h == n)).collect();
    pos.windows(2).all(|w| w[0] < w[1])
}

fn c20_inner<A: Api>(c: &mut Ctx, p: &Triple, own: [&[Vec<u8>]; 2], kept: [&[bool]; 2]) -> Res {
    let (Some(o), Some(a), Some(b)) = (A::text(&p.o), A::text(&p.a), A::text(&p.b)) else { return Ok(()) };
    for diff3 in [true, false] {
        let r = A::merge(&merge_opts(7, diff3), o, a, b);
        c.step(1);
        c.traces += 1;
        let (text, conflict) = match &r {
            Ok(t) => (t, false),
            Err(t) => (t, true),
        };
        let Some(parts) = parse_merge(text, 7, diff3) else { fail!("{} diff3 {diff3}: markers incomplete: {}", A::NAME, show(&r)) };
        let mut outside: Vec<Vec<u8>> = Vec::new();
        let mut sections: [Vec<Vec<u8>>; 2] = [vec![], vec![]];
        let mut views: [Vec<Vec<u8>>; 2] = [vec![], vec![]];
        for x in &parts {
            match x {
                Parsed::Clean(t) => {
                    for l in split_lines(t) {
                        outside.push(l.to_vec());
                        views[0].push(l.to_vec());
                        views[1].push(l.to_vec());
                    }
                }
                Parsed::Conflict((a, _, b)) => {
                    sections[0].extend(a.iter().cloned());
                    sections[1].extend(b.iter().cloned());
                    views[0].extend(a.iter().cloned());
                    views[1].extend(b.iter().cloned());
                }
            }
        }
        ensure!(conflict || sections.iter().all(|s| s.is_empty()), "{}: clean result with markers {}", A::NAME, show(&r));
        c.cat(if conflict { "with conflicts" } else { "clean" });
        // linear: there may be thousands of lines
        fn count(v: &[Vec<u8>]) -> HashMap<&[u8], usize> {
            let mut m = HashMap::with_capacity(v.len());
            for x in v {
                *m.entry(&x[..]).or_default() += 1;
            }
            m
        }
        let seen = count(&outside);
        let seen_in = [count(&sections[0]), count(&sections[1])];
        let of = |m: &HashMap<&[u8], usize>, l: &[u8]| m.get(l).copied().unwrap_or(0);
        for k in 0..2 {
            let who = ["ours", "theirs"][k];
            for l in own[k] {
                let n = of(&seen, l) + of(&seen_in[k], l);
                let other = of(&seen_in[1 - k], l);
                ensure!(n == 1 && other == 0, "{} diff3 {diff3}: line {} added by {who} appears {n} times (and {other} times in the other side's sections): {}", A::NAME, esc(l), show(&r));
            }
            let mut mine: Vec<Vec<u8>> = split_lines(if k == 0 { &p.a } else { &p.b }).iter().map(|l| l.to_vec()).collect();
            ensure!(in_order(&mine, &views[k]), "{} diff3 {diff3}: the lines of {who} changed their order: {}", A::NAME, show(&r));
            mine.clear();
        }
        for i in 0..kept[0].len() {
            let l = format!("line {i}\n").into_bytes();
            let n = of(&seen, &l);
            match (kept[0][i], kept[1][i]) {
                (true, true) => ensure!(
                    n == 1 && seen_in.iter().all(|s| of(s, &l) == 0),
                    "{} diff3 {diff3}: line {} kept by both sides appears {n} times outside conflicts: {}", A::NAME, esc(&l), show(&r)
                ),
                _ => ensure!(n == 0, "{} diff3 {diff3}: deleted line {} reappears: {}", A::NAME, esc(&l), show(&r)),
            }
        }
        c.outcome(text);
    }
    Ok(())
}

/// ordered selections of at most n of k
fn arrangements(k: u64, n: u32) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    let mut s = Vec::new();
    for i in 0..seq_count(k, n) {
        seq(i, k, n, &mut s);
        if (0..s.len()).all(|i| !s[..i].contains(&s[i])) {
            out.push(s.clone());
        }
    }
    out
}

/// Both sides may add the same line.  What each side sees of the result must contain all its
/// additions, in its order, and every line that both of them keep; a line only one side added
/// occurs exactly once.
fn c20_shared<A: Api>(c: &mut Ctx, p: &Triple, x: &[Vec<u8>], y: &[Vec<u8>]) -> Res {
    let (Some(o), Some(a), Some(b)) = (A::text(&p.o), A::text(&p.a), A::text(&p.b)) else { return Ok(()) };
    let r = A::merge(&diffy::MergeOptions::new(), o, a, b);
    c.step(1);
    c.traces += 1;
    let (text, conflict) = match &r {
        Ok(t) => (t, false),
        Err(t) => (t, true),
    };
    let Some(parts) = parse_merge(text, 7, true) else { fail!("{}: markers incomplete: {}", A::NAME, show(&r)) };
    let mut outside: Vec<Vec<u8>> = Vec::new();
    let mut sections: [Vec<Vec<u8>>; 2] = [vec![], vec![]];
    let mut views: [Vec<Vec<u8>>; 2] = [vec![], vec![]];
    for z in parts {
        match z {
            Parsed::Clean(t) => {
                for l in split_lines(&t) {
                    outside.push(l.to_vec());
                    views[0].push(l.to_vec());
                    views[1].push(l.to_vec());
                }
            }
            Parsed::Conflict((a, _, b)) => {
                sections[0].extend(a.iter().cloned());
                sections[1].extend(b.iter().cloned());
                views[0].extend(a);
                views[1].extend(b);
            }
        }
    }
    c.cat(if conflict { "shared additions, with conflicts" } else { "shared additions, clean" });
    c.outcome(text);
    let sides = [split_lines(&p.a), split_lines(&p.b)];
    // linear: there may be thousands of lines
    fn count<'v>(v: impl IntoIterator<Item = &'v [u8]>) -> HashMap<&'v [u8], usize> {
        let mut m = HashMap::new();
        for x in v {
            *m.entry(x).or_default() += 1;
        }
        m
    }
    let of = |m: &HashMap<&[u8], usize>, l: &[u8]| m.get(l).copied().unwrap_or(0);
    let seen = count(outside.iter().map(|x| &x[..]));
    let in_sections = count(sections.iter().flatten().map(|x| &x[..]));
    let ancestor = count(split_lines(&p.o));
    let side_has = [count(sides[0].iter().copied()), count(sides[1].iter().copied())];
    for k in 0..2 {
        let who = ["ours", "theirs"][k];
        let (own, other) = if k == 0 { (x, y) } else { (y, x) };
        let other = count(other.iter().map(|l| &l[..]));
        let in_view = count(views[k].iter().map(|l| &l[..]));
        for l in own {
            let n = of(&in_view, l);
            let total = of(&seen, l) + of(&in_sections, l);
            if other.contains_key(&l[..]) {
                ensure!((1..=2).contains(&n) && total <= 2, "{}: line {} added by both sides appears {n} times for {who}, {total} times in all: {}", A::NAME, esc(l), show(&r));
            } else {
                ensure!(n == 1 && total == 1, "{}: line {} added by {who} appears {total} times: {}", A::NAME, esc(l), show(&r));
            }
        }
        // the side's lines, those deleted by the other side left out, in the side's order
        let mut at = views[k].iter();
        for l in &sides[k] {
            let deleted = ancestor.contains_key(l) && !side_has[1 - k].contains_key(l);
            ensure!(deleted || at.any(|z| z == l), "{}: line {} of {who} is missing or out of order: {}", A::NAME, esc(l), show(&r));
        }
    }
    for l in split_lines(&p.o) {
        let n = of(&seen, l);
        match (side_has[0].contains_key(l), side_has[1].contains_key(l)) {
            (true, true) => ensure!(n == 1, "{}: line {} kept by both sides appears {n} times outside conflicts: {}", A::NAME, esc(l), show(&r)),
            _ => ensure!(n == 0, "{}: deleted line {} reappears: {}", A::NAME, esc(l), show(&r)),
        }
    }
    Ok(())
}

pub fn c20(t: Tier) -> Vec<Box<dyn Space>> {
    let mut v: Vec<Box<dyn Space>> = Vec::new();
    let mut add = |l: usize, gaps: u64, stride: usize| {
        let n = gaps.pow(l as u32 + 1) * 2u64.pow(l as u32);
        let dec = move |i: u64| {
            let mut p = Triple::default();
            let (mut oa, mut ob, mut ka, mut kb) = (vec![], vec![], vec![], vec![]);
            for j in 0..l {
                p.o.extend_from_slice(format!("line {j}\n").as_bytes());
            }
            side(l, gaps, i / n, 'a', &mut oa, &mut ka, &mut p.a);
            side(l, gaps, i % n, 'b', &mut ob, &mut kb, &mut p.b);
            (p, oa, ob, ka, kb)
        };
        let _ = stride;
        v.push(space(
            format!("all pairs of sides of an ancestor of {l} distinct lines: every line kept or deleted, 0..={} new lines in every gap", gaps - 1),
            n * n,
            move |i, c| {
                let (p, oa, ob, ka, kb) = dec(i);
                c.states += 1;
                c.sample(|| format!("ancestor {} ours {} theirs {}", esc(&p.o), esc(&p.a), esc(&p.b)));
                c20_inner::<B>(c, &p, [&oa, &ob], [&ka, &kb])?;
                c20_inner::<S>(c, &p, [&oa, &ob], [&ka, &kb])
            },
            move |i| {
                let (p, ..) = dec(i);
                format!("ancestor={} ours={} theirs={}", esc(&p.o), esc(&p.a), esc(&p.b))
            },
        ));
    };
    for (l, gaps) in [(0, 3), (1, 3), (2, 3), (3, 2), (3, 3), (4, 2)] {
        add(l, gaps, 1);
    }
    if t == Tier::Thorough {
        add(5, 2, 1);
        add(4, 3, 1);
    }
    // both sides draw their additions from shared lines
    for (l, k, n) in [(1usize, 4u64, 4u32), (2, 4, t.pick(3, 4)), (2, 5, t.pick(3, 4))] {
        let sets = Arc::new(arrangements(k, n));
        let q = sets.len() as u64;
        let len = q * q * (l as u64 + 1) * 4u64.pow(l as u32);
        let dec = move |i: u64| {
            let (x, y) = (&sets[(i % q) as usize], &sets[(i / q % q) as usize]);
            let i = i / q / q;
            let gap = (i % (l as u64 + 1)) as usize;
            let keep = i / (l as u64 + 1);
            let line = |j: usize| format!("line {j}\n").into_bytes();
            let new = |s: &[u8]| s.iter().map(|c| format!("new {c}\n").into_bytes()).collect::<Vec<_>>();
            let mut p = Triple::default();
            let (top, bottom) = (b"top\n", b"bottom\n");
            for t in [&mut p.o, &mut p.a, &mut p.b] {
                t.extend_from_slice(top);
            }
            for j in 0..=l {
                if j == gap {
                    p.a.extend(new(x).concat());
                    p.b.extend(new(y).concat());
                }
                if j < l {
                    p.o.extend(line(j));
                    if keep >> (2 * j) & 1 == 0 {
                        p.a.extend(line(j));
                    }
                    if keep >> (2 * j) & 2 == 0 {
                        p.b.extend(line(j));
                    }
                }
            }
            for t in [&mut p.o, &mut p.a, &mut p.b] {
                t.extend_from_slice(bottom);
            }
            (p, new(x), new(y))
        };
        let d2 = dec.clone();
        v.push(space(
            format!("additions drawn from {k} shared lines: all pairs of ordered selections of <={n}, in any gap of {l} ancestor lines between common lines, every line kept or deleted"),
            len,
            move |i, c| {
                let (p, x, y) = dec(i);
                c.states += 1;
                c.sample(|| format!("ancestor {} ours {} theirs {}", esc(&p.o), esc(&p.a), esc(&p.b)));
                c20_shared::<B>(c, &p, &x, &y)?;
                c20_shared::<S>(c, &p, &x, &y)
            },
            move |i| {
                let (p, ..) = d2(i);
                format!("ancestor={} ours={} theirs={}", esc(&p.o), esc(&p.a), esc(&p.b))
            },
        ));
    }
    // long runs of shared additions which differ at one place
    let sizes: Vec<usize> = t.pick(
        vec![2, 3, 5, 9, 17, 33, 65, 70, 100, 129, 200, 257, 300, 513, 1025],
        vec![2, 3, 5, 9, 17, 33, 65, 70, 100, 129, 200, 257, 300, 513, 1025, 2049, 4097, 5000, 10000, 20000],
    );
    let mut at: Vec<(usize, usize)> = Vec::new();
    for n in sizes {
        let mut places: Vec<usize> = [0, 1, 2, 7, 8, 9, 15, 16, 31, 32, 33, 50, 63, 64, 65, 99, 100, 127, 128, 129, 199, 255, 256, 257, 299, 511, 512, 999, 1023, 1024, 2048, 4096, n / 3, n / 2, n - 2, n - 1].into_iter().filter(|p| *p < n).collect();
        places.sort();
        places.dedup();
        at.extend(places.into_iter().map(|p| (n, p)));
    }
    const DIFFER: u64 = 7;
    let len = at.len() as u64 * DIFFER * 4;
    let dec = move |i: u64| {
        let (n, at) = at[(i / DIFFER / 4) as usize];
        let (what, around) = (i % DIFFER, i / DIFFER % 4);
        let line = |j: usize| format!("new {j}\n").into_bytes();
        let x: Vec<Vec<u8>> = (0..n).map(line).collect();
        let mut y = x.clone();
        match what {
            0 => y[at] = b"theirs\n".to_vec(),
            1 => y.insert(at, b"theirs\n".to_vec()),
            2 => {
                y.remove(at);
            }
            3 => y.truncate(at),
            4 => {
                y.drain(..at);
            }
            5 => {
                // everything differs from there on
                for (j, l) in y.iter_mut().enumerate().skip(at) {
                    *l = format!("theirs {j}\n").into_bytes();
                }
            }
            _ => {}
        }
        let mut p = Triple::default();
        // in the middle, at the start, at the end; and over a line that both delete
        let (head, tail) = [("top\n", "bottom\n"), ("", "bottom\n"), ("top\n", ""), ("top\n", "bottom\n")][around as usize];
        p.o = format!("{head}{}{tail}", if around == 3 { "gone 1\ngone 2\n" } else { "" }).into_bytes();
        p.a = [head.as_bytes(), &x.concat(), tail.as_bytes()].concat();
        p.b = [head.as_bytes(), &y.concat(), tail.as_bytes()].concat();
        (p, x, y)
    };
    let d2 = dec.clone();
    v.push(space(
        "both sides add the same run of lines but for one place of it: every size and place of a ladder, 7 differences, 4 surroundings",
        len,
        move |i, c| {
            let (mut p, mut x, mut y) = dec(i);
            c.states += 1;
            c20_shared::<B>(c, &p, &x, &y)?;
            c20_shared::<S>(c, &p, &x, &y)?;
            std::mem::swap(&mut p.a, &mut p.b);
            std::mem::swap(&mut x, &mut y);
            c20_shared::<B>(c, &p, &x, &y)
        },
        move |i| {
            let (p, ..) = d2(i);
            format!("ancestor={} ours={} theirs={}", esc(&p.o), esc(&p.a), esc(&p.b))
        },
    ));
    // long runs of additions and deletions
    let widths = t.pick(
        vec![0, 1, 2, 5, 20, 33, 50, 100, 129, 200, 257, 300, 1000usize],
        vec![0, 1, 2, 5, 19, 20, 21, 32, 33, 50, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 1000, 1023, 1024, 1025, 2048, 4096, 5000],
    );
    let k = widths.len() as u64;
    let dec = move |i: u64| {
        // ours adds and deletes, theirs adds and deletes; the gaps where they add; the order of the
        // deleted run and the additions
        let (wa, wb) = (widths[(i % k) as usize], widths[(i / k % k) as usize]);
        let mut x = i / k / k;
        let mut d = |n: u64| {
            let r = x % n;
            x /= n;
            r as usize
        };
        let (ga, gb, da, db) = (d(4), d(4), d(4), d(4));
        let line = |j: usize| format!("line {j}\n").into_bytes();
        let l = 9;
        let mut p = Triple::default();
        let mut own = [vec![], vec![]];
        let mut kept = [vec![], vec![]];
        for j in 0..=l {
            for (s, t, w, g) in [(0, &mut p.a, wa, ga), (1, &mut p.b, wb, gb)] {
                if j == g * 3 {
                    for n in 0..w {
                        let x = format!("{} {n}\n", ["ours", "theirs"][s]).into_bytes();
                        t.extend_from_slice(&x);
                        own[s].push(x);
                    }
                }
            }
            if j < l {
                p.o.extend(line(j));
                for (s, t, del) in [(0, &mut p.a, da), (1, &mut p.b, db)] {
                    // nothing, one line, a third, everything but the ends
                    let gone = match del {
                        0 => false,
                        1 => j == 4,
                        2 => j < 3,
                        _ => j > 0 && j + 1 < l,
                    };
                    kept[s].push(!gone);
                    if !gone {
                        t.extend(line(j));
                    }
                }
            }
        }
        let [oa, ob] = own;
        let [ka, kb] = kept;
        (p, oa, ob, ka, kb)
    };
    let d2 = dec.clone();
    v.push(space(
        format!("runs of additions by both sides, {k} x {k} sizes up to {}, 4 x 4 places, 4 x 4 kinds of deletions in 9 lines", t.pick(1000, 5000)),
        k * k * 256,
        move |i, c| {
            let (p, oa, ob, ka, kb) = dec(i);
            c.states += 1;
            c20_inner::<B>(c, &p, [&oa, &ob], [&ka, &kb])?;
            c20_inner::<S>(c, &p, [&oa, &ob], [&ka, &kb])
        },
        move |i| {
            let (p, ..) = d2(i);
            format!("ancestor={} ours={} theirs={}", esc(&p.o), esc(&p.a), esc(&p.b))
        },
    ));
    // blocks of deleted lines and insertions in long ancestors
    for (l, w) in [(12usize, 3usize), (40, 10)] {
        let q = (l / w + 1) as u64 * 4;
        let dec = move |i: u64| {
            // two block operations per side
            let mut p = Triple::default();
            for j in 0..l {
                p.o.extend_from_slice(format!("line {j}\n").as_bytes());
            }
            let mut sides = Vec::new();
            for (s, tag) in [(i / (q * q), 'a'), (i % (q * q), 'b')] {
                let (x, y) = (s / q, s % q);
                let mut out = Vec::new();
                let mut own = Vec::new();
                let mut kept = Vec::new();
                for j in 0..=l {
                    for op in [x, y] {
                        let (kind, at) = (op % 4, (op / 4) as usize * w);
                        if at == j && kind >= 2 && !(op == y && x == y) {
                            for z in 0..(kind as usize - 1) * 2 {
                                let line = format!("{tag}{j}.{op}.{z}\n").into_bytes();
                                out.extend_from_slice(&line);
                                own.push(line);
                            }
                        }
                    }
                    if j < l {
                        let del = [x, y].iter().any(|op| op % 4 < 2 && (*op / 4) as usize * w <= j && j < (*op / 4) as usize * w + 1 + (*op % 4) as usize * w);
                        kept.push(!del);
                        if !del {
                            out.extend_from_slice(format!("line {j}\n").as_bytes());
                        }
                    }
                }
                sides.push((out, own, kept));
            }
            let b = sides.pop().unwrap();
            let a = sides.pop().unwrap();
            p.a = a.0;
            p.b = b.0;
            (p, a.1, b.1, a.2, b.2)
        };
        v.push(space(
            format!("ancestor of {l} lines, two block deletions/insertions per side at multiples of {w}"),
            q * q * q * q,
            move |i, c| {
                let (p, oa, ob, ka, kb) = dec(i);
                c.states += 1;
                c20_inner::<B>(c, &p, [&oa, &ob], [&ka, &kb])?;
                c20_inner::<S>(c, &p, [&oa, &ob], [&ka, &kb])
            },
            move |i| {
                let (p, ..) = dec(i);
                format!("ancestor={} ours={} theirs={}", esc(&p.o), esc(&p.a), esc(&p.b))
            },
        ));
    }
    v
}
