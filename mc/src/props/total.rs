//! C19: nothing panics, aborts or hangs.  The engine turns panics into violations; aborts and hangs
//! are caught by the supervisor process.

use crate::api::*;
use crate::engine::*;
use crate::gen::*;
use crate::props::tokens;
use diffy::{DiffOptions, Line, Patch};
use std::fmt::Debug;

/// Reads a patch through everything it offers.
fn touch<A: Api>(c: &mut Ctx, p: &Patch<'_, A::T>, bases: &[&[u8]], depth: u32) -> usize
where
    A::T: Debug,
    <A::T as ToOwned>::Owned: Debug,
{
    let mut n = 0usize;
    n += p.original().map_or(0, |x| x.as_ref().len()) + p.modified().map_or(0, |x| x.as_ref().len());
    for h in p.hunks() {
        for r in [h.old_range(), h.new_range()] {
            n = n.wrapping_add(r.start()).wrapping_add(r.len()).wrapping_add(r.end()).wrapping_add(r.is_empty() as usize);
            let x = r.range();
            n = n.wrapping_add(x.start ^ x.end);
            n = n.wrapping_add(r.to_string().len()).wrapping_add(format!("{r:?}").len());
        }
        n = n.wrapping_add(h.function_context().map_or(0, |x| x.as_ref().len()));
        for l in h.lines() {
            n = n.wrapping_add(match l {
                Line::Context(x) | Line::Delete(x) | Line::Insert(x) => x.as_ref().len(),
            });
            let _ = l.reverse();
        }
        let _ = h.reverse();
        let _ = h.clone();
        n = n.wrapping_add(h.lines().len());
    }
    if p.hunks().iter().map(|h| h.lines().len()).sum::<usize>() < 200 {
        n = n.wrapping_add(format!("{p:?}").len());
    }
    if depth > 0 {
        for f in ALL_FMT {
            n = n.wrapping_add(write_into(&formatter(f), p).len());
        }
    }
    let t = A::show(p);
    n = n.wrapping_add(t.len());
    let q = p.clone();
    n = n.wrapping_add((q == *p) as usize);
    c.step(20 + 2 * bases.len() as u64);
    for b in bases {
        if let Some(b) = A::text(b) {
            n = n.wrapping_add(A::apply(b, p).map_or_else(|e| e.len(), |r| r.len()));
        }
    }
    if let Some(t) = A::text(&t) {
        n = n.wrapping_add(A::parse(t).map_or_else(|e| e.len(), |q| q.hunks().len()));
    }
    if depth > 0 {
        n = n.wrapping_add(touch::<A>(c, &p.reverse(), bases, depth - 1));
    }
    n
}

const EXTREME: &[usize] = &[usize::MAX, usize::MAX - 1, 1 << 63, (1 << 63) - 1];

fn c19_pair(c: &mut Ctx, p: &Pair, ctxs: &[usize]) -> Res {
    let small = p.o.len() + p.m.len() < 100;
    let mut shifted = b"zz\n".to_vec();
    shifted.extend_from_slice(&p.o);
    let bases: Vec<&[u8]> = if small { vec![&p.o, &p.m, b"", &shifted] } else { vec![&p.o, &p.m] };
    for n in ctxs.iter().chain(if small { EXTREME } else { &[] }) {
        let d = diff_opts(*n);
        c.traces += 1;
        let x = touch::<B>(c, &d.create_patch_bytes(&p.o, &p.m), &bases, 1);
        c.outcome(&x);
        if let (Some(o), Some(m)) = (S::text(&p.o), S::text(&p.m)) {
            let q = d.create_patch(o, m);
            touch::<S>(c, &q, &bases, 1);
            for f in [ALL_FMT[0], ALL_FMT[7]] {
                let _ = formatter(f).fmt_patch(&q).to_string();
            }
        }
    }
    // trivial merges, with each role taken by each text
    for (o, a, b) in [(&p.o, &p.m, &p.o), (&p.o, &p.m, &p.m), (&p.m, &p.o, &p.o)] {
        c.step(1);
        let _ = diffy::merge_bytes(o, a, b);
    }
    Ok(())
}

fn c19_triple(c: &mut Ctx, p: &Triple) -> Res {
    c.traces += 1;
    let markers: &[usize] = if p.o.len() < 50 { &[7, 0, 100] } else { &[7] };
    for &marker in markers {
        for diff3 in [true, false] {
            let m = merge_opts(marker, diff3);
            c.step(2);
            let r = m.merge_bytes(&p.o, &p.a, &p.b);
            c.outcome(&r);
            c.cat(if r.is_ok() { "clean merges" } else { "conflicting merges" });
            if let (Some(o), Some(a), Some(b)) = (S::text(&p.o), S::text(&p.a), S::text(&p.b)) {
                let _ = m.merge(o, a, b);
            }
        }
    }
    Ok(())
}

const BASES: &[&[u8]] = &[b"", b"a\n", b"a", b"a\nb\n", b"b\na\na\nb\nc\nb", b"\n\n\n"];

fn c19_text(c: &mut Ctx, t: &[u8]) -> Res {
    c.states += 1;
    c.traces += 1;
    c.step(1);
    match B::parse(t) {
        Ok(p) => {
            c.cat("accepted");
            let x = touch::<B>(c, &p, BASES, 1);
            c.outcome(&x);
        }
        Err(e) => {
            c.cat("rejected");
            c.outcome(&e)
        }
    }
    if let Some(s) = S::text(t) {
        c.step(1);
        match Patch::from_str(s) {
            Ok(p) => {
                touch::<S>(c, &p, BASES, 1);
            }
            Err(e) => {
                let _ = format!("{e} {e:?}");
            }
        }
    }
    Ok(())
}

/// All strings over an alphabet, after a prefix.
fn strings(prefix: &'static [u8], alphabet: &'static [u8], n: u32) -> tokens::TextGen {
    let k = alphabet.len() as u64;
    tokens::TextGen {
        name: format!("all strings {} + <={n} bytes of {}", esc(prefix), esc(alphabet)),
        len: seq_count(k, n),
        get: std::sync::Arc::new(move |i, out| {
            let mut s = Vec::new();
            seq(i, k, n, &mut s);
            out.clear();
            out.extend_from_slice(prefix);
            out.extend(s.iter().map(|x| alphabet[*x as usize]));
            true
        }),
    }
}

/// Every single byte and pair of bytes at every point of small valid patches.
fn byte_pairs(which: usize) -> tokens::TextGen {
    let p = tokens::VALID[which];
    let n = p.len() as u64 + 1;
    tokens::TextGen {
        name: format!("every byte value inserted and replaced at every place of valid patch {which}"),
        len: n * 256 * 2,
        get: std::sync::Arc::new(move |i, out| {
            let (at, b, kind) = ((i / 512) as usize, (i / 2 % 256) as u8, i % 2);
            out.clear();
            out.extend_from_slice(p);
            if kind == 0 {
                out.insert(at, b);
            } else if at < out.len() {
                out[at] = b;
            } else {
                return false;
            }
            true
        }),
    }
}

fn c19_names(c: &mut Ctx, a: &str, b: &str) -> Res {
    let mut o = DiffOptions::new();
    o.set_original_filename(a.to_string()).set_modified_filename(b.to_string());
    touch::<S>(c, &o.create_patch("a\n", "b\n"), &[b"a\n"], 1);
    touch::<B>(c, &o.create_patch_bytes(b"a\n", b"b\n"), &[b"a\n"], 1);
    Ok(())
}

/// Accepted patches with huge stated line numbers, applied to longer bases: the search for a place
/// must not depend on the stated number.
fn far_patches() -> Vec<Box<dyn Space>> {
    const STARTS: &[&str] = &["0", "1", "2", "5", "1000000", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551613", "18446744073709551614", "18446744073709551615"];
    const BODIES: &[(&str, u64, u64)] = &[("-x\n", 1, 0), ("+y\n", 0, 1), (" x\n", 1, 1), ("-q\n+y\n", 1, 1), ("", 0, 0), (" x\n x\n-x\n", 3, 2), ("-x\n\\ No newline at end of file\n", 1, 0)];
    let (ns, nb) = (STARTS.len() as u64, BODIES.len() as u64);
    let text = move |i: u64| {
        let (body, o, n) = BODIES[(i % nb) as usize];
        let i = i / nb;
        let (a, b) = (STARTS[(i % ns) as usize], STARTS[(i / ns % ns) as usize]);
        let base = match i / ns / ns {
            0 => String::new(),
            1 => "x\n".repeat(3),
            2 => "x\n".repeat(2000),
            3 => format!("{}x", "z\n".repeat(5000)),
            _ => "z\n".repeat(20000),
        };
        (format!("@@ -{a},{o} +{b},{n} @@\n{body}"), base)
    };
    vec![space(
        format!("{ns} x {ns} stated starts x {nb} bodies x 5 bases of up to 20000 lines"),
        ns * ns * nb * 5,
        move |i, c| {
            let (t, base) = text(i);
            c.states += 1;
            c.traces += 1;
            if let Ok(p) = S::parse(&t) {
                let x = touch::<S>(c, &p, &[base.as_bytes()], 1);
                c.outcome(&x);
            }
            if let Ok(p) = B::parse(t.as_bytes()) {
                touch::<B>(c, &p, &[base.as_bytes()], 1);
            }
            Ok(())
        },
        move |i| {
            let (t, base) = text(i);
            format!("patch {} applied to {}", esc(t.as_bytes()), esc(base.as_bytes()))
        },
    )]
}

pub fn c19(t: Tier) -> Vec<Box<dyn Space>> {
    const ALPHA: &[u8] = b"@-+ 1,\n\"\\a\t\xc3";
    let mut g = vec![
        strings(b"", ALPHA, t.pick(5, 7)),
        strings(b"@@ ", ALPHA, t.pick(5, 6)),
        strings(b"@@ -1 +1 @@\n", ALPHA, t.pick(5, 6)),
        strings(b"--- ", ALPHA, t.pick(5, 6)),
        strings(b"@@ -0,0 +1 @@\n+a\n@@ -", b"@-+ 01,\n9", t.pick(6, 7)),
        strings(b"+++ \"", b"\"\\\n\tn0\xffa", t.pick(6, 7)),
    ];
    for i in 0..tokens::VALID.len() {
        g.push(byte_pairs(i));
    }
    g.extend(tokens::parse_gens(t));
    let mut v = far_patches();
    v.extend(super::stack::spaces());
    v.extend(tokens::text_spaces(g, c19_text));
    v.extend(super::text::name_spaces(t, c19_names));
    v.extend(pair_spaces(t, -1, c19_pair));
    v.extend(triple_spaces(t, -1, c19_triple));
    v
}
