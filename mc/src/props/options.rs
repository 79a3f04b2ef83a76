//! C23: shortcuts and defaults.

use crate::api::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use diffy::{ConflictStyle, DiffOptions, MergeOptions, Patch, PatchFormatter};
use std::borrow::Cow;

/// Every option stated.
fn explicit(ctx: usize, o: &'static str, m: &'static str) -> DiffOptions {
    let mut d = DiffOptions::new();
    d.set_context_len(ctx).set_original_filename(o).set_modified_filename(m);
    d
}

trait Free: Api {
    fn free<'a>(a: &'a Self::T, b: &'a Self::T) -> Patch<'a, Self::T>;
    fn merge_free(o: &Self::T, a: &Self::T, b: &Self::T) -> Result<Vec<u8>, Vec<u8>>;
    /// every way to the text of a patch with default formatting
    fn texts(p: &Patch<'_, Self::T>) -> Vec<(&'static str, Vec<u8>)>;
}

fn all_formatters() -> [(&'static str, PatchFormatter); 4] {
    [
        ("default()", PatchFormatter::default()),
        ("new()", PatchFormatter::new()),
        ("missing_newline_message(true)", PatchFormatter::new().missing_newline_message(true)),
        ("suppress_blank_empty(true)", PatchFormatter::default().suppress_blank_empty(true)),
    ]
}

impl Free for S {
    fn free<'a>(a: &'a str, b: &'a str) -> Patch<'a, str> {
        diffy::create_patch(a, b)
    }
    fn merge_free(o: &str, a: &str, b: &str) -> Result<Vec<u8>, Vec<u8>> {
        diffy::merge(o, a, b).map(String::into_bytes).map_err(String::into_bytes)
    }
    fn texts(p: &Patch<'_, str>) -> Vec<(&'static str, Vec<u8>)> {
        let mut v = vec![("to_string", p.to_string().into_bytes()), ("format!", format!("{p}").into_bytes())];
        v.push(("to_bytes", p.to_bytes()));
        for (n, f) in all_formatters() {
            v.push((n, f.fmt_patch(p).to_string().into_bytes()));
            v.push((n, write_into(&f, p)));
        }
        v
    }
}

impl Free for B {
    fn free<'a>(a: &'a [u8], b: &'a [u8]) -> Patch<'a, [u8]> {
        diffy::create_patch_bytes(a, b)
    }
    fn merge_free(o: &[u8], a: &[u8], b: &[u8]) -> Result<Vec<u8>, Vec<u8>> {
        diffy::merge_bytes(o, a, b)
    }
    fn texts(p: &Patch<'_, [u8]>) -> Vec<(&'static str, Vec<u8>)> {
        let mut v = vec![("to_bytes", p.to_bytes())];
        for (n, f) in all_formatters() {
            v.push((n, write_into(&f, p)));
        }
        v
    }
}

fn pair_in<A: Free>(c: &mut Ctx, p: &Pair) -> Res {
    let (Some(a), Some(b)) = (A::text(&p.o), A::text(&p.m)) else { return Ok(()) };
    c.step(4);
    let want = A::create(&explicit(3, "original", "modified"), a, b);
    let w = view(&want);
    c.outcome(&w);
    for (what, got) in [
        ("the free function", A::free(a, b)),
        ("DiffOptions::default()", A::create(&DiffOptions::default(), a, b)),
        ("DiffOptions::new()", A::create(&DiffOptions::new(), a, b)),
    ] {
        let v = view(&got);
        ensure!(v == w, "{}: {what} gives {v:?}, all options stated give {w:?}", A::NAME);
    }
    let want = write_into(&formatter(Fmt { color: false, message: true, suppress: true }), &want);
    let free = A::free(a, b);
    for (what, got) in A::texts(&free) {
        ensure!(got == want, "{}: {what} writes {}, all options stated write {}", A::NAME, esc(&got), esc(&want));
    }
    Ok(())
}

/// Any subset of the options, set in any order, in any form of argument.
fn subsets<A: Free>(c: &mut Ctx, p: &Pair, ctxs: &[usize]) -> Res {
    const ORDERS: [[u8; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let (Some(a), Some(b)) = (A::text(&p.o), A::text(&p.m)) else { return Ok(()) };
    for &n in ctxs {
        for set in 0..8u8 {
            let has = |k: u8| set >> k & 1 == 1;
            let w = A::create(&explicit(if has(0) { n } else { 3 }, if has(1) { "o x" } else { "original" }, if has(2) { "" } else { "modified" }), a, b);
            let w = view(&w);
            for (i, order) in ORDERS.iter().enumerate() {
                let mut d = if i % 2 == 0 { DiffOptions::new() } else { DiffOptions::default() };
                for k in order {
                    match (k, has(*k)) {
                        (0, true) => {
                            d.set_context_len(n);
                        }
                        (1, true) => {
                            match i % 3 {
                                0 => d.set_original_filename("o x"),
                                1 => d.set_original_filename("o x".to_string()),
                                _ => d.set_original_filename(Cow::Borrowed("o x")),
                            };
                        }
                        (2, true) => {
                            match i % 3 {
                                0 => d.set_modified_filename(String::new()),
                                1 => d.set_modified_filename(""),
                                _ => d.set_modified_filename(Cow::Owned(String::new())),
                            };
                        }
                        _ => {}
                    }
                }
                c.step(1);
                let got = A::create(&d, a, b);
                let v = view(&got);
                ensure!(
                    v == w,
                    "{}: with {}{}{}set in order {order:?} the patch is {v:?} instead of {w:?}",
                    A::NAME,
                    if has(0) { format!("context length {n} ") } else { String::new() },
                    if has(1) { "original name " } else { "" },
                    if has(2) { "modified name " } else { "" }
                );
            }
        }
    }
    Ok(())
}

fn c23_pair(c: &mut Ctx, p: &Pair, ctxs: &[usize]) -> Res {
    c.traces += 2;
    pair_in::<B>(c, p)?;
    pair_in::<S>(c, p)?;
    if p.o.len() + p.m.len() <= 14 {
        subsets::<B>(c, p, ctxs)?;
        subsets::<S>(c, p, ctxs)?;
    }
    Ok(())
}

fn triple_in<A: Free>(c: &mut Ctx, p: &Triple) -> Res {
    let (Some(o), Some(a), Some(b)) = (A::text(&p.o), A::text(&p.a), A::text(&p.b)) else { return Ok(()) };
    let w = A::merge(&merge_opts(7, true), o, a, b);
    c.outcome(&w);
    c.step(4);
    for (what, got) in [
        ("the free function", A::merge_free(o, a, b)),
        ("MergeOptions::default()", A::merge(&MergeOptions::default(), o, a, b)),
        ("MergeOptions::new()", A::merge(&MergeOptions::new(), o, a, b)),
    ] {
        ensure!(got == w, "{}: {what} merges to {}, all options stated to {}", A::NAME, show(&got), show(&w));
    }
    let size = p.o.len() + p.a.len() + p.b.len();
    if size > 20 || w.is_ok() && size > 6 {
        return Ok(());
    }
    let style = |d: bool| if d { ConflictStyle::Diff3 } else { ConflictStyle::Merge };
    for len in [0usize, 1, 5, 7, 8] {
        let mut m = MergeOptions::default();
        m.set_conflict_marker_length(len);
        let w = A::merge(&merge_opts(len, true), o, a, b);
        let got = A::merge(&m, o, a, b);
        ensure!(got == w, "{}: with marker length {len} alone the merge is {}, with the default style stated too {}", A::NAME, show(&got), show(&w));
        for d in [false, true] {
            c.step(3);
            let w = A::merge(&merge_opts(len, d), o, a, b);
            let mut m = MergeOptions::new();
            let s = style(d);
            m.set_conflict_style(s).set_conflict_marker_length(len);
            let got = A::merge(&m, o, a, b);
            ensure!(got == w, "{}: the order in which style and marker length are set matters: {} and {}", A::NAME, show(&got), show(&w));
        }
    }
    for d in [false, true] {
        let mut m = MergeOptions::new();
        m.set_conflict_style(style(d));
        c.step(2);
        let (got, w) = (A::merge(&m, o, a, b), A::merge(&merge_opts(7, d), o, a, b));
        ensure!(got == w, "{}: with the style alone the merge is {}, with the default marker length stated too {}", A::NAME, show(&got), show(&w));
    }
    Ok(())
}

fn show(r: &Result<Vec<u8>, Vec<u8>>) -> String {
    match r {
        Ok(t) => format!("clean {}", esc(t)),
        Err(t) => format!("conflicts {}", esc(t)),
    }
}

fn c23_triple(c: &mut Ctx, p: &Triple) -> Res {
    c.traces += 2;
    triple_in::<B>(c, p)?;
    triple_in::<S>(c, p)
}

pub fn c23(t: Tier) -> Vec<Box<dyn Space>> {
    let mut v = pair_spaces(t, -1, c23_pair);
    v.extend(triple_spaces(t, -1, c23_triple));
    v
}
