//! C02, C15, C16, C18: formatted patches.

use crate::api::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::{self, *};
use crate::props::tokens;
use crate::{ensure, fail};
use diffy::{DiffOptions, Patch};

// ------------------------------------------------------------------------------------------------
// C02: walks over representations

/// A patch type with the formatter operations available for it.
trait Walk: Api {
    /// lossless text forms of a patch
    fn forms(p: &Patch<'_, Self::T>, out: &mut Vec<(&'static str, bool, Vec<u8>)>);
}

const NO_SUPPRESS: Fmt = Fmt { color: false, message: true, suppress: false };
const PLAIN: Fmt = Fmt { color: false, message: true, suppress: true };

impl Walk for B {
    fn forms(p: &Patch<'_, [u8]>, out: &mut Vec<(&'static str, bool, Vec<u8>)>) {
        out.push(("to_bytes", true, p.to_bytes()));
        out.push(("write_patch_into without suppression", false, write_into(&formatter(NO_SUPPRESS), p)));
    }
}

impl Walk for S {
    fn forms(p: &Patch<'_, str>, out: &mut Vec<(&'static str, bool, Vec<u8>)>) {
        out.push(("to_string", true, p.to_string().into_bytes()));
        out.push(("fmt_patch without suppression", false, formatter(NO_SUPPRESS).fmt_patch(p).to_string().into_bytes()));
        out.push(("write_patch_into", true, write_into(&formatter(PLAIN), p)));
    }
}

/// Every sequence of {format+parse in each form, reverse, clone} steps of the given depth.
fn walk<A: Walk>(c: &mut Ctx, p: &Patch<'_, A::T>, m: &MPatch<'_>, depth: u32, path: &str) -> Res {
    let v = view(p);
    ensure!(v == *m, "{}{path}: the patch is {v:?}, expected {m:?}", A::NAME);
    c.states += 1;
    if depth == 0 {
        c.traces += 1;
        return Ok(());
    }
    let mut forms = Vec::new();
    A::forms(p, &mut forms);
    for (what, _, text) in &forms {
        c.step(2);
        let Some(t) = A::text(text) else { fail!("{}{path}: {what} gives invalid UTF-8", A::NAME) };
        match A::parse(t) {
            Err(e) => fail!("{}{path}: {what} gives {} which does not parse: {e}", A::NAME, esc(text)),
            Ok(q) => {
                ensure!(q == *p, "{}{path}: {what} gives {} which parses to {:?} instead of {m:?}", A::NAME, esc(text), view(&q));
                walk::<A>(c, &q, m, depth - 1, &format!("{path} > {what}+parse"))?;
            }
        }
    }
    if depth > 1 {
        c.step(2);
        walk::<A>(c, &p.reverse(), &model::reverse(m), depth - 1, &format!("{path} > reverse"))?;
        walk::<A>(c, &p.clone(), m, depth - 1, &format!("{path} > clone"))?;
    }
    Ok(())
}

fn c02_pair_depth(c: &mut Ctx, p: &Pair, ctxs: &[usize], depth: u32) -> Res {
    for &n in ctxs {
        let b = diff_opts(n).create_patch_bytes(&p.o, &p.m);
        let v = view(&b);
        c.outcome(&v);
        walk::<B>(c, &b, &v, depth, "")?;
        walk::<B>(c, &b.reverse(), &model::reverse(&v), 1, " > reverse")?;
        if let (Some(o), Some(m)) = (S::text(&p.o), S::text(&p.m)) {
            let s = diff_opts(n).create_patch(o, m);
            let v = view(&s);
            walk::<S>(c, &s, &v, depth, "")?;
            walk::<S>(c, &s.reverse(), &model::reverse(&v), 1, " > reverse")?;
        }
    }
    Ok(())
}
fn c02_pair1(c: &mut Ctx, p: &Pair, ctxs: &[usize]) -> Res {
    c02_pair_depth(c, p, ctxs, 1)
}
fn c02_pair3(c: &mut Ctx, p: &Pair, ctxs: &[usize]) -> Res {
    c02_pair_depth(c, p, ctxs, 3)
}

fn c02_text(c: &mut Ctx, t: &[u8], depth: u32) -> Res {
    let Verdict::Accept(m) = ref_parse(t) else {
        c.skipped += 1;
        return Ok(());
    };
    if let Ok(p) = B::parse(t) {
        if view(&p) == m {
            c.outcome(&m);
            walk::<B>(c, &p, &m, depth, " parsed")?;
        }
    }
    if let Some(Ok(p)) = S::text(t).map(S::parse) {
        if view(&p) == m {
            walk::<S>(c, &p, &m, depth, " parsed")?;
        }
    }
    Ok(())
}

pub fn c02(t: Tier) -> Vec<Box<dyn Space>> {
    let mut v: Vec<Box<dyn Space>> = Vec::new();
    let deep = |g: Box<dyn PairGen>, ctxs: Vec<usize>| Box::new(PairSpace { gen: g, ctxs, check: c02_pair3 }) as Box<dyn Space>;
    v.push(deep(Dense::new(2, t.pick(3, 4), true), vec![0, 1, 3]));
    v.push(deep(Skin::new(true, 2, 2), vec![0, 1]));
    v.push(deep(Skin::new(false, 2, t.pick(1, 2)), vec![1]));
    v.push(deep(Box::new(Dev { l: 9, period: 0, fresh: true, dev: 2, eof: true, ops: DEV_OPS }), vec![0, 1, 3]));
    v.push(deep(Box::new(Dev { l: 16, period: 0, fresh: true, dev: t.pick(2, 3), eof: false, ops: 3 }), vec![0, 2]));
    for g in tokens::text_gens(t) {
        let g2 = g.clone();
        let depth = t.pick(2, 3);
        v.push(space(
            format!("walks of depth {depth} from every accepted text among {}", g.name),
            g.len,
            move |i, c| {
                let mut b = Vec::new();
                if !(g.get)(i, &mut b) {
                    c.skipped += 1;
                    return Ok(());
                }
                c.sample(|| esc(&b));
                c02_text(c, &b, depth)
            },
            move |i| {
                let mut b = Vec::new();
                (g2.get)(i, &mut b);
                esc(&b)
            },
        ));
    }
    v.extend(pair_spaces(t, 0, c02_pair1));
    v
}

// ------------------------------------------------------------------------------------------------
// C15: exact text under every option

fn c15_patch_common(c: &mut Ctx, what: &str, m: &MPatch<'_>, f: Fmt, got: &[u8]) -> Res {
    c.step(1);
    let mut marks = Vec::new();
    let want = render_styled(m, RenderOpts { suppress: f.suppress, message: f.message }, &mut marks);
    if f.color {
        if let Err(e) = check_styled(got, &want, &marks) {
            fail!("{what} {f:?}: {e} in {}, whose plain text is {}", esc(got), esc(&want));
        }
    } else {
        ensure!(got == want, "{what} {f:?}: the text is {}, expected {}", esc(got), esc(&want));
    }
    Ok(())
}

fn c15_bytes(c: &mut Ctx, p: &Patch<'_, [u8]>) -> Res {
    let m = view(p);
    c.traces += 1;
    for f in ALL_FMT {
        c15_patch_common(c, "bytes writer", &m, f, &write_into(&formatter(f), p))?;
    }
    c15_patch_common(c, "to_bytes", &m, PLAIN, &p.to_bytes())?;
    Ok(())
}

fn c15_str(c: &mut Ctx, p: &Patch<'_, str>) -> Res {
    let m = view(p);
    c.traces += 1;
    for f in ALL_FMT {
        let fm = formatter(f);
        c15_patch_common(c, "str writer", &m, f, &write_into(&fm, p))?;
        c15_patch_common(c, "str fmt_patch", &m, f, fm.fmt_patch(p).to_string().as_bytes())?;
    }
    c15_patch_common(c, "Display", &m, PLAIN, p.to_string().as_bytes())?;
    c15_patch_common(c, "to_bytes of str", &m, PLAIN, &p.to_bytes())?;
    Ok(())
}

fn c15_pair(c: &mut Ctx, p: &Pair, ctxs: &[usize]) -> Res {
    for &n in ctxs {
        let b = diff_opts(n).create_patch_bytes(&p.o, &p.m);
        c.outcome(&view(&b));
        c15_bytes(c, &b)?;
        c15_bytes(c, &b.reverse())?;
        if let (Some(o), Some(m)) = (S::text(&p.o), S::text(&p.m)) {
            c15_str(c, &diff_opts(n).create_patch(o, m))?;
        }
    }
    Ok(())
}

pub fn c15(t: Tier) -> Vec<Box<dyn Space>> {
    let mut v = Vec::new();
    let x = |g: Box<dyn PairGen>, ctxs: Vec<usize>| Box::new(PairSpace { gen: g, ctxs, check: c15_pair }) as Box<dyn Space>;
    v.push(x(Dense::new(3, 3, true), vec![0, 1, 3]));
    v.push(x(Skin::new(true, 2, t.pick(2, 3)), vec![0, 1]));
    v.push(x(Skin::new(false, 2, 2), vec![1]));
    v.push(x(Skin::new(true, 3, t.pick(1, 2)), vec![3]));
    v.push(x(Dense::new(2, t.pick(6, 7), true), vec![0, 2]));
    for (l, dev) in [(7, 3), (13, 2), (40, t.pick(1, 2)), (110, 1)] {
        v.push(x(Box::new(Dev { l, period: 0, fresh: true, dev, eof: l == 7, ops: DEV_OPS }), vec![0, 1, 3]));
    }
    v.push(x(BigPairs::new(t.pick(10, 13)), vec![3]));
    for g in tokens::text_gens(t) {
        let g2 = g.clone();
        v.push(space(
            format!("every accepted text among {}", g.name),
            g.len,
            move |i, c| {
                let mut b = Vec::new();
                if !(g.get)(i, &mut b) || !matches!(ref_parse(&b), Verdict::Accept(_)) {
                    c.skipped += 1;
                    return Ok(());
                }
                c.states += 1;
                c.sample(|| esc(&b));
                if let Ok(p) = B::parse(&b) {
                    c.outcome(&view(&p));
                    c15_bytes(c, &p)?;
                }
                if let Some(Ok(p)) = S::text(&b).map(S::parse) {
                    c15_str(c, &p)?;
                }
                Ok(())
            },
            move |i| {
                let mut b = Vec::new();
                (g2.get)(i, &mut b);
                esc(&b)
            },
        ));
    }
    // texts which contain style sequences themselves
    let pair = |i: u64, p: &mut Pair| {
        const L: &[&[u8]] = &[b"\x1b[31mx\n", b"\x1b[0m\n", b"\x1b\n", b"x\x1b[1m\n", b"\x1b[32mx", b"x\x1b[0m", b"\n", b"\x1b[36"];
        let n = seq_count(L.len() as u64, 2);
        let side = |i: u64, t: &mut Vec<u8>| {
            let mut s = Vec::new();
            seq(i, L.len() as u64, 2, &mut s);
            t.clear();
            for x in s {
                t.extend_from_slice(L[x as usize]);
            }
        };
        side(i / n, &mut p.o);
        side(i % n, &mut p.m);
    };
    v.push(space(
        "all pairs of texts of up to 2 of 8 pieces with style sequences; context lengths 0, 1".to_string(),
        seq_count(8, 2).pow(2),
        move |i, c| {
            let mut p = Pair::default();
            pair(i, &mut p);
            c.states += 1;
            c15_pair(c, &p, &[0, 1])
        },
        move |i| {
            let mut p = Pair::default();
            pair(i, &mut p);
            format!("{} -> {}", esc(&p.o), esc(&p.m))
        },
    ));
    // file names x presence of headers are part of the text
    v.extend(name_spaces(t, c15_names));
    v
}

fn c15_names(c: &mut Ctx, a: &str, b: &str) -> Res {
    let mut o = DiffOptions::new();
    o.set_original_filename(a.to_string()).set_modified_filename(b.to_string());
    c15_str(c, &o.create_patch("a\n", "b\n"))?;
    c15_bytes(c, &o.create_patch_bytes(b"a\n", b"b\n"))
}

// ------------------------------------------------------------------------------------------------
// C18: file names

const NAME_CHARS: &[&str] = &["a", "\"", "\\", "\n", "\t", "\r", "\0", " ", "n", "t", "0", "r", "é", "/", "-", "+", "@", "\u{2028}"];

pub type NameCheck = fn(&mut Ctx, &str, &str) -> Res;

/// Names with a meaning to some tool, with its decorations.
fn known_names() -> Vec<String> {
    let plain = [
        "", "/dev/null", "dev/null", "null", "nul", "NUL", "CON", "-", "--", "---", "+++", "--- a", "+++ b", "@@", "@@ -1 +1 @@", "/", ".", "..", "~", "*",
        "a", "b", "a/x", "b/x", "x", "a/", "b/", "./x", "../x", "/x", "c:\\x", "original", "modified", "ours", "theirs", "ancestor", "a b", " a", "a ", "a  b", "#", "%",
        "diff --git a/x b/x", "index 0..1", "Index: x", "new file", "deleted file", "rename from x", "similarity index 100%", "GIT binary patch", "Binary files differ", "Only in x",
        "\\ No newline at end of file", "<<<<<<<", "=======", ">>>>>>>", "|||||||", "<<<<<<< ours", "x.orig", "x.rej", "x\t1970-01-01 00:00:00.000000000 +0000", "x 2000-01-01",
        "x\\t", "\\", "\\n", "\\000", "\\303\\251", "\\x41", "\\u{e9}", "\"", "\"x\"", "\"x", "x\"", "'x'", "'", "`x`", "$x", "${x}", "{}", "{0}", "%s", "-1,2 +3", "0", "1,1",
        "\u{feff}", "\u{feff}x", "e\u{301}", "\u{e9}", "\u{202e}x", "\u{1f600}", "x\r", "x\n", "\nx", "\n", "\r\n", "\t", "x\0", "\0", "null\0", "x\u{b}", "x\u{c}", "\u{7f}", "\u{1b}[31m", "\u{1b}[0m",
    ];
    plain.iter().map(|x| x.to_string()).chain(["a/", "b/"].iter().flat_map(|p| ["\"", "\n", "dev/null", "/dev/null", " "].map(|x| format!("{p}{x}")))).collect()
}

fn name_of(i: u64, n: u32) -> String {
    let mut s = Vec::new();
    seq(i, NAME_CHARS.len() as u64, n, &mut s);
    s.iter().map(|x| NAME_CHARS[*x as usize]).collect()
}

pub fn name_spaces(t: Tier, check: NameCheck) -> Vec<Box<dyn Space>> {
    let k = NAME_CHARS.len() as u64;
    let mk = move |name: String, len: u64, f: std::sync::Arc<dyn Fn(u64) -> Option<(String, String)> + Sync + Send>| {
        let g = f.clone();
        space(
            name,
            len,
            move |i, c| {
                let Some((a, b)) = f(i) else {
                    c.skipped += 1;
                    return Ok(());
                };
                c.states += 1;
                c.traces += 1;
                c.outcome(&(&a, &b));
                c.sample(|| format!("original name {} modified name {}", esc(a.as_bytes()), esc(b.as_bytes())));
                check(c, &a, &b)
            },
            move |i| match g(i) {
                Some((a, b)) => format!("original name {} modified name {}", esc(a.as_bytes()), esc(b.as_bytes())),
                None => "not a case".into(),
            },
        )
    };
    let n = t.pick(4, 5);
    let pairs = seq_count(k, 2);
    let points: Vec<char> = (0..=0x10ffffu32).filter_map(char::from_u32).collect();
    let points = std::sync::Arc::new(if t == Tier::Quick { points.into_iter().filter(|c| (*c as u32) < 0x3100 || (*c as u32) % 97 == 0 || (*c as u32) >= 0x10fff0).collect() } else { points });
    let np = points.len() as u64;
    let long = t.pick(300u64, 1100);
    const TAILS: &[usize] = &[0, 1, 2, 30, 100, 300, 5000];
    let mut ats: Vec<usize> = (0..=130).collect();
    ats.extend(around_powers(8, 16));
    ats.extend([200, 250, 260, 300, 400, 500, 1000, 3000, 5000, 10000]);
    let ats = std::sync::Arc::new(ats);
    let ats2 = ats.clone();
    let known = std::sync::Arc::new(known_names());
    let nk = known.len() as u64;
    vec![
        mk(format!("all pairs of {nk} names that mean something to some tool"), nk * nk, std::sync::Arc::new(move |i| Some((known[(i / nk) as usize].clone(), known[(i % nk) as usize].clone())))),
        mk(format!("names with each of {} tokens that are UTF-8: alone, first, last, inside, doubled, and against itself", tokens().len()), tokens().len() as u64 * 6, std::sync::Arc::new(move |i| {
            let t = std::str::from_utf8(&tokens()[(i / 6) as usize]).ok()?;
            Some(match i % 6 {
                0 => (t.to_string(), "m".into()),
                1 => ("o".into(), t.to_string()),
                2 => (format!("{t}x"), format!("x{t}")),
                3 => (format!("x{t}y"), format!("{t}{t}")),
                4 => (t.to_string(), t.to_string()),
                _ => (format!("\"{t}"), format!("{t}\"")),
            })
        })),
        mk(format!("all pairs of names over {k} characters, length<=2"), pairs * pairs, std::sync::Arc::new(move |i| Some((name_of(i / pairs, 2), name_of(i % pairs, 2))))),
        mk(format!("all names over {k} characters, length<={n}, against a plain name, on either side"), seq_count(k, n) * 2, std::sync::Arc::new(move |i| {
            let x = name_of(i / 2, n);
            Some(if i % 2 == 0 { (x, "b".into()) } else { ("a".into(), x) })
        })),
        mk(format!("{np} Unicode scalar values: alone, first, last, inside, doubled, next to a quote"), np * 6, std::sync::Arc::new(move |i| {
            let c = points[(i / 6) as usize];
            let x = match i % 6 {
                0 => format!("{c}"),
                1 => format!("{c}x"),
                2 => format!("x{c}"),
                3 => format!("x{c}y"),
                4 => format!("{c}{c}"),
                _ => format!("\"{c}"),
            };
            Some((x.clone(), x))
        })),
        mk(format!("long names: lengths 0..{long}, every character repeated"), long * 6, std::sync::Arc::new(move |i| {
            let x: String = NAME_CHARS[(i % 6) as usize].repeat((i / 6) as usize);
            Some((x, "m".into()))
        })),
        mk(format!("long names: one or two special characters, after {} and before {} plain ones", ats2.len(), TAILS.len()), (ats2.len() * TAILS.len() * 24) as u64, std::sync::Arc::new(move |i| {
            let i = i as usize;
            let c = NAME_CHARS[1 + i % 12];
            let two = i / 12 % 2 == 1;
            let tail = TAILS[i / 24 % TAILS.len()];
            let at = ats[i / 24 / TAILS.len()];
            let x = format!("{}{c}{}{}", "x".repeat(at), "y".repeat(tail), if two { c } else { "" });
            // on either side
            Some(if tail % 3 == 1 { ("m".into(), x) } else { (x, "m".into()) })
        })),
    ]
}

fn one_name<A: Api>(c: &mut Ctx, p: &Patch<'_, A::T>, a: &[u8], b: &[u8], texts: &[Vec<u8>]) -> Res {
    let v = view(p);
    ensure!(v.orig.as_deref() == Some(a) && v.modi.as_deref() == Some(b), "{}: the patch reports {:?} and {:?}", A::NAME, v.orig.as_deref().map(esc), v.modi.as_deref().map(esc));
    for t in texts {
        c.step(1);
        let l = split_lines(t);
        ensure!(
            l.len() >= 2 && l[0].starts_with(b"--- ") && l[1].starts_with(b"+++ ") && l.get(2).map_or(true, |x| x.starts_with(b"@@ ")),
            "{}: the headers are not one line each: {}", A::NAME, esc(t)
        );
        let Some(tt) = A::text(t) else { fail!("{}: invalid UTF-8", A::NAME) };
        match A::parse(tt) {
            Err(e) => fail!("{}: {} does not parse: {e}", A::NAME, esc(t)),
            Ok(q) => {
                let w = view(&q);
                ensure!(w.orig.as_deref() == Some(a) && w.modi.as_deref() == Some(b), "{}: {} parses to the names {:?} and {:?}", A::NAME, esc(t), w.orig.as_deref().map(esc), w.modi.as_deref().map(esc));
                ensure!(w.hunks == v.hunks, "{}: {} parses to other hunks", A::NAME, esc(t));
            }
        }
    }
    Ok(())
}

fn c18_names(c: &mut Ctx, a: &str, b: &str) -> Res {
    let mut o = DiffOptions::new();
    o.set_original_filename(a.to_string()).set_modified_filename(b.to_string());
    // as borrowed static strings: other types, same names
    let (sa, sb) = (lasting(a), lasting(b));
    let mut q = DiffOptions::new();
    q.set_original_filename(sa).set_modified_filename(std::borrow::Cow::Borrowed(sb));
    let (p, r) = (q.create_patch("a\n", "b\n"), q.create_patch_bytes(b"a\n", b"b\n"));
    one_name::<S>(c, &p, a.as_bytes(), b.as_bytes(), &[p.to_string().into_bytes()])?;
    one_name::<B>(c, &r, a.as_bytes(), b.as_bytes(), &[r.to_bytes()])?;
    for (x, y) in [("a\n", "b\n"), ("", ""), ("", "b\n"), ("a\n", "")] {
        let s = o.create_patch(x, y);
        let texts = [s.to_string().into_bytes(), s.to_bytes(), formatter(NO_SUPPRESS).fmt_patch(&s).to_string().into_bytes(), write_into(&formatter(NO_SUPPRESS), &s)];
        one_name::<S>(c, &s, a.as_bytes(), b.as_bytes(), &texts)?;
        let r = s.reverse();
        one_name::<S>(c, &r, b.as_bytes(), a.as_bytes(), &[r.to_string().into_bytes()])?;
        let p = o.create_patch_bytes(x.as_bytes(), y.as_bytes());
        one_name::<B>(c, &p, a.as_bytes(), b.as_bytes(), &[p.to_bytes(), write_into(&formatter(NO_SUPPRESS), &p)])?;
    }
    Ok(())
}

/// A copy that lives until the next but one call in this thread.
fn lasting(s: &str) -> &'static str {
    use std::cell::RefCell;
    thread_local! {
        static KEPT: RefCell<Vec<Box<str>>> = const { RefCell::new(Vec::new()) };
    }
    KEPT.with(|k| {
        let mut k = k.borrow_mut();
        k.push(s.into());
        if k.len() > 4 {
            k.remove(0);
        }
        // SAFETY: only the patches of the same case refer to it
        unsafe { &*(&**k.last().unwrap() as *const str) }
    })
}

/// Names that come from parsing, as raw header bytes.
fn c18_raw(c: &mut Ctx, raw: &[u8]) -> Res {
    for two in [false, true] {
        let mut t = b"--- ".to_vec();
        t.extend_from_slice(raw);
        t.extend_from_slice(b"\n");
        if two {
            t.extend_from_slice(b"+++ m\n");
        }
        t.extend_from_slice(b"@@ -1 +1 @@\n-a\n+b\n");
        c.step(1);
        let Ok(p) = B::parse(&t) else { continue };
        let f = p.to_bytes();
        match B::parse(&f) {
            Err(e) => fail!("bytes: {} parses, but its formatted form {} does not: {e}", esc(&t), esc(&f)),
            Ok(q) => ensure!(q == p, "bytes: {} parses to {:?}, its formatted form {} to {:?}", esc(&t), view(&p), esc(&f), view(&q)),
        }
        c.traces += 1;
        if let Some(Ok(p)) = S::text(&t).map(S::parse) {
            let f = p.to_string();
            match S::parse(&f) {
                Err(e) => fail!("str: {} parses, but its formatted form {} does not: {e}", esc(&t), esc(f.as_bytes())),
                Ok(q) => ensure!(q == p, "str: {} parses to {:?}, its formatted form {} to {:?}", esc(&t), view(&p), esc(f.as_bytes()), view(&q)),
            }
        }
    }
    Ok(())
}

pub fn c18(t: Tier) -> Vec<Box<dyn Space>> {
    let mut v = name_spaces(t, c18_names);
    const RAW: &[&[u8]] = &[b"a", b"\"", b"\\", b"n", b"t", b"0", b"r", b"\t", b" ", b"\xff", b"\xc3", b"\xa9", b"\0", b"\r"];
    let (k, n) = (RAW.len() as u64, t.pick(5, 6));
    let get = move |i: u64| -> Vec<u8> {
        let mut s = Vec::new();
        seq(i, k, n, &mut s);
        s.iter().flat_map(|x| RAW[*x as usize].iter().copied()).collect()
    };
    v.push(space(
        format!("all header texts over {k} bytes, length<={n}, as read by the parser (including non-UTF-8 names)"),
        seq_count(k, n),
        move |i, c| {
            let r = get(i);
            c.states += 1;
            c.outcome(&r);
            c18_raw(c, &r)
        },
        move |i| format!("header text {}", esc(&get(i))),
    ));
    v
}

// ------------------------------------------------------------------------------------------------
// C16: sinks

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Answer {
    /// accept one byte only
    One,
    /// accept half of the buffer
    Half,
    Interrupted,
    Zero,
    Fail,
    /// interrupted, as the system says it
    Eintr,
    /// other kinds of failure
    Kind(u8),
}
const ANSWERS: [Answer; 5] = [Answer::One, Answer::Half, Answer::Interrupted, Answer::Zero, Answer::Fail];
const KINDS: u8 = 11;
const MORE_ANSWERS: [Answer; 1 + KINDS as usize] = {
    let mut v = [Answer::Eintr; 1 + KINDS as usize];
    let mut i = 0;
    while i < KINDS {
        v[1 + i as usize] = Answer::Kind(i);
        i += 1;
    }
    v
};

fn failure(k: u8) -> std::io::Error {
    use std::io::{Error, ErrorKind::*};
    match k {
        0 => WouldBlock.into(),
        1 => TimedOut.into(),
        2 => BrokenPipe.into(),
        3 => UnexpectedEof.into(),
        4 => Error::new(WriteZero, "sink writes zero"),
        5 => Error::other("sink has other troubles"),
        6 => OutOfMemory.into(),
        7 => Error::from_raw_os_error(28), // no space left
        8 => Error::from_raw_os_error(11), // try again
        9 => InvalidInput.into(),
        _ => Unsupported.into(),
    }
}

fn same_error(x: &std::io::Error, y: &std::io::Error) -> bool {
    x.kind() == y.kind() && x.raw_os_error() == y.raw_os_error() && x.to_string() == y.to_string()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Base {
    All,
    One,
    Three,
    /// at most 4096 bytes at once
    Chunk,
}

struct Sink {
    base: Base,
    plan: [(usize, Answer); 3],
    used: usize,
    calls: usize,
    got: Vec<u8>,
    dead: Option<Answer>,
    after_death: usize,
}

impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = self.calls;
        self.calls += 1;
        if self.dead.is_some() {
            self.after_death += 1;
        }
        let take = |s: &mut Sink, n: usize| {
            s.got.extend_from_slice(&b[..n]);
            Ok(n)
        };
        if b.is_empty() {
            return Ok(0);
        }
        match self.plan[..self.used].iter().find(|p| p.0 == k).map(|p| p.1) {
            Some(Answer::One) => take(self, 1),
            Some(Answer::Half) => take(self, b.len().div_ceil(2)),
            Some(Answer::Interrupted) => Err(std::io::ErrorKind::Interrupted.into()),
            Some(Answer::Eintr) => Err(std::io::Error::from_raw_os_error(4)),
            Some(Answer::Kind(k)) => {
                self.dead = Some(Answer::Kind(k));
                Err(failure(k))
            }
            Some(Answer::Zero) => {
                self.dead = Some(Answer::Zero);
                Ok(0)
            }
            Some(Answer::Fail) => {
                self.dead = Some(Answer::Fail);
                Err(std::io::Error::new(std::io::ErrorKind::PermissionDenied, "sink says no"))
            }
            None => match self.base {
                Base::All => take(self, b.len()),
                Base::One => take(self, 1),
                Base::Three => take(self, b.len().min(3)),
                Base::Chunk => take(self, b.len().min(4096)),
            },
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct TextSink {
    fail_at: usize,
    calls: usize,
    got: String,
    after: usize,
}
impl std::fmt::Write for TextSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.calls += 1;
        if self.calls > self.fail_at {
            self.after += 1;
        }
        if self.calls - 1 == self.fail_at {
            return Err(std::fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

const SINK_PATCHES: &[&str] = &[
    "",
    "--- a\n+++ b\n@@ -1 +1 @@\n-x\n+y\n",
    "@@ -1,2 +1,2 @@\n-x\n+yy\n z\n",
    "--- \"a\\\"b\\n\"\n@@ -0,0 +1,2 @@ fn\n+x\n+y\n\\ No newline at end of file\n",
    "+++ \"\\0\\t\"\n@@ -1,3 +1 @@\n \n-b\n-c\n@@ -10,2 +8,2 @@ long context\n x\n-1\n\\ No newline at end of file\n+2\n\\ No newline at end of file\n",
    "--- o\n+++ m\n@@ -1,4 +1,3 @@\n a\n\n-b\n c\n",
];

struct Starts(Vec<usize>);
impl std::io::Write for Starts {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.push(self.0[self.0.len() - 1] + b.len());
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn long_patches() -> Vec<String> {
    let mut v = Vec::new();
    for (n, w) in [(1000usize, 8usize), (6000, 10)] {
        // one hunk of many lines
        let body: String = (0..n).map(|i| format!("{}{i:0w$}\n", ["-", "+", " "][i % 3])).collect();
        let (o, m) = ((0..n).filter(|i| i % 3 != 1).count(), (0..n).filter(|i| i % 3 != 0).count());
        v.push(format!("--- a\n+++ b\n@@ -1,{o} +1,{m} @@ f\n{body}"));
    }
    // many hunks
    v.push((0..600).map(|i| format!("@@ -{0},2 +{0},2 @@ f\n\n-a\n+b\n", 10 * i + 1)).collect());
    // long lines
    for n in [8190usize, 20_000, 70_000] {
        v.push(format!("--- a\n+++ b\n@@ -1,2 +1 @@ {}\n {}\n-{}\n\\ No newline at end of file\n", "f".repeat(n / 7), "c".repeat(n), "d".repeat(n / 2)));
    }
    v.push(format!("--- \"{}\"\n+++ b\n@@ -1 +1 @@\n-a\n+b\n", "\\n\\\"xy".repeat(2500)));
    v
}

fn drive(p: &Patch<'_, [u8]>, f: &diffy::PatchFormatter, base: Base, plan: [(usize, Answer); 3], used: usize) -> (Sink, std::io::Result<()>) {
    let mut s = Sink { base, plan, used, calls: 0, got: Vec::new(), dead: None, after_death: 0 };
    let r = f.write_patch_into(p, &mut s);
    (s, r)
}

fn judge(s: &Sink, r: &std::io::Result<()>, full: &[u8]) -> Res {
    ensure!(full.starts_with(&s.got), "delivered {} which is not a prefix of {}", esc(&s.got), esc(full));
    match (r, s.dead) {
        (Ok(()), None) => ensure!(s.got == full, "success, but only {} of {} bytes were delivered", s.got.len(), full.len()),
        (Ok(()), Some(a)) => ensure!(s.got == full && s.after_death == 0, "success although the sink answered {a:?}, {} of {} bytes delivered", s.got.len(), full.len()),
        (Err(e), None) => fail!("error {e:?} although the sink never failed"),
        (Err(e), Some(Answer::Zero)) => ensure!(e.kind() == std::io::ErrorKind::WriteZero, "sink accepted nothing, error is {e:?}"),
        (Err(e), Some(Answer::Kind(k))) => ensure!(same_error(e, &failure(k)), "the sink's error {:?} became {e:?}", failure(k)),
        (Err(e), Some(_)) => ensure!(e.kind() == std::io::ErrorKind::PermissionDenied && e.to_string() == "sink says no", "the sink's error became {e:?}"),
    }
    ensure!(s.after_death == 0, "{} more write calls after the failure", s.after_death);
    Ok(())
}

/// All plans with up to `depth` deviations, each deviation after the previous one.
#[allow(clippy::too_many_arguments)]
fn plans(c: &mut Ctx, p: &Patch<'_, [u8]>, f: &diffy::PatchFormatter, full: &[u8], base: Base, plan: [(usize, Answer); 3], used: usize, depth: usize) -> Res {
    let (s, r) = drive(p, f, base, plan, used);
    c.states += 1;
    c.traces += 1;
    c.step(s.calls as u64);
    c.outcome(&(s.got.len(), s.calls, r.is_ok()));
    c.cat(match (&r, s.dead) {
        (Ok(()), _) => "delivered completely",
        (_, Some(Answer::Zero)) => "write-zero reported",
        _ => "sink's error reported",
    });
    judge(&s, &r, full).map_err(|e| format!("sink {base:?} with answers {:?}: {e}", &plan[..used]))?;
    if used == depth || s.dead.is_some() {
        return Ok(());
    }
    let from = if used == 0 { 0 } else { plan[used - 1].0 + 1 };
    for k in from..s.calls {
        let more = if used == 0 { &MORE_ANSWERS[..] } else { &[] };
        for a in ANSWERS.iter().chain(more) {
            let mut q = plan;
            q[used] = (k, *a);
            plans(c, p, f, full, base, q, used + 1, depth)?;
        }
    }
    Ok(())
}

pub fn c16(t: Tier) -> Vec<Box<dyn Space>> {
    let mut v: Vec<Box<dyn Space>> = Vec::new();
    let bases = [Base::All, Base::Three, Base::One];
    let n = SINK_PATCHES.len() as u64 * 8 * 3;
    let dec = move |i: u64| (SINK_PATCHES[(i / 24) as usize], ALL_FMT[(i % 24 / 3) as usize], bases[(i % 3) as usize]);
    v.push(space(
        format!("{} patches x 8 formatter settings x 3 sink habits x all answer sequences with up to 3 deviations of 5 kinds (2 for the longer ones)", SINK_PATCHES.len()),
        n,
        move |i, c| {
            let (text, f, base) = dec(i);
            let Ok(p) = Patch::from_bytes(text.as_bytes()) else { return Ok(()) };
            let fm = formatter(f);
            let full = write_into(&fm, &p);
            let depth = match (t, base) {
                (Tier::Quick, Base::All) if full.len() < 110 => 3,
                (Tier::Thorough, Base::All) => 3,
                (Tier::Thorough, _) if full.len() < 120 => 3,
                _ => 2,
            };
            c.sample(|| format!("{} {f:?} {base:?}", esc(text.as_bytes())));
            plans(c, &p, &fm, &full, base, [(0, Answer::One); 3], 0, depth)
        },
        move |i| format!("{:?}", dec(i)),
    ));
    let n = SINK_PATCHES.len() as u64 * 8;
    let dec = move |i: u64| (SINK_PATCHES[(i / 8) as usize], ALL_FMT[(i % 8) as usize]);
    v.push(space(
        format!("{} patches x 8 formatter settings (and Display) x a text sink that fails at every call", SINK_PATCHES.len()),
        n,
        move |i, c| {
            use std::fmt::Write;
            let (text, f) = dec(i);
            let Ok(p) = Patch::from_str(text) else { return Ok(()) };
            let fm = formatter(f);
            for display in [false, true] {
                let full = if display { p.to_string() } else { fm.fmt_patch(&p).to_string() };
                let mut k = 0;
                loop {
                    let mut s = TextSink { fail_at: k, calls: 0, got: String::new(), after: 0 };
                    let r = if display { write!(s, "{p}") } else { write!(s, "{}", fm.fmt_patch(&p)) };
                    c.states += 1;
                    c.traces += 1;
                    c.step(s.calls as u64);
                    c.outcome(&(display, k, s.got.len()));
                    ensure!(full.starts_with(&s.got), "text sink failing at call {k}: got {} which is no prefix", esc(s.got.as_bytes()));
                    if s.calls > k {
                        ensure!(r.is_err(), "text sink failing at call {k}: the error is swallowed");
                        ensure!(s.after == 1, "text sink failing at call {k}: {} calls after the failure", s.after - 1);
                        k += 1;
                    } else {
                        ensure!(r.is_ok() && s.got == full, "text sink that never fails: error or incomplete text");
                        break;
                    }
                }
            }
            Ok(())
        },
        move |i| format!("{:?}", dec(i)),
    ));
    // the same temporary answer many times in a row, from every call on; then a failure or none
    let runs: Vec<usize> = t.pick(vec![2, 3, 4, 5, 8, 10, 16, 17, 33, 100, 129, 257, 1000, 1025], vec![2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 20, 32, 33, 50, 64, 65, 100, 101, 128, 129, 255, 256, 257, 500, 1000, 1024, 1025, 5000, 10000, 65537]);
    let rn = runs.len() as u64;
    let n = SINK_PATCHES.len() as u64 * 4 * 2 * rn * 2;
    let dec = move |i: u64| {
        let (x, i) = (SINK_PATCHES[(i % SINK_PATCHES.len() as u64) as usize], i / SINK_PATCHES.len() as u64);
        (x, ALL_FMT[(i % 4) as usize * 2], [Base::All, Base::Three][(i / 4 % 2) as usize], i / 8 % 2 == 1, (i / 16) as usize)
    };
    let r2 = runs.clone();
    v.push(space(
        format!("{} patches x 4 formatter settings x 2 sink habits x runs of interruptions of lengths up to {} from every call on, then a failure or not", SINK_PATCHES.len(), runs[runs.len() - 1]),
        n,
        move |i, c| {
            struct Tired {
                from: usize,
                n: usize,
                fails: bool,
                s: Sink,
                calls: usize,
            }
            impl std::io::Write for Tired {
                fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                    let k = self.calls;
                    self.calls += 1;
                    if (self.from..self.from + self.n).contains(&k) {
                        return Err(std::io::ErrorKind::Interrupted.into());
                    }
                    if self.fails && k == self.from + self.n {
                        self.s.plan[0] = (self.s.calls, Answer::Fail);
                        self.s.used = 1;
                    }
                    self.s.write(b)
                }
                fn flush(&mut self) -> std::io::Result<()> {
                    Ok(())
                }
            }
            let (text, f, base, fails, run) = dec(i);
            let Ok(p) = Patch::from_bytes(text.as_bytes()) else { return Ok(()) };
            let fm = formatter(f);
            let full = write_into(&fm, &p);
            let (s, _) = drive(&p, &fm, base, [(0, Answer::One); 3], 0);
            for k in 0..s.calls {
                let s = Sink { base, plan: [(0, Answer::One); 3], used: 0, calls: 0, got: Vec::new(), dead: None, after_death: 0 };
                let mut s = Tired { from: k, n: runs[run], fails, s, calls: 0 };
                let r = fm.write_patch_into(&p, &mut s);
                c.states += 1;
                c.traces += 1;
                c.step(s.calls as u64);
                c.outcome(&(s.s.got.len(), s.calls, r.is_ok()));
                judge(&s.s, &r, &full).map_err(|e| format!("{f:?} sink {base:?} interrupted {} times at call {k}{}: {e}", runs[run], if fails { ", then failing" } else { "" }))?;
            }
            Ok(())
        },
        move |i| {
            let (text, f, base, fails, run) = dec(i);
            format!("{text:?} {f:?} {base:?} {} interruptions, failing {fails}", r2[run])
        },
    ));
    // long texts: one deviation at every call (thorough), or at every call near the ends and near
    // the places where a power of two of bytes has been delivered (quick)
    let long = std::sync::Arc::new(long_patches());
    let l2 = long.clone();
    let n = long.len() as u64 * 4 * 2 * ANSWERS.len() as u64;
    let dec = move |i: u64| (i / 40, ALL_FMT[(i / 10 % 4) as usize * 2], [Base::All, Base::Chunk][(i / 5 % 2) as usize], ANSWERS[(i % 5) as usize]);
    v.push(space(
        format!("{} texts of 8 to 150 KiB x 4 formatter settings x 2 sink habits x one deviation of 5 kinds at {}", long.len(), t.pick("the calls near the ends and near powers of two of bytes", "every call")),
        n,
        move |i, c| {
            let (k, f, base, a) = dec(i);
            let Ok(p) = Patch::from_bytes(long[k as usize].as_bytes()) else { return Ok(()) };
            let fm = formatter(f);
            let full = write_into(&fm, &p);
            // where each call starts
            let mut starts = Starts(vec![0]);
            fm.write_patch_into(&p, &mut starts).map_err(|e| e.to_string())?;
            let (s, r) = drive(&p, &fm, base, [(0, a); 3], 0);
            judge(&s, &r, &full).map_err(|e| format!("{f:?} sink {base:?}: {e}"))?;
            let near = |k: usize| {
                let at = starts.0.get(k).copied().unwrap_or(full.len());
                k < 20 || k + 20 > s.calls || (10..18).any(|e| at.abs_diff(1 << e) < 30) || at % 8192 < 20
            };
            for k in 0..s.calls {
                if t == Tier::Quick && !near(k) {
                    continue;
                }
                let (s, r) = drive(&p, &fm, base, [(k, a); 3], 1);
                c.states += 1;
                c.traces += 1;
                c.step(s.calls as u64);
                c.outcome(&(s.got.len(), s.calls, r.is_ok()));
                judge(&s, &r, &full).map_err(|e| format!("{f:?} sink {base:?} answering {a:?} to call {k}: {e}"))?;
            }
            Ok(())
        },
        move |i| {
            let (k, f, base, a) = dec(i);
            format!("text of {} bytes {f:?} {base:?} {a:?}", l2[k as usize].len())
        },
    ));
    // sinks met by real diffs: every budget of bytes (the sink fails when it is used up)
    let cases = big_cases(8);
    let n = cases.len() as u64;
    let cs = std::sync::Arc::new(cases);
    let cs2 = cs.clone();
    v.push(space(
        "size ladder of diffs, a sink that is full after every byte count of a ladder",
        n,
        move |i, c| {
            let mut p = Pair::default();
            if !big_pair(cs[i as usize], &mut p) {
                c.skipped += 1;
                return Ok(());
            }
            let patch = diff_opts(3).create_patch_bytes(&p.o, &p.m);
            let fm = formatter(PLAIN);
            let full = patch.to_bytes();
            let step = (full.len() / 40).max(1);
            for budget in (0..=full.len()).step_by(step).chain([full.len()]) {
                struct Full(Vec<u8>, usize, usize);
                impl std::io::Write for Full {
                    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                        let n = b.len().min(self.1 - self.0.len());
                        if n == 0 && !b.is_empty() {
                            self.2 += 1;
                        }
                        self.0.extend_from_slice(&b[..n]);
                        Ok(n)
                    }
                    fn flush(&mut self) -> std::io::Result<()> {
                        Ok(())
                    }
                }
                let mut s = Full(Vec::new(), budget, 0);
                let r = fm.write_patch_into(&patch, &mut s);
                c.states += 1;
                c.traces += 1;
                c.step(1);
                ensure!(s.0 == full[..budget], "sink of {budget} bytes: wrong bytes delivered");
                ensure!(s.2 <= 1, "sink of {budget} bytes: written to after it was full");
                match r {
                    Ok(()) => ensure!(budget == full.len(), "sink of {budget} bytes: success although {} bytes are needed", full.len()),
                    Err(e) => ensure!(budget < full.len() && e.kind() == std::io::ErrorKind::WriteZero, "sink of {budget} bytes: {e:?}"),
                }
            }
            Ok(())
        },
        move |i| format!("{:?}", cs2[i as usize]),
    ));
    v
}
