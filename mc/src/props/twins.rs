//! C07: the str and the bytes API agree.

use crate::api::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::props::merge::STYLES;
use crate::props::tokens;
use crate::{ensure, fail};
use diffy::Patch;

fn texts_agree(c: &mut Ctx, what: &str, s: &Patch<'_, str>, b: &Patch<'_, [u8]>) -> Res {
    c.step(20);
    let (vs, vb) = (view(s), view(b));
    ensure!(vs == vb, "{what}: str gives {vs:?}, bytes gives {vb:?}");
    let (ts, tb) = (s.to_string(), b.to_bytes());
    ensure!(ts.as_bytes() == tb, "{what}: Display gives {}, to_bytes {}", esc(ts.as_bytes()), esc(&tb));
    ensure!(s.to_bytes() == tb, "{what}: to_bytes of the str patch gives {}, of the bytes patch {}", esc(&s.to_bytes()), esc(&tb));
    for f in ALL_FMT {
        let fm = formatter(f);
        let w = [fm.fmt_patch(s).to_string().into_bytes(), write_into(&fm, s), write_into(&fm, b)];
        ensure!(w[0] == w[1], "{what} {f:?}: fmt_patch gives {}, write_patch_into {}", esc(&w[0]), esc(&w[1]));
        ensure!(w[1] == w[2], "{what} {f:?}: write_patch_into gives {} for str, {} for bytes", esc(&w[1]), esc(&w[2]));
    }
    Ok(())
}

fn apply_agrees(c: &mut Ctx, what: &str, base: &[u8], s: &Patch<'_, str>, b: &Patch<'_, [u8]>) -> Res {
    let Some(t) = S::text(base) else { return Ok(()) };
    c.step(2);
    let (rs, rb) = (S::apply(t, s), B::apply(base, b));
    c.outcome(&rb);
    ensure!(rs == rb, "{what}: apply to {} gives {:?}, apply_bytes {:?}", esc(base), rs.as_deref().map(esc), rb.as_deref().map(esc));
    Ok(())
}

fn c07_pair(c: &mut Ctx, p: &Pair, ctxs: &[usize]) -> Res {
    let (Some(o), Some(m)) = (S::text(&p.o), S::text(&p.m)) else {
        c.skipped += 1;
        return Ok(());
    };
    for &n in ctxs {
        let d = diff_opts(n);
        let (s, b) = (d.create_patch(o, m), d.create_patch_bytes(&p.o, &p.m));
        c.traces += 1;
        texts_agree(c, &format!("context {n}"), &s, &b)?;
        let (rs, rb) = (s.reverse(), b.reverse());
        ensure!(view(&rs) == view(&rb), "context {n}: the reverses differ: {:?} and {:?}", view(&rs), view(&rb));
        // to the right text and to wrong ones
        for base in [&p.o, &p.m] {
            apply_agrees(c, &format!("context {n}"), base, &s, &b)?;
            apply_agrees(c, &format!("context {n}, reverse"), base, &rs, &rb)?;
        }
        if p.o.len() < 4000 {
            let mut x = b"zz\n".to_vec();
            x.extend_from_slice(&p.o);
            apply_agrees(c, &format!("context {n}, shifted"), &x, &s, &b)?;
            x.pop();
            apply_agrees(c, &format!("context {n}, shifted and cut"), &x, &s, &b)?;
            apply_agrees(c, &format!("context {n}, empty base"), b"", &s, &b)?;
        }
    }
    let (s, b) = (diffy::create_patch(o, m), diffy::create_patch_bytes(&p.o, &p.m));
    ensure!(view(&s) == view(&b), "create_patch gives {:?}, create_patch_bytes {:?}", view(&s), view(&b));
    Ok(())
}

fn c07_triple(c: &mut Ctx, p: &Triple) -> Res {
    let (Some(o), Some(a), Some(b)) = (S::text(&p.o), S::text(&p.a), S::text(&p.b)) else {
        c.skipped += 1;
        return Ok(());
    };
    for (marker, diff3) in STYLES {
        let m = merge_opts(marker, diff3);
        let (s, t) = (S::merge(&m, o, a, b), B::merge(&m, &p.o, &p.a, &p.b));
        c.step(2);
        c.outcome(&t);
        ensure!(s == t, "marker {marker} diff3 {diff3}: merge gives {:?}, merge_bytes {:?}", show(&s), show(&t));
    }
    c.traces += 1;
    let (s, t) = (
        diffy::merge(o, a, b).map(String::into_bytes).map_err(String::into_bytes),
        diffy::merge_bytes(&p.o, &p.a, &p.b),
    );
    ensure!(s == t, "merge gives {:?}, merge_bytes {:?}", show(&s), show(&t));
    Ok(())
}

fn show(r: &Result<Vec<u8>, Vec<u8>>) -> Result<String, String> {
    r.as_ref().map(|x| esc(x)).map_err(|x| esc(x))
}

fn c07_text(c: &mut Ctx, t: &[u8]) -> Res {
    let Some(tt) = S::text(t) else {
        c.skipped += 1;
        return Ok(());
    };
    c.states += 1;
    c.traces += 1;
    c.step(2);
    match (S::parse(tt), B::parse(t)) {
        (Ok(s), Ok(b)) => {
            c.cat("both accept");
            c.outcome(&view(&b));
            texts_agree(c, "parsed", &s, &b)?;
            for base in [&b""[..], b"a\n", b"a\nb\n", b"b\na\na\nb\nc\n"] {
                apply_agrees(c, "parsed", base, &s, &b)?;
            }
            Ok(())
        }
        (Err(x), Err(y)) => {
            c.cat("both reject");
            c.outcome(&x);
            c.outcome(&y);
            Ok(())
        }
        (Ok(_), Err(e)) => fail!("from_str accepts it, from_bytes reports {e}"),
        (Err(e), Ok(_)) => fail!("from_bytes accepts it, from_str reports {e}"),
    }
}

fn c07_name(c: &mut Ctx, a: &str, b: &str) -> Res {
    let mut o = diffy::DiffOptions::new();
    o.set_original_filename(a.to_string()).set_modified_filename(b.to_string());
    let (s, t) = (o.create_patch("a\n", "b\n"), o.create_patch_bytes(b"a\n", b"b\n"));
    texts_agree(c, "named", &s, &t)
}

pub fn c07(t: Tier) -> Vec<Box<dyn Space>> {
    let mut v = super::text::name_spaces(t, c07_name);
    v.extend(tokens::text_spaces(tokens::parse_gens(t), c07_text));
    v.extend(pair_spaces(t, -1, c07_pair));
    v.extend(triple_spaces(t, -1, c07_triple));
    v
}
