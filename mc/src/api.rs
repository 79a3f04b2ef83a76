//! The two API variants behind one interface, so that every check runs on both.

use crate::model::TextLike;
use diffy::{DiffOptions, MergeOptions, Patch, PatchFormatter};

pub trait Api {
    type T: ?Sized + ToOwned + TextLike + AsRef<[u8]> + PartialEq + 'static;
    const NAME: &'static str;
    /// None: not representable in this variant
    fn text(b: &[u8]) -> Option<&Self::T>;
    fn create<'a>(o: &DiffOptions, a: &'a Self::T, b: &'a Self::T) -> Patch<'a, Self::T>;
    fn apply(base: &Self::T, p: &Patch<'_, Self::T>) -> Result<Vec<u8>, String>;
    fn parse(t: &Self::T) -> Result<Patch<'_, Self::T>, String>;
    /// `to_string` / `to_bytes`
    fn show(p: &Patch<'_, Self::T>) -> Vec<u8>;
    fn merge(m: &MergeOptions, o: &Self::T, a: &Self::T, b: &Self::T) -> Result<Vec<u8>, Vec<u8>>;
}

pub struct S;
pub struct B;

impl Api for S {
    type T = str;
    const NAME: &'static str = "str";
    fn text(b: &[u8]) -> Option<&str> {
        std::str::from_utf8(b).ok()
    }
    fn create<'a>(o: &DiffOptions, a: &'a str, b: &'a str) -> Patch<'a, str> {
        o.create_patch(a, b)
    }
    fn apply(base: &str, p: &Patch<'_, str>) -> Result<Vec<u8>, String> {
        diffy::apply(base, p).map(String::into_bytes).map_err(|e| e.to_string())
    }
    fn parse(t: &str) -> Result<Patch<'_, str>, String> {
        Patch::from_str(t).map_err(|e| e.to_string())
    }
    fn show(p: &Patch<'_, str>) -> Vec<u8> {
        p.to_string().into_bytes()
    }
    fn merge(m: &MergeOptions, o: &str, a: &str, b: &str) -> Result<Vec<u8>, Vec<u8>> {
        m.merge(o, a, b).map(String::into_bytes).map_err(String::into_bytes)
    }
}

impl Api for B {
    type T = [u8];
    const NAME: &'static str = "bytes";
    fn text(b: &[u8]) -> Option<&[u8]> {
        Some(b)
    }
    fn create<'a>(o: &DiffOptions, a: &'a [u8], b: &'a [u8]) -> Patch<'a, [u8]> {
        o.create_patch_bytes(a, b)
    }
    fn apply(base: &[u8], p: &Patch<'_, [u8]>) -> Result<Vec<u8>, String> {
        diffy::apply_bytes(base, p).map_err(|e| e.to_string())
    }
    fn parse(t: &[u8]) -> Result<Patch<'_, [u8]>, String> {
        Patch::from_bytes(t).map_err(|e| e.to_string())
    }
    fn show(p: &Patch<'_, [u8]>) -> Vec<u8> {
        p.to_bytes()
    }
    fn merge(m: &MergeOptions, o: &[u8], a: &[u8], b: &[u8]) -> Result<Vec<u8>, Vec<u8>> {
        m.merge_bytes(o, a, b)
    }
}

pub fn diff_opts(ctx: usize) -> DiffOptions {
    let mut o = DiffOptions::new();
    o.set_context_len(ctx);
    o
}

/// Formatter option settings, as independent switches.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fmt {
    pub color: bool,
    pub message: bool,
    pub suppress: bool,
}

pub const ALL_FMT: [Fmt; 8] = {
    let mut v = [Fmt { color: false, message: true, suppress: true }; 8];
    let mut i = 0;
    while i < 8 {
        v[i] = Fmt { color: i & 4 != 0, message: i & 1 == 0, suppress: i & 2 == 0 };
        i += 1;
    }
    v
};

pub fn formatter(f: Fmt) -> PatchFormatter {
    let p = PatchFormatter::new().missing_newline_message(f.message).suppress_blank_empty(f.suppress);
    if f.color {
        p.with_color()
    } else {
        p
    }
}

pub fn write_into<T: ToOwned + AsRef<[u8]> + ?Sized>(f: &PatchFormatter, p: &Patch<'_, T>) -> Vec<u8> {
    let mut v = Vec::new();
    f.write_patch_into(p, &mut v).expect("writing into a Vec");
    v
}

pub fn merge_opts(marker: usize, diff3: bool) -> MergeOptions {
    let mut o = MergeOptions::new();
    o.set_conflict_marker_length(marker)
        .set_conflict_style(if diff3 { diffy::ConflictStyle::Diff3 } else { diffy::ConflictStyle::Merge });
    o
}

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err(format!($($a)*)) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
