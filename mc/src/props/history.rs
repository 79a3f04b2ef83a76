//! C17: results depend on the arguments only.
//!
//! The histories are explored with real process snapshots: the state reached by a history is a
//! process, and every continuation is tried in a fork of it.  A result is right iff it equals the
//! result of the same call made first in a fresh process.

use crate::api::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::{seq, seq_count};
use crate::props::tokens::VALID;
use diffy::{ConflictStyle, DiffOptions, MergeOptions, Patch, PatchFormatter};
use std::io::Write as _;
use std::process::{Command, Stdio};
use std::sync::OnceLock;

/// Everything a program keeps between calls.
pub struct Env {
    bufs: [String; 3],
    bytes: Vec<u8>,
    opts: DiffOptions,
    merge: MergeOptions,
    plain: PatchFormatter,
    fancy: PatchFormatter,
    kept: Option<Patch<'static, str>>,
    kept_bytes: Option<Patch<'static, [u8]>>,
    kept_large: Option<Patch<'static, str>>,
}

impl Env {
    fn new() -> Env {
        Env {
            bufs: [String::with_capacity(1 << 16), String::with_capacity(1 << 16), String::with_capacity(1 << 16)],
            bytes: Vec::with_capacity(1 << 16),
            opts: DiffOptions::new(),
            merge: MergeOptions::new(),
            plain: PatchFormatter::new(),
            fancy: PatchFormatter::new().with_color().missing_newline_message(false).suppress_blank_empty(false),
            kept: None,
            kept_bytes: None,
            kept_large: None,
        }
    }
    /// overwrites the buffers in place
    fn fill(&mut self, t: [&str; 3]) {
        for (b, t) in self.bufs.iter_mut().zip(t) {
            b.clear();
            b.push_str(t);
        }
    }
}

fn res<E: std::fmt::Display>(r: Result<String, E>) -> Vec<u8> {
    match r {
        Ok(t) => [b"ok ", t.as_bytes()].concat(),
        Err(e) => format!("err {e}").into_bytes(),
    }
}

fn lines(n: usize, tag: &str, every: usize) -> String {
    (0..n).map(|i| if every > 0 && i % every == every - 1 { format!("{tag} {i}\n") } else { format!("line {i}\n") }).collect()
}

const T1: &str = "a\nb\nc\nd\ne\nf\ng\nh\n";
const T2: &str = "a\nb\nX\nd\ne\nf\ng\nh\ni\n";
const T3: &str = "b\na\nb\nb\na\nc\nb\na";
// same lengths as T1, other lines
const T4: &str = "h\ng\nf\ne\nd\nc\nb\na\n";
const T5: &str = "h\ng\nY\ne\nd\nc\nb\na\nz\n";

type Op = (&'static str, fn(&mut Env) -> Vec<u8>);

fn create(e: &mut Env, ctx: usize, names: [&'static str; 2], a: &str, b: &str) -> Vec<u8> {
    e.fill([a, b, ""]);
    e.opts.set_context_len(ctx).set_original_filename(names[0]).set_modified_filename(names[1]);
    let p = e.opts.create_patch(&e.bufs[0], &e.bufs[1]);
    p.to_string().into_bytes()
}

fn create_bytes(e: &mut Env, ctx: usize, a: &[u8], b: &[u8]) -> Vec<u8> {
    e.bytes.clear();
    e.bytes.extend_from_slice(a);
    e.bytes.extend_from_slice(b);
    let (x, y) = e.bytes.split_at(a.len());
    e.opts.set_context_len(ctx).set_original_filename("o").set_modified_filename("m");
    e.opts.create_patch_bytes(x, y).to_bytes()
}

fn parse(e: &mut Env, t: &str) -> Vec<u8> {
    e.fill([t, "", ""]);
    match Patch::from_str(&e.bufs[0]) {
        Ok(p) => format!("{p:?}").into_bytes(),
        Err(x) => format!("{x}").into_bytes(),
    }
}

fn apply(e: &mut Env, patch: &str, base: &str) -> Vec<u8> {
    e.fill([patch, base, ""]);
    let p = Patch::from_str(&e.bufs[0]).map_err(|e| e.to_string());
    res(p.and_then(|p| diffy::apply(&e.bufs[1], &p).map_err(|e| e.to_string())))
}

fn merge(e: &mut Env, marker: usize, style: ConflictStyle, o: &str, a: &str, b: &str) -> Vec<u8> {
    e.fill([o, a, b]);
    e.merge.set_conflict_marker_length(marker).set_conflict_style(style);
    res(e.merge.merge(&e.bufs[0], &e.bufs[1], &e.bufs[2]))
}

const PATCH1: &str = "--- a\n+++ b\n@@ -1,3 +1,3 @@\n a\n b\n-c\n+X\n@@ -7,2 +7,3 @@\n g\n h\n+i\n";
const PATCH2: &str = "@@ -2,3 +2,3 @@ f\n b\n-a\n+q\n c\n";

static OPS: &[Op] = &[
    ("create", |e| create(e, 3, ["x", "y"], T1, T2)),
    ("create from other texts of the same lengths", |e| create(e, 3, ["x", "y"], T4, T5)),
    ("create with context 0 and other names", |e| create(e, 0, ["n \"1\"", "b"], T1, T2)),
    ("create from repeated lines", |e| create(e, 1, ["", ""], T3, T1)),
    ("create from equal texts", |e| create(e, 3, ["x", "y"], T3, T3)),
    ("create from empty texts", |e| create(e, 3, ["x", "y"], "", "")),
    ("create large, everything differs", |e| create(e, 3, ["x", "y"], &lines(300, "p", 1), &lines(280, "q", 1))),
    ("create large, few differences", |e| create(e, 2, ["x", "y"], &lines(300, "p", 0), &lines(301, "q", 40))),
    ("create with defaults", |e| {
        e.fill([T2, T1, ""]);
        diffy::create_patch(&e.bufs[0], &e.bufs[1]).to_string().into_bytes()
    }),
    ("create bytes", |e| create_bytes(e, 1, b"a\n\xff\nc", b"a\n\xfe\nc\n")),
    ("create bytes from repeated lines", |e| create_bytes(e, 0, T3.as_bytes(), T4.as_bytes())),
    ("reverse and format", |e| {
        e.fill([T1, T5, ""]);
        diffy::create_patch(&e.bufs[0], &e.bufs[1]).reverse().to_string().into_bytes()
    }),
    ("format in color", |e| {
        e.fill([T3, T1, ""]);
        let p = diffy::create_patch(&e.bufs[0], &e.bufs[1]);
        let mut v = write_into(&e.fancy, &p);
        v.extend(e.fancy.fmt_patch(&p).to_string().into_bytes());
        v
    }),
    ("format plain twice", |e| {
        e.fill([T1, T3, ""]);
        let p = diffy::create_patch(&e.bufs[0], &e.bufs[1]);
        [write_into(&e.plain, &p), write_into(&e.plain, &p)].concat()
    }),
    ("write into a failing sink", |e| {
        struct W(usize);
        impl std::io::Write for W {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                if self.0 == 0 {
                    return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
                }
                self.0 -= 1;
                Ok(b.len())
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
        e.fill([T1, T2, ""]);
        let p = diffy::create_patch(&e.bufs[0], &e.bufs[1]);
        let r: Vec<bool> = (0..3).map(|n| e.fancy.write_patch_into(&p, W(n)).is_ok()).collect();
        format!("{r:?}").into_bytes()
    }),
    ("parse", |e| parse(e, PATCH1)),
    ("parse with function context", |e| parse(e, PATCH2)),
    ("parse escaped names", |e| parse(e, std::str::from_utf8(VALID[1]).unwrap())),
    ("parse, wrong counts", |e| parse(e, "--- q\n+++ r\n@@ -1,3 +1 @@\n-a\n+b\n")),
    ("parse, bad name", |e| parse(e, "--- \"q\\x\"\n+++ r\n@@ -1 +1 @@\n-a\n+b\n")),
    ("parse, name ends in a backslash", |e| parse(e, "--- \"left\\\"\n+++ r\n@@ -1 +1 @@\n-a\n+b\n")),
    ("parse, unescaped quote in name", |e| parse(e, "--- \"le\\n\"ft\"\n+++ r\n@@ -1 +1 @@\n-a\n+b\n")),
    ("parse, failing second name", |e| parse(e, "--- \"good\\tname\"\n+++ \"bad\\\n@@ -1 +1 @@\n-a\n+b\n")),
    ("parse, bad range", |e| parse(e, "--- q\n+++ r\n@@ -1,x +1 @@\n-a\n+b\n")),
    ("parse, marker first", |e| parse(e, "@@ -1 +1 @@ ctx\n\\ No newline at end of file\n-a\n+b\n")),
    ("parse, second hunk broken", |e| parse(e, "@@ -1 +1 @@\n-a\n+b\n@@ -5 +5 @@ f\n-a\nx\n")),
    ("parse, no newlines at the ends", |e| parse(e, "@@ -1 +1 @@\n-a\n\\ No newline at end of file\n+b\n\\ No newline at end of file\n")),
    ("parse bytes, escaped names", |e| {
        e.bytes.clear();
        e.bytes.extend_from_slice(b"--- \"x\\\\y\\\"\"\n+++ \"\\n\xff\"\n@@ -1 +1 @@\n-\xfe\n+\xfd\n");
        format!("{:?}", Patch::from_bytes(&e.bytes).map_err(|e| e.to_string())).into_bytes()
    }),
    ("parse bytes, name ends in a backslash", |e| {
        e.bytes.clear();
        e.bytes.extend_from_slice(b"--- \"\xff\\\"\n@@ -1 +1 @@\n-\xfe\n+\xfd\n");
        format!("{:?}", Patch::from_bytes(&e.bytes).map_err(|e| e.to_string())).into_bytes()
    }),
    ("parse, hunks out of order", |e| parse(e, "@@ -5 +5 @@\n-a\n+b\n@@ -1 +1 @@\n-a\n+b\n")),
    ("parse bytes", |e| {
        e.bytes.clear();
        e.bytes.extend_from_slice(b"--- \xff\n@@ -1 +1 @@\n-\xfe\n+\xfd\n");
        format!("{:?}", Patch::from_bytes(&e.bytes).map_err(|e| e.to_string())).into_bytes()
    }),
    ("apply", |e| apply(e, PATCH1, T1)),
    ("apply displaced", |e| apply(e, PATCH1, &format!("0\n1\n2\n{T1}"))),
    ("apply, second hunk fails", |e| apply(e, PATCH1, "a\nb\nc\n")),
    ("apply to a text with several places", |e| apply(e, PATCH2, "b\na\nc\nb\na\nc\nb\na\nc\n")),
    ("apply bytes", |e| {
        e.bytes.clear();
        e.bytes.extend_from_slice(b"@@ -1 +1 @@\n-\xfe\n+\xfd\n");
        let p = Patch::from_bytes(&e.bytes).unwrap();
        format!("{:?}", diffy::apply_bytes(b"x\n\xfe\n", &p).map_err(|e| e.to_string())).into_bytes()
    }),
    ("merge clean", |e| merge(e, 7, ConflictStyle::Diff3, T1, T2, &format!("0\n{T1}"))),
    ("merge with conflict", |e| merge(e, 7, ConflictStyle::Diff3, T1, T2, "a\nb\nY\nd\ne\nf\ng\nh\n")),
    ("merge with conflict, other options", |e| merge(e, 3, ConflictStyle::Merge, T1, T2, "a\nb\nY\nd\ne\nf\ng\nh\n")),
    ("merge other texts of the same lengths", |e| merge(e, 7, ConflictStyle::Diff3, T4, T5, "h\ng\nY\ne\nd\nc\nb\nq\n")),
    ("merge with defaults", |e| {
        e.fill([T3, T1, T4]);
        res(diffy::merge(&e.bufs[0], &e.bufs[1], &e.bufs[2]))
    }),
    ("merge bytes", |e| {
        e.bytes.clear();
        e.bytes.extend_from_slice(b"a\n\xff\nb\n");
        format!("{:?}", diffy::merge_bytes(b"a\nb\n", &e.bytes, b"a\nc\n")).into_bytes()
    }),
    ("merge large", |e| merge(e, 7, ConflictStyle::Diff3, &lines(200, "o", 0), &lines(200, "a", 9), &lines(203, "b", 11))),
    ("write into a sink that panics", |e| {
        struct W(usize);
        impl std::io::Write for W {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                assert!(self.0 > 0, "the sink panics");
                self.0 -= 1;
                Ok(b.len())
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
        e.fill([T1, T2, ""]);
        let p = diffy::create_patch(&e.bufs[0], &e.bufs[1]);
        let r: Vec<bool> = (0..9).map(|n| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.plain.write_patch_into(&p, W(n)))).is_ok()).collect();
        format!("{}", r.iter().all(|x| !x)).into_bytes()
    }),
    ("display into a text sink that fails or panics", |e| {
        struct W(usize, bool);
        impl std::fmt::Write for W {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                if self.0 > 0 {
                    self.0 -= 1;
                    return Ok(());
                }
                assert!(self.1, "the sink panics");
                Err(std::fmt::Error)
            }
        }
        e.fill([T3, T5, ""]);
        let p = diffy::create_patch(&e.bufs[0], &e.bufs[1]);
        use std::fmt::Write;
        let mut n = 0;
        for k in 0..9 {
            n += write!(W(k, true), "{p}").is_err() as u32;
            n += std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| write!(W(k, false), "{}", e.fancy.fmt_patch(&p)))).is_err() as u32;
        }
        format!("{n}").into_bytes()
    }),
    ("create huge, few differences", |e| create(e, 3, ["x", "y"], &lines(5000, "p", 0), &lines(5001, "q", 900))),
    ("parse 600 hunks", |e| {
        let t: String = (0..600).map(|i| format!("@@ -{0},2 +{0} @@ f{i}\n a\n-b\n", 10 * i + 1)).collect();
        parse(e, &t)
    }),
    ("apply 40 hunks to 5000 lines", |e| {
        let p = diffy::create_patch(&lines(5000, "p", 0), &lines(5000, "q", 125)).to_string();
        apply(e, &p, &format!("top\n{}", lines(5000, "p", 0)))
    }),
    ("merge huge", |e| merge(e, 7, ConflictStyle::Diff3, &lines(3000, "o", 0), &lines(3000, "a", 90), &lines(3003, "b", 110))),
    ("a line of 100000 bytes", |e| {
        let l = "x".repeat(100_000);
        create(e, 3, ["x", "y"], &format!("a\n{l}\nb\n"), &format!("a\n{l}y\nb"))
    }),
    ("use a patch kept since the beginning", |e| {
        let p = e.kept.get_or_insert_with(|| diffy::create_patch(T1, T5));
        let r = diffy::apply(T1, p).unwrap();
        format!("{p}{r}").into_bytes()
    }),
    ("use a large patch kept since the beginning", |e| {
        let p = e.kept_large.get_or_insert_with(|| Patch::from_str(Box::leak(diffy::create_patch(&lines(1500, "p", 0), &lines(1500, "q", 100)).to_string().into_boxed_str())).unwrap());
        let r = diffy::apply(&lines(1500, "p", 0), p).unwrap();
        format!("{p}{r}{}", p.reverse()).into_bytes()
    }),
    ("use a bytes patch kept since the beginning", |e| {
        let p = e.kept_bytes.get_or_insert_with(|| Patch::from_bytes(VALID[0]).unwrap());
        let r = diffy::apply_bytes(b"a\nb\nd\n", p).unwrap();
        [p.to_bytes(), r].concat()
    }),
];

/// the ops used where histories span threads
const FEW: &[usize] = &[0, 1, 2, 6, 9, 15, 18, 22, 24, 28, 29, 30];

fn call(k: usize, e: &mut Env) -> Vec<u8> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| OPS[k].1(e))) {
        Ok(v) => v,
        Err(_) => format!("panicked: {}", last_panic()).into_bytes(),
    }
}

/// `mc baseline k`: the call as the first one of a process.
pub fn baseline_main(k: &str) {
    install_panic_hook();
    let v = call(k.parse().unwrap(), &mut Env::new());
    std::io::stdout().write_all(&v).unwrap();
}

/// calls that take long
fn large(k: usize) -> bool {
    ["huge", "large", "600", "5000", "100000"].iter().any(|x| OPS[k].0.contains(x))
}

fn me() -> Command {
    Command::new(std::env::current_exe().expect("exe"))
}

fn baselines() -> &'static [Vec<u8>] {
    static B: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    B.get_or_init(|| {
        (0..OPS.len())
            .map(|k| {
                let o = me().args(["baseline", &k.to_string()]).stderr(Stdio::null()).output().expect("baseline");
                assert!(o.status.success(), "the call {:?} fails even when made first", OPS[k].0);
                o.stdout
            })
            .collect()
    })
}

// ------------------------------------------------------------------------------------------------
// process trees

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

/// One page shared by the whole tree: [states, transitions, traces, failed, length] then a message.
pub struct Page(*mut u8);

impl Page {
    pub fn new() -> Page {
        let p = unsafe { mmap(std::ptr::null_mut(), 1 << 16, 3, 0x21, -1, 0) };
        assert!(p as isize != -1);
        Page(p)
    }
    pub fn at(&self, k: usize) -> &mut u64 {
        unsafe { &mut *(self.0 as *mut u64).add(k) }
    }
    pub fn fail(&self, m: &str) {
        if *self.at(3) == 0 {
            let m = &m.as_bytes()[..m.len().min((1 << 15) - 64)];
            unsafe { std::ptr::copy_nonoverlapping(m.as_ptr(), self.0.add(64), m.len()) };
            *self.at(4) = m.len() as u64;
            *self.at(3) = 1;
        }
    }
    /// leaves a result for the parent process
    pub fn put(&self, b: &[u8]) {
        let n = b.len().min((1 << 15) - 64);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.0.add(1 << 15), n) };
        *self.at(7) = n as u64;
    }
    pub fn take(&self) -> Vec<u8> {
        unsafe { std::slice::from_raw_parts(self.0.add(1 << 15), *self.at(7) as usize) }.to_vec()
    }
    pub fn failed(&self) -> bool {
        *self.at(3) != 0
    }
    pub fn message(&self) -> String {
        let n = *self.at(4) as usize;
        String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(self.0.add(64), n) }).into_owned()
    }
}

/// Runs `f` in a fork of this process, i.e. from the state reached so far.
pub fn branch(page: &Page, what: impl Fn() -> String, f: impl FnOnce()) {
    let p = unsafe { fork() };
    assert!(p >= 0, "fork");
    if p == 0 {
        f();
        unsafe { _exit(0) };
    }
    let mut st = 0;
    unsafe { waitpid(p, &mut st, 0) };
    if st != 0 {
        page.fail(&format!("the process died (wait status {st}) during {}", what()));
    }
}

fn history_text(h: &[usize]) -> String {
    h.iter().map(|k| format!("[{}]", OPS[*k].0)).collect::<Vec<_>>().join(" ")
}

fn compare(page: &Page, base: &[Vec<u8>], h: &[usize], got: &[u8], on: &str) {
    *page.at(1) += 1;
    let k = *h.last().unwrap();
    if got != base[k] {
        page.fail(&format!("after {} the call [{}]{on} gives {}, but {} when made first in a process", history_text(&h[..h.len() - 1]), OPS[k].0, esc(got), esc(&base[k])));
    }
}

/// Every history of `depth` more calls from here.
fn tree(page: &Page, base: &[Vec<u8>], env: &mut Env, h: &mut Vec<usize>, depth: u32) {
    *page.at(0) += 1;
    if depth == 0 {
        *page.at(2) += 1;
        return;
    }
    if depth == 1 {
        // the last calls are made one after the other in one process: a longer history each time
        let n = h.len();
        for k in 0..OPS.len() {
            h.push(k);
            let r = call(k, env);
            compare(page, base, h, &r, "");
            *page.at(2) += 1;
            if page.failed() {
                return;
            }
        }
        h.truncate(n);
        return;
    }
    for k in 0..OPS.len() {
        h.push(k);
        branch(page, || history_text(h), || {
            let mut h = h.clone();
            let r = call(k, env);
            compare(page, base, &h, &r, "");
            tree(page, base, env, &mut h, depth - 1);
        });
        h.pop();
        if page.failed() {
            return;
        }
    }
}

/// `op` many times, then every call.
fn repeat(page: &Page, base: &[Vec<u8>], op: usize, times: u32) {
    branch(page, || format!("{times} times [{}]", OPS[op].0), || {
        let mut env = Env::new();
        for i in 0..times {
            let r = call(op, &mut env);
            *page.at(1) += 1;
            if r != base[op] {
                return page.fail(&format!("call number {} of [{}] gives {}, but {} when made first", i + 1, OPS[op].0, esc(&r), esc(&base[op])));
            }
        }
        *page.at(0) += 1;
        *page.at(2) += 1;
        for k in 0..OPS.len() {
            let r = call(k, &mut env);
            *page.at(1) += 1;
            if r != base[k] {
                return page.fail(&format!("after {times} times [{}] the call [{}] gives {}, but {} when made first", OPS[op].0, OPS[k].0, esc(&r), esc(&base[k])));
            }
        }
    });
}

/// A history of calls, each made by one of two threads; one call at a time.
fn threads(page: &Page, base: &[Vec<u8>], steps: &[(usize, usize)]) {
    let text = || steps.iter().map(|(t, k)| format!("[thread {t}: {}]", OPS[*k].0)).collect::<Vec<_>>().join(" ");
    branch(page, text, || {
        use std::sync::mpsc::channel;
        let mut tx = Vec::new();
        let (back, results) = channel::<Vec<u8>>();
        for _ in 0..2 {
            let (t, rx) = channel::<usize>();
            let back = back.clone();
            std::thread::spawn(move || {
                let mut env = Env::new();
                while let Ok(k) = rx.recv() {
                    let _ = back.send(call(k, &mut env));
                }
            });
            tx.push(t);
        }
        *page.at(0) += steps.len() as u64;
        *page.at(2) += 1;
        for (n, (t, k)) in steps.iter().enumerate() {
            tx[*t].send(*k).unwrap();
            let r = results.recv().unwrap();
            *page.at(1) += 1;
            if r != base[*k] {
                let before: Vec<String> = steps[..n].iter().map(|(t, k)| format!("[thread {t}: {}]", OPS[*k].0)).collect();
                return page.fail(&format!("after {} the call [thread {t}: {}] gives {}, but {} when made first in a process", before.join(" "), OPS[*k].0, esc(&r), esc(&base[*k])));
            }
        }
    });
}

/// What a sink does in the middle of a write.
struct Nest<'a> {
    at: usize,
    calls: usize,
    got: Vec<u8>,
    act: &'a mut dyn FnMut(),
}
impl Nest<'_> {
    fn take(&mut self, b: &[u8]) {
        if self.calls == self.at {
            (self.act)();
        }
        self.calls += 1;
        self.got.extend_from_slice(b);
    }
}
impl std::io::Write for Nest<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.take(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::fmt::Write for Nest<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.take(s.as_bytes());
        Ok(())
    }
}

const OUTER: &[&str] = &["write_patch_into", "write_patch_into in color", "write_patch_into of a bytes patch", "write_patch_into of a bytes patch in color", "Display", "fmt_patch in color"];
const OUTER_PATCH: &str = "--- \"a\\\"b\"\n+++ b\n@@ -1,3 +1,3 @@ f\n \n-b\n+c\n d\n@@ -9 +9,2 @@ g\n-x\n+y\n+z\n\\ No newline at end of file\n";

/// One write of a patch during which, at call number `at` of the sink, `act` is done.
fn outer(k: usize, at: usize, act: &mut dyn FnMut()) -> (Vec<u8>, usize) {
    let (plain, fancy) = (PatchFormatter::new(), PatchFormatter::new().with_color());
    let s = Patch::from_str(OUTER_PATCH).unwrap();
    let b = Patch::from_bytes(OUTER_PATCH.as_bytes()).unwrap();
    let mut n = Nest { at, calls: 0, got: Vec::new(), act };
    match k {
        0 => plain.write_patch_into(&s, &mut n).unwrap(),
        1 => fancy.write_patch_into(&s, &mut n).unwrap(),
        2 => plain.write_patch_into(&b, &mut n).unwrap(),
        3 => fancy.write_patch_into(&b, &mut n).unwrap(),
        4 => std::fmt::Write::write_fmt(&mut n, format_args!("{s}")).unwrap(),
        _ => std::fmt::Write::write_fmt(&mut n, format_args!("{}", fancy.fmt_patch(&s))).unwrap(),
    }
    (n.got, n.calls)
}

/// Every call made from within every call of a sink, by the same thread or by another one while
/// the write waits.
fn nested(page: &Page, base: &[Vec<u8>], k: usize, other: bool) {
    let calls = {
        // counted in a process of its own
        branch(page, || OUTER[k].to_string(), || {
            *page.at(5) = outer(k, usize::MAX, &mut || {}).1 as u64;
        });
        *page.at(5) as usize
    };
    for at in 0..calls {
        branch(page, || format!("{} with calls from within call {at} of the sink", OUTER[k]), || {
            let mut bad = None;
            let (got, _) = outer(k, at, &mut || {
                let all = || {
                    let mut env = Env::new();
                    for x in 0..OPS.len() {
                        let r = call(x, &mut env);
                        if r != base[x] {
                            return Some(format!("the call [{}] gives {}, but {} when made first in a process", OPS[x].0, esc(&r), esc(&base[x])));
                        }
                    }
                    None
                };
                bad = if other { std::thread::scope(|s| s.spawn(all).join().unwrap_or_else(|_| Some("panicked".into()))) } else { all() };
            });
            *page.at(0) += OPS.len() as u64;
            *page.at(1) += OPS.len() as u64 + 1;
            *page.at(2) += 1;
            let where_ = format!("from within call {at} of the sink of {}{}", OUTER[k], if other { ", in another thread" } else { "" });
            if let Some(b) = bad {
                return page.fail(&format!("{where_}: {b}"));
            }
            let (want, _) = outer(k, usize::MAX, &mut || {});
            if got != want {
                page.fail(&format!("{where_} other calls are made: the text written becomes {} instead of {}", esc(&got), esc(&want)));
            }
        });
        if page.failed() {
            return;
        }
    }
}

/// Calls whose arguments are built from a word; the buffers that hold the arguments are reused.
const FAMILIES: &[&str] = &[
    "create_patch_bytes from a fixed text",
    "create_patch to a fixed text",
    "create_patch_bytes of a text and its reversal",
    "parse a patch",
    "parse a patch as bytes",
    "apply a fixed patch",
    "apply to a fixed text",
    "merge, ours varies",
    "merge_bytes, the ancestor varies",
    "merge, theirs and ours vary",
    "reverse and format in color",
    "file names",
    "parse quoted file names",
    "parse damaged patches",
];
const STYLES: &[&str] = &["one line per letter", "one line", "one long line", "lines and an unterminated rest"];
const WORD: u32 = 5;
const WORDS: usize = 243;

fn family(f: usize, style: usize, w: usize, b: &mut [String; 3]) -> Vec<u8> {
    use std::fmt::Write;
    let letter = |i: u32| (b'a' + (w / 3usize.pow(i) % 3) as u8) as char;
    let word: String = (0..WORD).map(letter).collect();
    for x in b.iter_mut() {
        x.clear();
    }
    let [t, u, v] = b;
    match style {
        0 => word.chars().for_each(|c| writeln!(t, "{c}").unwrap()),
        1 => writeln!(t, "{word}").unwrap(),
        2 => writeln!(t, "{:a>70}{word}{:b>70}", "", "").unwrap(),
        _ => write!(t, "x\n{}\n{}", &word[..3], &word[3..]).unwrap(),
    }
    let fixed = ["a\nb\nc\na\nb\n", "abcab\n", "b\nabcab\nc\n", "x\nabc\nab\n"][style];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match f {
        0 => DiffOptions::new().set_context_len(1).create_patch_bytes(fixed.as_bytes(), t.as_bytes()).to_bytes(),
        1 => DiffOptions::new().set_context_len(0).create_patch(t, fixed).to_string().into_bytes(),
        2 => {
            t.split_inclusive('\n').rev().for_each(|l| u.push_str(l));
            diffy::create_patch_bytes(t.as_bytes(), u.as_bytes()).to_bytes()
        }
        3 | 4 | 10 => {
            let n = word.len();
            write!(u, "--- {word}\n+++ b/{word}\n@@ -{},{n} +{},{n} @@ {word}\n", w + 1, w + 1).unwrap();
            word.chars().for_each(|c| write!(u, "{}{c}\n", [" ", "-", "+"][(w + c as usize) % 3]).unwrap());
            let (d, i) = (u.matches("\n-").count(), u.lines().skip(3).filter(|l| l.starts_with('+')).count());
            write!(v, "--- {word}\n+++ b/{word}\n@@ -{},{} +{},{} @@ {word}\n", w + 1, n - i, w + 1, n - d).unwrap();
            v.push_str(u.splitn(4, '\n').last().unwrap());
            match f {
                3 => res(Patch::from_str(v).map(|p| format!("{p:?}"))),
                4 => res(Patch::from_bytes(v.as_bytes()).map(|p| format!("{p:?}"))),
                _ => res(Patch::from_str(v).map(|p| PatchFormatter::new().with_color().fmt_patch(&p.reverse()).to_string())),
            }
        }
        5 => {
            write!(u, "q\n{t}").unwrap();
            // in a part of the words the line is not where it is stated to be, or not there at all
            write!(v, "@@ -{0} +{0},2 @@\n {1}+new\n", w % 3 + 1, if w % 5 == 0 { "c\n" } else { "q\n" }).unwrap();
            res(diffy::apply(u, &Patch::from_str(v).unwrap()))
        }
        6 => {
            let n = t.split_inclusive('\n').count();
            write!(u, "@@ -1,{n} +1,{} @@\n+start\n", n + 1).unwrap();
            t.split_inclusive('\n').for_each(|l| write!(u, " {l}").unwrap());
            if !t.ends_with('\n') {
                u.push_str("\n\\ No newline at end of file\n");
            }
            let base = if w % 4 == 0 { fixed } else { &t[..] };
            res(Patch::from_str(u).map_err(|e| e.to_string()).and_then(|p| diffy::apply(base, &p).map_err(|e| e.to_string())))
        }
        7 => res(diffy::merge(fixed, t, "b\nc\na\n")),
        8 => match MergeOptions::new().set_conflict_marker_length(w % 9).merge_bytes(t.as_bytes(), fixed.as_bytes(), b"c\nabc\nb\na\n") {
            Ok(t) => t,
            Err(t) => t,
        },
        9 => {
            t.split_inclusive('\n').rev().for_each(|l| u.push_str(l));
            res(MergeOptions::new().set_conflict_style(ConflictStyle::Merge).merge(fixed, t, u))
        }
        11 => {
            let name: String = word.chars().map(|c| ['"', 'x', '\t'][(c as u8 - b'a') as usize]).collect();
            let mut o = DiffOptions::new();
            if w % 2 == 0 {
                o.set_original_filename(name);
            } else {
                o.set_modified_filename(name);
            }
            let p = o.create_patch("1\n", "2\n");
            format!("{:?} {:?} {p}", p.original(), p.modified()).into_bytes()
        }
        12 => {
            v.push_str("--- \"");
            word.chars().for_each(|c| v.push_str(["\\\"", "x", "\\t"][(c as u8 - b'a') as usize]));
            v.push_str("\"\n@@ -1 +1 @@\n-1\n+2\n");
            res(Patch::from_str(v).map(|p| format!("{:?} {:?} {p}", p.original(), p.modified())))
        }
        _ => {
            let (n, m) = (&word[..2], &word[2..]);
            let d = |s: &str| s.replace('a', "1").replace('b', "2").replace('c', if style == 0 { "," } else if style == 1 { "-" } else { "3" });
            write!(v, "--- a\n+++ b\n@@ -{} +{} @@\n-1\n+2\n", d(n), d(m)).unwrap();
            res(Patch::from_bytes(v.as_bytes()).map(|p| format!("{p:?}")))
        }
    }));
    match r {
        Ok(r) => r,
        Err(_) => format!("panicked: {}", last_panic()).into_bytes(),
    }
}

fn digest(v: &[u8]) -> u64 {
    v.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)) | 1
}

/// The symbols of a walk: (family, style, word).
fn symbols(kind: usize) -> Vec<(usize, usize, usize)> {
    let one = FAMILIES.len() * STYLES.len();
    if kind < one {
        (0..WORDS).map(|w| (kind / STYLES.len(), kind % STYLES.len(), w)).collect()
    } else {
        // all families together, few words each
        let step = [9, 17, 31, 80][kind - one];
        let n = 320 / FAMILIES.len();
        (0..n).flat_map(|x| (0..FAMILIES.len()).map(move |f| (f, (x + kind) % 4, x * step % WORDS))).collect()
    }
}

/// Every symbol after every other one, in one process: a walk along all ordered pairs.
fn pair_walk(page: &Page, kind: usize) {
    let sy = symbols(kind);
    let n = sy.len();
    let name = |s: (usize, usize, usize)| format!("[{}, {}, word {}]", FAMILIES[s.0], STYLES[s.1], s.2);
    let mut first: Vec<u64> = Vec::new();
    for &(f, st, w) in &sy {
        *page.at(5) = 0;
        branch(page, || name((f, st, w)), || {
            let mut b = [String::with_capacity(4096), String::with_capacity(4096), String::with_capacity(4096)];
            *page.at(5) = digest(&family(f, st, w, &mut b));
        });
        first.push(*page.at(5));
        if page.failed() {
            return;
        }
    }
    branch(page, || format!("all pairs of calls of {} kinds", n), || {
        let mut b = [String::with_capacity(4096), String::with_capacity(4096), String::with_capacity(4096)];
        let mut last = 0;
        let mut go = |x: usize, count: u64| {
            let (f, st, w) = sy[x];
            let r = family(f, st, w, &mut b);
            *page.at(1) += 1;
            if digest(&r) != first[x] {
                page.fail(&format!("as call number {count} of the process, just after {}, the call {} gives {}, which is not what it gives when made first", name(sy[last]), name(sy[x]), esc(&r)));
                return false;
            }
            last = x;
            true
        };
        let mut count = 0;
        for i in 0..n {
            count += 1;
            if !go(i, count) {
                return;
            }
            for j in i + 1..n {
                count += 2;
                if !go(i, count - 1) || !go(j, count) {
                    return;
                }
            }
        }
        *page.at(0) += n as u64;
        *page.at(2) += 1;
    });
}

/// `mc history <kind> <parameter> <index>`, a process of its own that has made no call yet.
pub fn history_main(kind: &str, par: u32, i: u64) {
    install_panic_hook();
    let base = baselines();
    let page = Page::new();
    let n = OPS.len();
    match kind {
        "tree" => {
            let first = i as usize;
            branch(&page, || history_text(&[first]), || {
                let mut env = Env::new();
                let mut h = vec![first];
                let r = call(first, &mut env);
                compare(&page, base, &h, &r, "");
                tree(&page, base, &mut env, &mut h, par - 1);
            });
        }
        "tree2" => {
            let (a, b) = (i as usize / n, i as usize % n);
            branch(&page, || history_text(&[a, b]), || {
                let mut env = Env::new();
                call(a, &mut env);
                let mut h = vec![a, b];
                let r = call(b, &mut env);
                compare(&page, base, &h, &r, "");
                tree(&page, base, &mut env, &mut h, par - 2);
            });
        }
        "repeat" => repeat(&page, base, i as usize, if large(i as usize) { par / 400 } else { par }),
        "pairs" => pair_walk(&page, i as usize),
        "nested" => nested(&page, base, i as usize / 2, i % 2 == 1),
        "threads" => {
            // index: the first two calls; the rest is enumerated here
            let k = FEW.len();
            let (a, b) = (i as usize / (2 * k), i as usize % (2 * k));
            let rest = (2 * k as u64).pow(par - 2);
            for r in 0..rest {
                let mut s = vec![(0, FEW[a]), (b / k, FEW[b % k])];
                let mut r = r as usize;
                for _ in 2..par {
                    let x = r % (2 * k);
                    r /= 2 * k;
                    s.push((x / k, FEW[x % k]));
                }
                threads(&page, base, &s);
                if page.failed() {
                    break;
                }
            }
        }
        x => panic!("unknown kind {x}"),
    }
    let verdict = if page.failed() { format!("FAIL {}", page.message()) } else { "ok".into() };
    println!("{} {} {}\n{verdict}", page.at(0), page.at(1), page.at(2));
}

fn process_space(name: String, kind: &'static str, par: u32, len: u64, d: impl Fn(u64) -> String + Sync + Send + 'static) -> Box<dyn Space> {
    space(
        name,
        len,
        move |i, c| {
            let o = me().args(["history", kind, &par.to_string(), &i.to_string()]).stderr(Stdio::null()).output().map_err(|e| e.to_string())?;
            let t = String::from_utf8_lossy(&o.stdout).into_owned();
            let (counts, verdict) = t.split_once('\n').ok_or("the history process gave no result")?;
            let n: Vec<u64> = counts.split(' ').filter_map(|x| x.parse().ok()).collect();
            c.states += n[0];
            c.transitions += n[1];
            c.traces += n[2];
            c.outcome(&(kind, i));
            ensure!(verdict.trim() == "ok", "{}", verdict.trim());
            c.sample(|| format!("{kind} {par} {i}: {} histories", n[2]));
            Ok(())
        },
        d,
    )
}

// ------------------------------------------------------------------------------------------------
// option objects

#[derive(Clone, Copy, Debug)]
enum DAct {
    Ctx(usize),
    Orig(&'static str),
    Modi(&'static str),
    Use,
    UseBytes,
    Fresh,
    Format,
}

const DACTS: &[DAct] = &[
    DAct::Use,
    DAct::Ctx(0),
    DAct::Ctx(1),
    DAct::Ctx(3),
    DAct::Ctx(usize::MAX),
    DAct::Orig("p"),
    DAct::Orig("q r\t"),
    DAct::Modi("p"),
    DAct::Modi(""),
    DAct::UseBytes,
    DAct::Fresh,
    DAct::Format,
];

const LONG_A: &str = "1\n2\n3\n4\n5\n6\n7\n8\n9\n10\n11\n12\n";
const LONG_B: &str = "1\n2\n3\n4\nX\n6\n7\n8\n9\n10\n11\n12\nY";

fn acts(i: u64, k: usize, n: u32) -> Vec<u8> {
    let mut s = Vec::new();
    seq(i, k as u64, n, &mut s);
    s
}

fn diff_options_case(c: &mut Ctx, s: &[u8]) -> Res {
    let mut o = DiffOptions::new();
    let (mut ctx, mut a, mut b) = (3usize, "original", "modified");
    let check = |c: &mut Ctx, o: &DiffOptions, ctx: usize, a: &'static str, b: &'static str, n: usize, bytes: bool| -> Res {
        let mut f = DiffOptions::new();
        f.set_context_len(ctx).set_original_filename(a).set_modified_filename(b);
        c.step(2);
        let (got, want) = if bytes {
            (o.create_patch_bytes(LONG_A.as_bytes(), LONG_B.as_bytes()).to_bytes(), f.create_patch_bytes(LONG_A.as_bytes(), LONG_B.as_bytes()).to_bytes())
        } else {
            (o.create_patch(LONG_A, LONG_B).to_string().into_bytes(), f.create_patch(LONG_A, LONG_B).to_string().into_bytes())
        };
        c.outcome(&got);
        ensure!(got == want, "after step {n} (context {ctx}, names {a:?} {b:?}) the reused options give {}, fresh ones {}", esc(&got), esc(&want));
        Ok(())
    };
    for (n, x) in s.iter().enumerate() {
        match DACTS[*x as usize] {
            DAct::Ctx(k) => {
                o.set_context_len(k);
                ctx = k
            }
            DAct::Orig(k) => {
                o.set_original_filename(k);
                a = k
            }
            DAct::Modi(k) => {
                o.set_modified_filename(k.to_string());
                b = k
            }
            DAct::Fresh => {
                o = DiffOptions::default();
                (ctx, a, b) = (3, "original", "modified")
            }
            DAct::Use => check(c, &o, ctx, a, b, n, false)?,
            DAct::UseBytes => check(c, &o, ctx, a, b, n, true)?,
            DAct::Format => {
                let _ = format!("{o:?}");
            }
        }
    }
    check(c, &o, ctx, a, b, s.len(), false)?;
    check(c, &o, ctx, a, b, s.len(), true)
}

#[derive(Clone, Copy, Debug)]
enum MAct {
    Style(bool),
    Marker(usize),
    Clean,
    Conflict,
    ConflictBytes,
    Fresh,
}

const MACTS: &[MAct] = &[
    MAct::Conflict,
    MAct::Clean,
    MAct::Style(true),
    MAct::Style(false),
    MAct::Marker(0),
    MAct::Marker(3),
    MAct::Marker(7),
    MAct::Marker(30),
    MAct::ConflictBytes,
    MAct::Fresh,
];

fn merge_options_case(c: &mut Ctx, s: &[u8]) -> Res {
    const O: &str = "1\n2\n3\n4\n5\n6\n7\n";
    const A: &str = "1\n2\nA\n4\n5\n6\nZ\n";
    const B: &str = "1\n2\nB\n4\n5\n6\n7\n8\n";
    let mut m = MergeOptions::new();
    let (mut marker, mut diff3) = (7, true);
    // conflict text written down independently of the library
    let text = |marker: usize, diff3: bool| {
        let x = |ch: &str, l: &str| format!("{}{l}\n", ch.repeat(marker));
        let one = |a: &str, o: &str, b: &str| {
            let orig = if diff3 { format!("{}{o}", x("|", " original")) } else { String::new() };
            format!("{}{a}{orig}{}{b}{}", x("<", " ours"), x("=", ""), x(">", " theirs"))
        };
        format!("1\n2\n{}4\n5\n6\n{}", one("A\n", "3\n", "B\n"), one("Z\n", "7\n", "7\n8\n"))
    };
    let check = |c: &mut Ctx, m: &MergeOptions, marker: usize, diff3: bool, n: usize, bytes: bool| -> Res {
        c.step(1);
        let got = if bytes { m.merge_bytes(O.as_bytes(), A.as_bytes(), B.as_bytes()).unwrap_or_else(|e| e) } else { m.merge(O, A, B).unwrap_or_else(|e| e).into_bytes() };
        c.outcome(&got);
        let want = text(marker, diff3);
        ensure!(got == want.as_bytes(), "after step {n} (marker {marker}, diff3 {diff3}) the merge gives {}, expected {}", esc(&got), esc(want.as_bytes()));
        Ok(())
    };
    for (n, x) in s.iter().enumerate() {
        match MACTS[*x as usize] {
            MAct::Style(d) => {
                m.set_conflict_style(if d { ConflictStyle::Diff3 } else { ConflictStyle::Merge });
                diff3 = d
            }
            MAct::Marker(k) => {
                m.set_conflict_marker_length(k);
                marker = k
            }
            MAct::Fresh => {
                m = MergeOptions::default();
                (marker, diff3) = (7, true)
            }
            MAct::Clean => {
                c.step(1);
                ensure!(m.merge(O, A, O) == Ok(A.to_string()), "after step {n} a trivial merge is not clean");
            }
            MAct::Conflict => check(c, &m, marker, diff3, n, false)?,
            MAct::ConflictBytes => check(c, &m, marker, diff3, n, true)?,
        }
    }
    check(c, &m, marker, diff3, s.len(), false)?;
    check(c, &m, marker, diff3, s.len(), true)
}

const FACTS: &[(&str, fn(PatchFormatter, &mut Fmt) -> PatchFormatter)] = &[
    ("with_color", |p, f| {
        f.color = true;
        p.with_color()
    }),
    ("message on", |p, f| {
        f.message = true;
        p.missing_newline_message(true)
    }),
    ("message off", |p, f| {
        f.message = false;
        p.missing_newline_message(false)
    }),
    ("suppress on", |p, f| {
        f.suppress = true;
        p.suppress_blank_empty(true)
    }),
    ("suppress off", |p, f| {
        f.suppress = false;
        p.suppress_blank_empty(false)
    }),
    ("use", |p, _| {
        let q = diffy::create_patch("a\n\nb", "c\n\nb\n");
        let _ = (write_into(&p, &q), p.fmt_patch(&q).to_string());
        p
    }),
];

fn formatter_case(c: &mut Ctx, s: &[u8]) -> Res {
    let mut f = Fmt { color: false, message: true, suppress: true };
    let mut p = PatchFormatter::new();
    for x in s {
        p = FACTS[*x as usize].1(p, &mut f);
    }
    let q = diffy::create_patch("a\n\nb", "c\n\nb\n");
    c.step(2);
    let (got, want) = (write_into(&p, &q), write_into(&formatter(f), &q));
    c.outcome(&got);
    ensure!(got == want, "the formatter gives {}, one set to {f:?} directly gives {}", esc(&got), esc(&want));
    ensure!(p.fmt_patch(&q).to_string().into_bytes() == want, "fmt_patch gives {}, expected {}", p.fmt_patch(&q), esc(&want));
    Ok(())
}

fn option_space(name: &str, k: usize, n: u32, f: fn(&mut Ctx, &[u8]) -> Res, show: fn(u8) -> String) -> Box<dyn Space> {
    space(
        format!("{name}: all sequences of <={n} of {k} actions"),
        seq_count(k as u64, n),
        move |i, c| {
            let s = acts(i, k, n);
            c.states += s.len() as u64 + 1;
            c.traces += 1;
            c.sample(|| s.iter().map(|x| show(*x)).collect::<Vec<_>>().join(", "));
            f(c, &s)
        },
        move |i| acts(i, k, n).iter().map(|x| show(*x)).collect::<Vec<_>>().join(", "),
    )
}

pub fn c17(t: Tier) -> Vec<Box<dyn Space>> {
    let n = OPS.len() as u64;
    let k = FEW.len() as u64;
    let depth = t.pick(3, 4);
    let threads = t.pick(3, 4);
    let mut v = vec![
        process_space(format!("all histories of 2 of {n} calls from a fresh process"), "tree", 2, n, |i| format!("first call [{}]", OPS[i as usize].0)),
        process_space(format!("all histories of {depth} of {n} calls; each state is a process, each continuation runs in a fork of it"), "tree2", depth, n * n, |i| {
            format!("histories starting with {}", history_text(&[i as usize / OPS.len(), i as usize % OPS.len()]))
        }),
        process_space(format!("every call 70000 times (the large ones 175 times) in a row, then all {n} calls"), "repeat", 70_000, n, |i| format!("repeating [{}]", OPS[i as usize].0)),
        process_space(format!("two threads: all histories of {threads} of {k} calls, each made by either thread"), "threads", threads, k * 2 * k, move |i| {
            format!("histories starting with [thread 0: {}] [thread {}: {}]", OPS[FEW[(i / (2 * k)) as usize]].0, i % (2 * k) / k, OPS[FEW[(i % k) as usize]].0)
        }),
        process_space(format!("all {n} calls made from within every call of the sink during {} kinds of writing a patch, by the same or another thread", OUTER.len()), "nested", 0, OUTER.len() as u64 * 2, |i| {
            format!("calls from within {}{}", OUTER[i as usize / 2], if i % 2 == 1 { ", in another thread" } else { "" })
        }),
        process_space(
            format!("{} families of calls ({} styles of arguments) with {WORDS} arguments each, and 4 mixtures of them: a walk along all ordered pairs of calls", FAMILIES.len(), STYLES.len()),
            "pairs",
            0,
            (FAMILIES.len() * STYLES.len() + 4) as u64,
            |i| format!("walk {i} starting with {:?}", symbols(i as usize)[0]),
        ),
        option_space("DiffOptions", DACTS.len(), t.pick(4, 5), diff_options_case, |x| format!("{:?}", DACTS[x as usize])),
        option_space("MergeOptions", MACTS.len(), t.pick(4, 6), merge_options_case, |x| format!("{:?}", MACTS[x as usize])),
        option_space("PatchFormatter", FACTS.len(), t.pick(6, 8), formatter_case, |x| FACTS[x as usize].0.to_string()),
    ];
    v.extend(super::preempt::spaces(t));
    v
}
