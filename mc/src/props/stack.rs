//! C19: the stack.  Large inputs on threads with the default stack (2 MiB), in the optimised build and,
//! in a child process, in an unoptimised one, where calls in tail position are not turned into loops.

use crate::engine::*;
use diffy::{DiffOptions, MergeOptions, Patch, PatchFormatter};
use std::io;

const SIZES: &[usize] = &[1000, 10_000, 70_000, 100_000];

struct Dribble {
    left: usize,
    got: usize,
}

impl io::Write for Dribble {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left > 0 {
            self.left -= 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.got += b.len().min(1);
        Ok(b.len().min(1))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn numbered(n: usize) -> String {
    (0..n).map(|i| format!("{i}\n")).collect()
}

/// everything that can be done with a patch
fn around(p: &Patch<'_, str>, base: &str) {
    let t = p.to_string();
    let q = Patch::from_str(&t).expect("own text");
    assert!(q == *p && q.clone() == *p);
    let r = q.reverse();
    let _ = r.to_string().len();
    for base in [base, ""] {
        if let Ok(m) = diffy::apply(base, p) {
            let _ = diffy::apply(&m, &r).expect("back");
        }
    }
    let b = Patch::from_bytes(t.as_bytes()).expect("own text");
    let _ = PatchFormatter::new().with_color().fmt_patch(p).to_string();
    assert_eq!(b.to_bytes(), t.as_bytes());
    if let Ok(m) = diffy::apply_bytes(base.as_bytes(), &b) {
        let _ = diffy::apply_bytes(&m, &b.reverse()).expect("back");
    }
}

fn pair(o: &str, m: &str, context: usize) {
    let mut d = DiffOptions::new();
    d.set_context_len(context);
    let p = d.create_patch(o, m);
    around(&p, o);
    let b = d.create_patch_bytes(o.as_bytes(), m.as_bytes());
    assert_eq!(b.hunks().len(), p.hunks().len());
    triple(o, m, o);
    triple(o, m, m);
}

fn triple(o: &str, a: &str, b: &str) {
    let x = diffy::merge(o, a, b);
    let y = diffy::merge_bytes(o.as_bytes(), a.as_bytes(), b.as_bytes());
    assert_eq!(x.is_ok(), y.is_ok());
}

type Case = (&'static str, fn(usize));

const CASES: &[Case] = &[
    ("a change in every ten thousand lines", |n| {
        let o = numbered(n);
        let m = (0..n).map(|i| if i % 10_000 == 500 { format!("x{i}\n") } else { format!("{i}\n") }).collect::<String>();
        pair(&o, &m, 3)
    }),
    ("equal lines, some more", |n| pair(&"a\n".repeat(n), &"a\n".repeat(n + 20), 3)),
    ("nothing and many lines", |n| pair("", &numbered(n), 3)),
    ("other line ends only at the end", |n| pair(&numbered(n), numbered(n).trim_end(), n)),
    ("many hunks", |n| {
        let k = n / 30;
        let t = (0..k).map(|i| format!("@@ -{},2 +{},2 @@\n a\n-b\n+c\n", 4 * i + 1, 4 * i + 1)).collect::<String>();
        around(&Patch::from_str(&t).expect("patch"), &"a\nb\nx\ny\n".repeat(k))
    }),
    ("one large hunk", |n| {
        let t = format!("--- a\n+++ b\n@@ -1,{} +1,{} @@\n{}", 2 * n, 2 * n, " a\n-b\n+c\n".repeat(n));
        around(&Patch::from_str(&t).expect("patch"), &"a\nb\n".repeat(n))
    }),
    ("long preamble", |n| {
        let t = format!("{}--- a\n+++ b\n@@ -1 +1 @@\n-b\n+c\n", "index\n".repeat(n));
        around(&Patch::from_str(&t).expect("patch"), "b\n");
        let t = "index\n".repeat(n);
        around(&Patch::from_str(&t).expect("patch"), "b\n")
    }),
    ("long names", |n| {
        for name in ["a".repeat(n), "\n\"\\a".repeat(n / 4), "é".repeat(n)] {
            let mut d = DiffOptions::new();
            d.set_original_filename(name.clone()).set_modified_filename(name);
            around(&d.create_patch("a\n", "b\n"), "a\n");
        }
    }),
    ("long lines", |n| {
        for l in ["a".repeat(n), "é".repeat(n), " ".repeat(n), "\r".repeat(n)] {
            pair(&format!("{l}\n{l}x\n"), &format!("{l}x\n{l}"), 3);
            triple("a\n", &l, &format!("{l}x"));
        }
    }),
    ("long function context", |n| {
        let t = format!("@@ -1 +1 @@ {}\n-b\n+c\n", "f @@ ".repeat(n));
        around(&Patch::from_str(&t).expect("patch"), "b\n")
    }),
    ("many conflicts", |n| {
        let k = n / 500;
        let f = |s: &str| (0..k).map(|i| format!("k{i}\n{s}{i}\n")).collect::<String>();
        triple(&f("o"), &f("a"), &f("b"));
        triple(&f("o"), &f("a"), &f("a"));
    }),
    ("long sections", |n| {
        let f = |s: &str| (0..n).map(|i| format!("{s}{i}\n")).collect::<String>();
        triple("k\n", &format!("k\n{}", f("a")), &format!("k\n{}", f("b")));
        triple(&format!("k\n{}", f("a")), "k\n", &format!("x\n{}", f("a")));
    }),
    ("markers", |n| {
        let mut m = MergeOptions::new();
        m.set_conflict_marker_length(n);
        assert!(m.merge("a\n", "b\n", "c\n").is_err());
        assert!(m.merge_bytes(b"a\n", b"b\n", b"c\n").is_err());
    }),
    ("sink that takes a byte at a time after many interruptions", |n| {
        let o = numbered(n / 10);
        let p = diffy::create_patch("", &o);
        let mut s = Dribble { left: n, got: 0 };
        PatchFormatter::new().write_patch_into(&p, &mut s).expect("write");
        assert_eq!(s.got, p.to_string().len());
    }),
    ("no line in common", |n| {
        let n = n.min(400);
        pair(&numbered(n), &(0..n).map(|i| format!("x{i}\n")).collect::<String>(), 3);
    }),
    ("interleaved", |n| {
        let n = n.min(400);
        pair(&numbered(n), &(0..n).map(|i| format!("{}\n", i * 7 % n)).collect::<String>(), 0);
    }),
    ("hunk far from its place", |n| {
        let t = format!("@@ -{n} +{n} @@\n-b\n+c\n");
        let p = Patch::from_str(&t).expect("patch");
        around(&p, &format!("b\n{}", "a\n".repeat(n)));
        let t = "@@ -1 +1 @@\n-b\n+c\n";
        around(&Patch::from_str(t).expect("patch"), &format!("{}b\n", "a\n".repeat(n)));
    }),
    ("not a patch", |n| {
        for t in ["@@ ", "@@ -1 +1 @@\n", "--- \"\\", "--- a\n", "@@ -1,1,1", "@@ -1 +1 @@\n-a\n\\ No newline at end of file\n", "\u{feff}@"] {
            let t = t.repeat(n);
            assert!(Patch::from_str(&t).is_err() == Patch::from_bytes(t.as_bytes()).is_err());
        }
    }),
];

pub fn count() -> u64 {
    (CASES.len() * SIZES.len()) as u64
}

fn decode(i: u64) -> (&'static Case, usize) {
    (&CASES[i as usize / SIZES.len()], SIZES[i as usize % SIZES.len()])
}

/// Runs a case on a thread with the default stack.
pub fn run(i: u64) -> Res {
    let ((_, f), n) = decode(i);
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || match std::panic::catch_unwind(move || f(n)) {
        Ok(()) => Ok(()),
        Err(_) => Err(last_panic()),
    });
    t.expect("spawn").join().expect("join")
}

fn in_child(i: u64) -> Res {
    let me = std::env::current_exe().expect("exe");
    let other = me.parent().and_then(|p| p.parent()).expect("target").join("unopt").join("mc");
    let o = std::process::Command::new(&other).args(["stack", &i.to_string()]).output().unwrap_or_else(|e| panic!("{}: {e}", other.display()));
    if o.status.success() {
        return Ok(());
    }
    Err(format!("unoptimised build: {} {}", o.status, String::from_utf8_lossy(&[&o.stdout[..], &o.stderr[..]].concat()).chars().take(300).collect::<String>()))
}

pub fn spaces() -> Vec<Box<dyn Space>> {
    let name = |build: &str| format!("{} kinds of large inputs x sizes {SIZES:?} on a thread with the default stack, {build} build", CASES.len());
    let describe = |i: u64| {
        let ((what, _), n) = decode(i);
        format!("{what}, size {n}")
    };
    let mk = |build: &str, f: fn(u64) -> Res| {
        space(
            name(build),
            count(),
            move |i, c: &mut Ctx| {
                c.states += 1;
                c.traces += 1;
                c.step(10);
                c.outcome(&i);
                f(i)
            },
            describe,
        )
    };
    vec![mk("optimised", run), mk("unoptimised", in_child)]
}
