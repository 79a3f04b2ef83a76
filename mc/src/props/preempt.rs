//! C17: one call interrupted by another.
//!
//! In the `sched` build the library calls `__sanitizer_cov_trace_pc` at every edge of its control
//! flow.  Each such point is a scheduling point: a thread making one call is stopped there, another
//! thread makes another call, completely or up to a scheduling point of its own, and both go on.
//! Every schedule runs in a fork of a process that has made no call yet.

use super::history::{branch, Page};
use crate::api::*;
use crate::engine::*;
use crate::ensure;
use diffy::{ConflictStyle, DiffOptions, MergeOptions, Patch, PatchFormatter};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

thread_local! {
    /// 0: not scheduled, 1: the first thread, 2: the second
    static ROLE: Cell<u8> = const { Cell::new(0) };
}
static POINTS: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
static STOP: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
static SECOND: AtomicU64 = AtomicU64::new(0);

#[derive(Default)]
struct Progress {
    started: bool,
    paused: bool,
    first_done: bool,
    second: Option<Vec<u8>>,
    gave_up: bool,
}
static PROGRESS: Mutex<Progress> = Mutex::new(Progress { started: false, paused: false, first_done: false, second: None, gave_up: false });
static CHANGED: Condvar = Condvar::new();

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    let me = ROLE.get();
    if me == 0 {
        return;
    }
    let n = POINTS[me as usize - 1].fetch_add(1, SeqCst) + 1;
    if n == STOP[me as usize - 1].load(SeqCst) {
        ROLE.set(0);
        if me == 1 {
            first_stopped();
        } else {
            second_stopped();
        }
        ROLE.set(me);
    }
}

/// Waits until `f`, or until the time is over.
fn wait(limit: Duration, f: impl Fn(&Progress) -> bool) -> bool {
    let end = Instant::now() + limit;
    let mut p = PROGRESS.lock().unwrap();
    loop {
        if f(&p) {
            return true;
        }
        let now = Instant::now();
        if now >= end {
            return false;
        }
        p = CHANGED.wait_timeout(p, end - now).unwrap().0;
    }
}

fn change(f: impl FnOnce(&mut Progress)) {
    f(&mut PROGRESS.lock().unwrap());
    CHANGED.notify_all();
}

fn first_stopped() {
    change(|p| p.started = true);
    // a call that waits for the other one (a lock) goes on later
    if !wait(Duration::from_millis(200), |p| p.second.is_some() || p.paused) {
        change(|p| p.gave_up = true);
    }
}

/// The second thread: makes its call whenever the first one is stopped.
fn second_thread() {
    std::thread::spawn(|| loop {
        wait(Duration::from_secs(1000), |p| p.started && p.second.is_none());
        ROLE.set(2);
        let r = call(SECOND.load(SeqCst) as usize);
        ROLE.set(0);
        change(|p| p.second = Some(r));
    });
}

fn second_stopped() {
    change(|p| p.paused = true);
    if !wait(Duration::from_secs(2), |p| p.first_done) {
        change(|p| p.gave_up = true);
    }
}

type Op = (&'static str, fn() -> Vec<u8>);

fn t<E: std::fmt::Display>(r: Result<String, E>) -> Vec<u8> {
    match r {
        Ok(t) => [b"ok ", t.as_bytes()].concat(),
        Err(e) => format!("err {e}").into_bytes(),
    }
}

fn options(ctx: usize, a: &'static str, b: &'static str) -> DiffOptions {
    let mut o = DiffOptions::new();
    o.set_context_len(ctx).set_original_filename(a).set_modified_filename(b);
    o
}

fn merging(n: usize, s: ConflictStyle) -> MergeOptions {
    let mut o = MergeOptions::new();
    o.set_conflict_marker_length(n).set_conflict_style(s);
    o
}

const P1: &str = "--- \"a\\tb\"\n+++ b\n@@ -1,2 +1,2 @@ f\n a\n-b\n+c\n";
const P2: &str = "--- x\n+++ \"y\\\"\\n\"\n@@ -2 +2,0 @@\n-q\n@@ -5,0 +5 @@\n+r\n\\ No newline at end of file\n";

/// Small calls: two of each kind, with different arguments.
static OPS: &[Op] = &[
    ("create a patch", || options(1, "n\t", "m").create_patch("a\nb\nc\n", "a\nX\nc\n").to_string().into_bytes()),
    ("create another patch", || options(0, "o", "\"").create_patch("p\nq\nq", "q\np\nq\nr\n").to_string().into_bytes()),
    ("create a bytes patch", || options(1, "n\\", "m").create_patch_bytes(b"\xff\nb\n", b"b\n\xff").to_bytes()),
    ("create another bytes patch", || diffy::create_patch_bytes(b"1\n2\n3\n", b"1\n3\n").to_bytes()),
    ("parse a patch", || format!("{:?}", Patch::from_str(P1)).into_bytes()),
    ("parse another patch", || format!("{:?}", Patch::from_str(P2)).into_bytes()),
    ("parse a bytes patch", || format!("{:?}", Patch::from_bytes(P1.as_bytes())).into_bytes()),
    ("parse a bad bytes patch", || format!("{:?}", Patch::from_bytes(b"@@ -1 +1 @@\n-a\n")).into_bytes()),
    ("apply a patch", || t(diffy::apply("x\na\nb\nz\n", &Patch::from_str(P1).unwrap()))),
    ("apply another patch", || t(diffy::apply("1\nq\n3\n4\n5\n", &Patch::from_str(P2).unwrap()))),
    ("apply a patch that does not fit", || t(diffy::apply("b\na\n", &Patch::from_str(P1).unwrap()))),
    ("apply a bytes patch", || match diffy::apply_bytes(b"a\nb\n\xff", &Patch::from_bytes(P1.as_bytes()).unwrap()) {
        Ok(x) => x,
        Err(e) => e.to_string().into_bytes(),
    }),
    ("merge with a conflict", || t(merging(3, ConflictStyle::Diff3).merge("1\n2\n3\n", "1\na\n3\n", "1\nb\n3\n"))),
    ("merge with another conflict", || t(merging(9, ConflictStyle::Merge).merge("k\n", "k\nx", "k\ny\n"))),
    ("merge cleanly", || t(diffy::merge("1\n2\n3\n", "0\n1\n2\n3\n", "1\n2\n"))),
    ("merge bytes", || diffy::merge_bytes(b"1\n2\n", b"1\n\xff\n", b"2\n").unwrap_or_else(|e| [&b"err "[..], &e].concat())),
    ("format in color", || PatchFormatter::new().with_color().fmt_patch(&Patch::from_str(P1).unwrap()).to_string().into_bytes()),
    ("write in color", || {
        let mut v = Vec::new();
        PatchFormatter::new().with_color().missing_newline_message(false).write_patch_into(&Patch::from_bytes(P2.as_bytes()).unwrap(), &mut v).unwrap();
        v
    }),
    ("reverse a patch", || Patch::from_str(P2).unwrap().reverse().to_string().into_bytes()),
    ("clone and compare patches", || {
        let (p, q) = (Patch::from_str(P1).unwrap(), Patch::from_str(P2).unwrap());
        format!("{} {} {}", p.clone() == p, p == q, p.hunks()[0].clone() == q.hunks()[0]).into_bytes()
    }),
];

fn call(k: usize) -> Vec<u8> {
    match std::panic::catch_unwind(|| OPS[k].1()) {
        Ok(v) => v,
        Err(_) => format!("panicked: {}", last_panic()).into_bytes(),
    }
}

/// The call alone, in a process of its own; the result is left in the page.
fn alone(page: &Page, k: usize) -> (Vec<u8>, u64) {
    branch(page, || OPS[k].0.to_string(), || {
        ROLE.set(1);
        let r = call(k);
        ROLE.set(0);
        page.put(&r);
        *page.at(5) = POINTS[0].load(SeqCst);
    });
    (page.take(), *page.at(5))
}

fn text((a, b): (usize, usize), (k, j): (u64, u64)) -> String {
    let rest = if j > 0 { format!(" up to its scheduling point {j}, thread 1 finishes, then thread 2") } else { ", thread 1 goes on".into() };
    format!("thread 1 is stopped at scheduling point {k} of [{}], thread 2 makes the call [{}]{rest}", OPS[a].0, OPS[b].0)
}

/// One schedule.  Says whether the second thread reached its point.
fn schedule(page: &Page, (a, b): (usize, usize), (k, j): (u64, u64), want: (&[u8], &[u8])) -> bool {
    change(|p| *p = Progress::default());
    for i in 0..2 {
        POINTS[i].store(0, SeqCst);
        STOP[i].store([k, j][i], SeqCst);
    }
    SECOND.store(b as u64, SeqCst);
    ROLE.set(1);
    let got = call(a);
    ROLE.set(0);
    change(|p| p.first_done = true);
    let text = || text((a, b), (k, j));
    if got != want.0 {
        page.fail(&format!("{}: the first call gives {}, but {} when made alone", text(), esc(&got), esc(want.0)));
    }
    if !PROGRESS.lock().unwrap().started {
        // fewer points than when made first, e.g. because something has been initialised by now
        *page.at(8) += 1;
        return false;
    }
    if !wait(Duration::from_secs(100), |p| p.second.is_some()) {
        page.fail(&format!("{}: the second call does not return", text()));
        return false;
    }
    let p = PROGRESS.lock().unwrap();
    let got = p.second.as_deref().unwrap();
    if got != want.1 {
        page.fail(&format!("{}: the second call gives {}, but {} when made alone", text(), esc(got), esc(want.1)));
    }
    *page.at(6) += p.gave_up as u64;
    *page.at(0) += 1;
    *page.at(1) += k + POINTS[1].load(SeqCst);
    *page.at(2) += 1;
    p.paused
}

/// `mc preempt <one|two> <index>`
pub fn main(kind: &str, i: u64) {
    install_panic_hook();
    let page = Page::new();
    let n = OPS.len() as u64;
    let (a, b) = ((i / n) as usize, (i % n) as usize);
    let ((wa, pa), (wb, pb)) = (alone(&page, a), alone(&page, b));
    let mut end = "all";
    if pa == 0 || pb == 0 {
        page.fail("the library has no scheduling points in this build");
    }
    let over = |end: &mut &str| {
        // calls that exclude each other: most schedules are not possible
        if *page.at(6) > 20 {
            *end = "some";
        }
        page.failed() || *page.at(6) > 20
    };
    if kind == "one" {
        // each schedule starts from a process that has made no call
        for k in 1..=pa {
            branch(&page, || text((a, b), (k, 0)), || {
                second_thread();
                schedule(&page, (a, b), (k, 0), (&wa, &wb));
            });
            if over(&mut end) {
                break;
            }
        }
    } else {
        branch(&page, || describe(i), || {
            second_thread();
            'all: for k in 1..=pa {
                for j in 1.. {
                    let reached = schedule(&page, (a, b), (k, j), (&wa, &wb));
                    if over(&mut end) {
                        break 'all;
                    }
                    if !reached {
                        break;
                    }
                }
            }
        });
        over(&mut end);
    }
    let verdict = if page.failed() { format!("FAIL {}", page.message()) } else { "ok".into() };
    println!("{} {} {} {pa} {end}\n{verdict}", page.at(0), page.at(1), page.at(2));
}

fn child(kind: &'static str, i: u64, c: &mut Ctx) -> Res {
    let me = std::env::current_exe().expect("exe");
    let other = me.parent().and_then(|p| p.parent()).expect("target").join("sched").join("mc");
    let o = std::process::Command::new(&other).args(["preempt", kind, &i.to_string()]).stderr(std::process::Stdio::null()).output().unwrap_or_else(|e| panic!("{}: {e}", other.display()));
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    let (counts, verdict) = text.split_once('\n').ok_or("the process gave no result")?;
    let n: Vec<u64> = counts.split(' ').filter_map(|x| x.parse().ok()).collect();
    c.states += n[0];
    c.transitions += n[1];
    c.traces += n[2];
    c.outcome(&(kind, i));
    if counts.ends_with("some") {
        c.cat("calls that wait for each other (schedules cut)");
    }
    ensure!(verdict.trim() == "ok", "{}", verdict.trim());
    c.sample(|| format!("{}: {} schedules", describe(i), n[2]));
    Ok(())
}

fn describe(i: u64) -> String {
    let n = OPS.len() as u64;
    format!("[{}] interrupted by [{}]", OPS[(i / n) as usize].0, OPS[(i % n) as usize].0)
}

pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    let n = OPS.len() as u64;
    let mut v = vec![space(
        format!("all pairs of {n} calls in two threads, the second call made at every scheduling point (edge of the control flow) of the first, each in a fresh process"),
        n * n,
        |i, c| child("one", i, c),
        describe,
    )];
    // two preemptions
    let pairs: Vec<u64> = (0..n * n).filter(|i| t == Tier::Thorough || i / n / 2 == i % n / 2 && i / n != i % n).collect();
    let all = pairs.clone();
    v.push(space(
        format!("{} pairs of {n} calls in two threads, two preemptions: the second call stopped at every point of its own while the first goes on from every point of its own", pairs.len()),
        pairs.len() as u64,
        move |i, c| child("two", pairs[i as usize], c),
        move |i| describe(all[i as usize]),
    ));
    v
}
