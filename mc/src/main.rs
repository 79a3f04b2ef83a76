//! Exhaustive bounded exploration of diffy against reference models.
//!
//!   mc run <property> <quick|thorough> <evidence.json> <replay dir> <known findings>
//!   mc replay <file>
//!   mc spaces <property> <tier>            lists the spaces and their sizes
//!   mc worker / mc case / mc baseline / mc stack / mc preempt   internal: child processes of `run`

mod api;
mod engine;
mod gen;
mod model;
mod props;

use engine::*;
use std::fmt::Write as _;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

const HANG_S: f64 = 45.0;
const CASE_S: f64 = 30.0;

fn cap_s(tier: Tier) -> f64 {
    std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(600.0, 7200.0))
}

fn limit_memory() {
    // address space, so that a runaway allocation aborts the worker instead of starving the sandbox
    let l: [u64; 2] = [16 << 30, 16 << 30];
    unsafe { setrlimit(9, &l) };
}

fn tier(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => panic!("tier must be quick or thorough"),
    }
}

fn prop(id: &str) -> &'static PropDef {
    props::all().iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {id}"))
}

struct Known {
    property: String,
    case: String,
    what: String,
}

/// Lines `known: property=<id> case=<text that the case description contains> ;; <what fails>`.
fn known(path: &str) -> Vec<Known> {
    let mut v = Vec::new();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let (property, r) = r.split_once(" case=").expect("known finding without case");
            let (case, what) = r.split_once(" ;; ").expect("known finding without description");
            v.push(Known { property: property.into(), case: case.into(), what: what.into() });
        }
    }
    v
}

extern "C" {
    fn mallopt(what: i32, value: i32) -> i32;
}

/// Keeps freed memory: giving it back to the system on every case makes the threads wait for each
/// other.
fn keep_memory() {
    unsafe {
        mallopt(-1, 1 << 30); // M_TRIM_THRESHOLD
        mallopt(-3, 1 << 25); // M_MMAP_THRESHOLD (the maximum)
    }
}

fn main() {
    keep_memory();
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(String::as_str).unwrap_or_else(|| panic!("missing argument {i}"));
    match s(1) {
        "run" => std::process::exit(run(s(2), tier(s(3)), s(4), s(5), s(6))),
        "worker" => std::process::exit(worker(s(2), tier(s(3)), s(4), s(5), s(6))),
        "case" => {
            limit_memory();
            install_panic_hook();
            let spaces = (prop(s(2)).spaces)(tier(s(3)));
            let sp = &spaces[s(4).parse::<usize>().unwrap()];
            let i: u64 = s(5).parse().unwrap();
            let mut c = Ctx::default();
            match run_case(&**sp, i, &mut c) {
                Ok(()) => println!("ok"),
                Err(m) => {
                    println!("FAIL {m}");
                    std::process::exit(1);
                }
            }
        }
        "describe" => {
            let spaces = (prop(s(2)).spaces)(tier(s(3)));
            println!("{}", spaces[s(4).parse::<usize>().unwrap()].describe(s(5).parse().unwrap()));
        }
        "spaces" => {
            for (i, sp) in (prop(s(2)).spaces)(tier(s(3))).iter().enumerate() {
                println!("{i}\t{}\t{}", sp.len(), sp.name());
            }
        }
        "stack" => {
            limit_memory();
            install_panic_hook();
            if let Err(m) = props::stack::run(s(2).parse().unwrap()) {
                println!("{m}");
                std::process::exit(1);
            }
        }
        "preempt" => props::preempt::main(s(2), s(3).parse().unwrap()),
        "replay" => std::process::exit(replay(s(2))),
        "baseline" => props::history::baseline_main(s(2)),
        "history" => props::history::history_main(s(2), s(3).parse().unwrap(), s(4).parse().unwrap()),
        "list" => props::all().iter().for_each(|p| println!("{}", p.id)),
        x => panic!("unknown command {x}"),
    }
}

// ------------------------------------------------------------------------------------------------
// the worker explores; whatever it cannot survive is the supervisor's business

fn worker(id: &str, t: Tier, slots: &str, evidence: &str, known_path: &str) -> i32 {
    limit_memory();
    install_panic_hook();
    let t0 = Instant::now();
    let p = prop(id);
    let spaces = (p.spaces)(t);
    let slots = Slots::open(slots);
    let threads = p.threads.unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get())).min(SLOTS);
    let kf: Vec<Known> = known(known_path).into_iter().filter(|k| k.property == id).collect();
    let is_known = |s: &dyn Space, i: u64| -> Option<usize> {
        if kf.is_empty() {
            return None;
        }
        let d = s.describe(i);
        kf.iter().position(|k| d.contains(&k.case))
    };
    let r = explore(&spaces, threads, &slots, cap_s(t), t0, &is_known);
    for k in &r.known_hit {
        println!("KNOWN-FINDING: property={id} {}", kf[*k].what);
    }
    write_evidence(evidence, p, t, &r, t0.elapsed().as_secs_f64(), threads, r.found.len());
    println!(
        "{id} {}: {} states, {} transitions, {} traces, {} distinct outcomes, {} indices skipped as symmetric, {} spaces, exhaustive={}, {:.1}s",
        t.name(), r.ctx.states, r.ctx.transitions, r.ctx.traces, r.ctx.outcomes.len(), r.ctx.skipped, r.spaces.len(), r.complete, t0.elapsed().as_secs_f64()
    );
    match r.found.first() {
        None => 0,
        Some(f) => {
            // the supervisor prints the VIOLATION line
            println!("FOUND {} {} {}", f.space, f.index, f.message.replace('\n', "\\n"));
            1
        }
    }
}

fn write_evidence(path: &str, p: &PropDef, t: Tier, r: &Report, wall: f64, threads: usize, violations: usize) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut o = String::new();
    let c = &r.ctx;
    let spaces: Vec<String> = r
        .spaces
        .iter()
        .map(|s| {
            format!(
                "{{\"space\":{},\"indices\":{},\"executed\":{},\"complete\":{},\"wall_s\":{:.2}}}",
                json_str(&s.name), s.indices, s.executed, s.complete, s.wall_s
            )
        })
        .collect();
    let cats: Vec<String> = c.cats.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    let samples: Vec<String> = c.samples.iter().take(40).map(|s| json_str(s)).collect();
    let assumptions: Vec<String> = p.assumptions.iter().map(|s| json_str(s)).collect();
    let _ = write!(
        o,
        "{{\"property\":{},\"tier\":\"{}\",\"seed\":{seed},\"level\":\"model_checking\",\"coverage\":{{\
         \"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_outcomes\":{},\"symmetric_or_invalid_indices_skipped\":{},\
         \"exhaustive\":{},\"rule\":{},\"explanation\":{},\"categories\":{{{}}},\"spaces\":[{}],\"samples\":[{}],\"threads\":{threads}}},\
         \"assumptions\":[{}],\"wall_s\":{wall:.2},\"violations\":{violations}}}\n",
        json_str(p.id), t.name(), c.states, c.transitions, c.traces, c.outcomes.len(), c.skipped, r.complete,
        json_str(p.rule),
        json_str("states: distinct configurations (inputs, option settings, histories) reached; transitions: calls of the real implementation whose result was compared with the reference model; traces: complete executions replayed on the implementation and validated step by step"),
        cats.join(","), spaces.join(","), samples.join(","), assumptions.join(",")
    );
    std::fs::write(path, o).expect("write evidence");
}

// ------------------------------------------------------------------------------------------------
// supervisor

fn self_cmd() -> Command {
    Command::new(std::env::current_exe().expect("exe"))
}

enum Outcome {
    Pass,
    Fail(String),
    Hang,
    Crash(String),
}

fn one_case(id: &str, t: Tier, space: u64, index: u64, limit: f64) -> Outcome {
    let mut ch = self_cmd()
        .args(["case", id, t.name(), &space.to_string(), &index.to_string()])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn case");
    let t0 = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            let mut s = String::new();
            use std::io::Read;
            let _ = ch.stdout.take().unwrap().read_to_string(&mut s);
            return match st.code() {
                Some(0) => Outcome::Pass,
                Some(1) => Outcome::Fail(s.trim().trim_start_matches("FAIL ").to_string()),
                _ => Outcome::Crash(format!("the process died: {st}")),
            };
        }
        if t0.elapsed().as_secs_f64() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return Outcome::Hang;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

#[allow(clippy::too_many_arguments)]
fn report(id: &str, t: Tier, space: u64, index: u64, message: &str, dir: &str, known_path: &str) -> i32 {
    let spaces = (prop(id).spaces)(t);
    let sp = &spaces[space as usize];
    let d = sp.describe(index);
    if let Some(k) = known(known_path).iter().find(|k| k.property == id && d.contains(&k.case)) {
        println!("KNOWN-FINDING: property={id} {}", k.what);
        return 0;
    }
    let again = match one_case(id, t, space, index, CASE_S) {
        Outcome::Pass => "passes when run alone: it depends on the calls made before it".to_string(),
        Outcome::Fail(m) => format!("fails again when run alone: {m}"),
        Outcome::Hang => "hangs again when run alone".into(),
        Outcome::Crash(m) => format!("crashes again when run alone: {m}"),
    };
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{dir}/{id}-{}.txt", t.name());
    let text = format!(
        "property {id}\ntier {}\nspace {space}\nindex {index}\nspace name: {}\ncase: {d}\nfailure: {message}\nreproduction: {again}\nreplay with: ./check.sh replay {path}\n",
        t.name(), sp.name()
    );
    std::fs::write(&path, text).expect("write replay");
    println!("case: {d}\nfailure: {message}\n{again}");
    println!("VIOLATION property={id} replay={path}");
    1
}

fn run(id: &str, t: Tier, evidence: &str, dir: &str, known_path: &str) -> i32 {
    let t0 = Instant::now();
    let slot_path = format!("{}/mc-slots-{id}-{}", std::env::temp_dir().display(), std::process::id());
    let _ = std::fs::remove_file(&slot_path);
    let _ = std::fs::remove_file(evidence);
    let slots = Slots::open(&slot_path);
    let mut ch = self_cmd()
        .args(["worker", id, t.name(), &slot_path, evidence, known_path])
        .stdout(Stdio::piped())
        .spawn()
        .expect("spawn worker");
    let mut out = ch.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = String::new();
        use std::io::Read;
        let _ = out.read_to_string(&mut s);
        s
    });
    let mut seen: Vec<(u64, u64, u64, Instant)> = (0..SLOTS).map(|_| (0, 0, 0, Instant::now())).collect();
    let mut slow: Vec<(u64, u64)> = Vec::new();
    let mut verdict: Option<(u64, u64, String)> = None;
    let status = 'wait: loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            break st;
        }
        std::thread::sleep(Duration::from_millis(20));
        for (k, prev) in seen.iter_mut().enumerate() {
            let (active, s, i, done) = slots.read(k);
            if !active || (s, i, done) != (prev.0, prev.1, prev.2) {
                *prev = (s, i, done, Instant::now());
                continue;
            }
            if prev.3.elapsed().as_secs_f64() > HANG_S && !slow.contains(&(s, i)) {
                slow.push((s, i));
                match one_case(id, t, s, i, CASE_S) {
                    Outcome::Hang => verdict = Some((s, i, format!("does not terminate (no result after {CASE_S} s)"))),
                    Outcome::Crash(m) => verdict = Some((s, i, m)),
                    Outcome::Fail(m) => verdict = Some((s, i, m)),
                    Outcome::Pass => {}
                }
                if verdict.is_some() {
                    let _ = ch.kill();
                    break 'wait ch.wait().expect("wait");
                }
            }
        }
    };
    let text = reader.join().unwrap_or_default();
    let mut code = status.code().unwrap_or(-1);
    for l in text.lines() {
        if let Some(f) = l.strip_prefix("FOUND ") {
            let mut w = f.splitn(3, ' ');
            let (s, i) = (w.next().unwrap().parse().unwrap(), w.next().unwrap().parse().unwrap());
            verdict.get_or_insert((s, i, w.next().unwrap_or("").to_string()));
        } else {
            println!("{l}");
        }
    }
    if verdict.is_none() && code != 0 {
        // the worker died: find the case that kills it
        for k in 0..SLOTS {
            let (active, s, i, _) = slots.read(k);
            if !active {
                continue;
            }
            match one_case(id, t, s, i, CASE_S) {
                Outcome::Pass => {}
                Outcome::Fail(m) | Outcome::Crash(m) => verdict = Some((s, i, m)),
                Outcome::Hang => verdict = Some((s, i, "does not terminate".into())),
            }
            if verdict.is_some() {
                break;
            }
        }
        if verdict.is_none() {
            eprintln!("{id}: the worker ended with {status} and no case reproduces it");
        }
    }
    if let Some((s, i, m)) = verdict {
        if !std::path::Path::new(evidence).exists() {
            let mut c = Ctx { states: 1, transitions: 1, traces: 1, ..Default::default() };
            c.samples.push(m.clone());
            let done: u64 = (0..SLOTS).map(|k| slots.read(k).3).sum();
            c.states += done;
            let r = Report { ctx: c, spaces: vec![], found: vec![], known_hit: Default::default(), complete: false };
            write_evidence(evidence, prop(id), t, &r, t0.elapsed().as_secs_f64(), 0, 1);
        }
        code = report(id, t, s, i, &m, dir, known_path);
    } else if code != 0 {
        code = 2;
    }
    let _ = std::fs::remove_file(&slot_path);
    code
}

fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or_else(|| panic!("no {k}")).trim().to_string();
    let (id, t) = (get("property "), tier(&get("tier ")));
    let (s, i): (u64, u64) = (get("space ").parse().unwrap(), get("index ").parse().unwrap());
    println!("{}", text.lines().find(|l| l.starts_with("case: ")).unwrap_or(""));
    match one_case(&id, t, s, i, CASE_S) {
        Outcome::Pass => {
            println!("the case passes");
            0
        }
        Outcome::Fail(m) | Outcome::Crash(m) => {
            println!("{m}");
            1
        }
        Outcome::Hang => {
            println!("the case does not terminate");
            1
        }
    }
}
