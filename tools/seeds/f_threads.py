SEEDS = [
dict(id="c17-shared-name-buffer", property="C17",
 needs="two threads decoding quoted file names at the same time",
 breaks="Quoted names are decoded in one buffer shared by all threads that is only locked byte by byte.",
 edits=[("src/patch/parse.rs", """fn escaped_filename<T: Text + ToOwned + ?Sized>(escaped: &T) -> Result<Cow<'_, [u8]>> {
    let mut filename = Vec::new();
""", """// The buffer quoted names are decoded in
static NAME: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());

fn name_buffer() -> std::sync::MutexGuard<'static, Vec<u8>> {
    NAME.lock().unwrap_or_else(|e| e.into_inner())
}

fn escaped_filename<T: Text + ToOwned + ?Sized>(escaped: &T) -> Result<Cow<'_, [u8]>> {
    name_buffer().clear();
"""), ("src/patch/parse.rs", "            filename.push(ch);", "            name_buffer().push(ch);"),
 ("src/patch/parse.rs", "            filename.push(c);", "            name_buffer().push(c);"),
 ("src/patch/parse.rs", """        }
    }

    Ok(filename.into())
}""", """        }
    }

    let filename = name_buffer().clone();
    Ok(filename.into())
}""")],
 demo=r'''
use diffy::Patch;
fn main() {
    let work = |c: char| {
        let name: String = std::iter::repeat(c).take(200).collect();
        let text = format!("--- \"{name}\\t\"\n+++ m\n@@ -1 +1 @@\n-a\n+b\n");
        for _ in 0..20000 {
            assert_eq!(Patch::from_str(&text).unwrap().original(), Some(&*format!("{name}\t")));
        }
    };
    let t: Vec<_> = "abcd".chars().map(|c| std::thread::spawn(move || work(c))).collect();
    for t in t {
        t.join().expect("thread");
    }
}
'''),
dict(id="c17-shared-ids", property="C17",
 needs="two threads computing a diff at the same time",
 breaks="Line ids are handed out by a counter all threads share and each diff resets, so a line can get the id of another one.",
 edits=[("src/utils.rs", """pub struct Classifier<'a, T: ?Sized> {
    next_id: u64,
""", """pub struct Classifier<'a, T: ?Sized> {
"""), ("src/utils.rs", """                let id = self.next_id;
                self.next_id += 1;
                *v.insert(id)""", """                *v.insert(NEXT_ID.fetch_add(1, Ordering::Relaxed))"""),
 ("src/utils.rs", """        Self {
            next_id: 0,
            unique_ids""", """        // ids start at 0 in each diff
        NEXT_ID.store(0, Ordering::Relaxed);
        Self {
            unique_ids"""),
 ("src/utils.rs", "pub struct Classifier<'a", "static NEXT_ID: AtomicU64 = AtomicU64::new(0);\n\npub struct Classifier<'a"),
 ("src/utils.rs", "    hash::Hash,\n", "    hash::Hash,\n    sync::atomic::{AtomicU64, Ordering},\n")],
 demo=r'''
fn main() {
    let t: Vec<_> = (0..4)
        .map(|k| {
            std::thread::spawn(move || {
                let a: String = (0..300).map(|i| format!("a {k} {i}\n")).collect();
                let b: String = (0..300).map(|i| format!("b {k} {i}\n")).collect();
                for _ in 0..300 {
                    let p = diffy::create_patch(&a, &b);
                    assert_eq!(diffy::apply(&a, &p).expect("applies"), b);
                }
            })
        })
        .collect();
    for t in t {
        t.join().expect("thread");
    }
}
'''),
dict(id="c17-racy-table", property="C17",
 needs="two threads writing the first file names of a process at the same time",
 breaks="The table of characters that need quoting is marked as complete before it is.",
 edits=[("src/patch/mod.rs", """        self.0.contains(ESCAPED_CHARS)""", """        // look the characters up in a table, which the first call fills
        if !FILLED.swap(true, Ordering::SeqCst) {
            for (c, special) in SPECIAL.iter().enumerate() {
                let c = c as u8 as char;
                special.store(ESCAPED_CHARS.contains(&c), Ordering::SeqCst);
            }
        }
        self.0
            .bytes()
            .any(|b| SPECIAL.get(b as usize).map_or(false, |s| s.load(Ordering::SeqCst)))"""),
 ("src/patch/mod.rs", "const ESCAPED_CHARS:", """static FILLED: AtomicBool = AtomicBool::new(false);
#[allow(clippy::declare_interior_mutable_const)]
const NOT_SPECIAL: AtomicBool = AtomicBool::new(false);
static SPECIAL: [AtomicBool; 128] = [NOT_SPECIAL; 128];

const ESCAPED_CHARS:"""),
 ("src/patch/mod.rs", "use std::{borrow::Cow, fmt, ops};", "use std::{\n    borrow::Cow,\n    fmt, ops,\n    sync::atomic::{AtomicBool, Ordering},\n};")],
 demo=r'''
use std::sync::{Arc, Barrier};
fn once() {
    let start = Arc::new(Barrier::new(4));
    let t: Vec<_> = (0..4)
        .map(|k| {
            let start = start.clone();
            std::thread::spawn(move || {
                let mut o = diffy::DiffOptions::new();
                o.set_original_filename("a\\b");
                let p = o.create_patch("a\n", "b\n");
                let mut text = String::with_capacity(1000);
                start.wait();
                for _ in 0..k * 10 {
                    std::hint::spin_loop();
                }
                use std::fmt::Write;
                write!(text, "{p}").unwrap();
                assert!(text.starts_with("--- \"a\\\\b\"\n"), "{text}");
            })
        })
        .collect();
    for t in t {
        if t.join().is_err() {
            std::process::exit(1);
        }
    }
}
fn main() {
    if std::env::args().count() > 1 {
        return once();
    }
    let end = std::time::Instant::now() + std::time::Duration::from_secs(30);
    while std::time::Instant::now() < end {
        let s = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").status().unwrap();
        assert!(s.success());
    }
}
'''),
]
