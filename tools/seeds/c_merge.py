SEEDS = [
dict(id="c09-patched-edges", property="C09",
 needs="a later hunk whose old lines match a place which has lines written by an earlier hunk strictly inside it",
 breaks="Only the first and the last line of a candidate place are checked for having been patched, so a later hunk can be applied over lines an earlier hunk wrote.",
 edits=[("src/apply.rs", "    if image.iter().any(ImageLine::is_patched) {", "    // (patched lines are always next to each other, so it's enough to look at both ends)\n    if image.first().into_iter().chain(image.last()).any(ImageLine::is_patched) {")],
 demo=r'''
use diffy::Patch;
fn main() {
    // the first hunk inserts `b` between `a` and `c`, the second one wants to change `a b c`
    let p = Patch::from_str("@@ -1,0 +2 @@\n+b\n@@ -5,3 +6,3 @@\n a\n-b\n+B\n c\n").unwrap();
    assert!(diffy::apply("a\nc\nx\n", &p).is_err());
}
'''),
dict(id="c09-zip-sides", property="C09",
 needs="a hunk that only fits further away from its stated position than the nearer end of the text",
 breaks="The places before and after the stated one are tried in lock step, and the search ends as soon as one of the directions is exhausted.",
 edits=[("src/apply.rs", """        .chain(interleave(backward, forward))""", """        .chain(interleave(backward, forward).take(2 * pos.min(image.len() - pos).max(8)))""")],
 demo=r'''
use diffy::Patch;
fn main() {
    let p = Patch::from_str("@@ -1 +1 @@\n-x\n+y\n").unwrap();
    for n in [0usize, 1, 5, 9, 20, 60] {
        let base = format!("{}x\n", "a\n".repeat(n));
        let want = format!("{}y\n", "a\n".repeat(n));
        assert_eq!(diffy::apply(&base, &p).unwrap(), want, "{n} lines before");
    }
}
'''),
dict(id="c09-later-on-tie", property="C09",
 needs="two matching places at the same distance before and after the stated one, in a text where the stated line is not a match",
 breaks="Among two equally near places the later one is taken.",
 edits=[("src/apply.rs", "        .chain(interleave(backward, forward))", "        .chain(interleave(forward, backward))")],
 demo=r'''
use diffy::Patch;
fn main() {
    let p = Patch::from_str("@@ -3 +3 @@\n-x\n+y\n").unwrap();
    assert_eq!(diffy::apply("a\nx\nb\nx\nc\n", &p).unwrap(), "a\ny\nb\nx\nc\n");
}
'''),
dict(id="c10-last-place", property="C10",
 needs="a hunk whose lines are the very last ones of the base and which has to move forward",
 breaks="The forward search leaves out the last possible place.",
 edits=[("src/apply.rs", "    let forward = pos + 1..image.len();", "    // places which are too close to the end to hold the hunk can't match\n    let forward = pos + 1..image.len().saturating_sub(pre_image_line_count(hunk.lines()));")],
 demo=r'''
fn main() {
    let (old, new) = ("a\nb\nc\nd\ne\n", "a\nb\nc\nd\nE\n");
    let p = diffy::create_patch(old, new);
    assert_eq!(diffy::apply(&format!("0\n{old}"), &p).unwrap(), format!("0\n{new}"));
    assert_eq!(diffy::apply(&format!("0\n1\n{old}"), &p).unwrap(), format!("0\n1\n{new}"));
}
'''),
dict(id="c10-window", property="C10",
 needs="a base that has drifted by more than 1000 lines",
 breaks="Places more than 1000 lines away from the stated one are not tried.",
 edits=[("src/apply.rs", "        .chain(interleave(backward, forward))", "        .chain(interleave(backward, forward).take(2 * MAX_OFFSET))"),
        ("src/apply.rs", "// Search in `image` for a palce", "/// The number of lines a hunk can be off\nconst MAX_OFFSET: usize = 1000;\n\n// Search in `image` for a palce")],
 demo=r'''
fn main() {
    let (old, new) = ("a\nb\nc\nd\ne\n", "a\nb\nC\nd\ne\n");
    let p = diffy::create_patch(old, new);
    for n in [10, 999, 1001, 2500] {
        let head = "0\n".repeat(n);
        assert_eq!(diffy::apply(&format!("{head}{old}"), &p).unwrap(), format!("{head}{new}"), "{n}");
    }
}
'''),
dict(id="c10-accumulated-offset", property="C09",
 needs="two hunks which have drifted differently, the second one's lines being unique",
 breaks="A hunk is searched at or after the end of the previous hunk's place plus its stated distance, so a hunk whose surroundings were removed is not found.",
 edits=[("src/apply.rs", """    for (i, hunk) in patch.hunks().iter().enumerate() {
        apply_hunk(&mut image, hunk).map_err(|_| ApplyError(i + 1))?;
    }

    Ok(image.into_iter().map(ImageLine::into_inner).collect())""", """    // The first hunks can't be after the lines the last ones need
    let mut reserved: usize = patch.hunks().iter().map(|h| h.old_range().len()).sum();
    for (i, hunk) in patch.hunks().iter().enumerate() {
        reserved -= hunk.old_range().len();
        let mut tail = image.split_off(image.len().saturating_sub(reserved));
        apply_hunk(&mut image, hunk).map_err(|_| ApplyError(i + 1))?;
        image.append(&mut tail);
    }

    Ok(image.into_iter().map(ImageLine::into_inner).collect())""")],
 demo=r'''
use diffy::Patch;
fn main() {
    // the blocks have changed places in the base
    let p = Patch::from_str("@@ -1,3 +1,3 @@\n a\n-b\n+B\n c\n@@ -11,3 +11,3 @@\n x\n-y\n+Y\n z\n").unwrap();
    assert_eq!(diffy::apply("x\ny\nz\na\nb\nc\n", &p).unwrap(), "x\nY\nz\na\nB\nc\n");
}
'''),
dict(id="c09-error-number", property="C09",
 needs="a patch that fails at a hunk after the first one, in the bytes API",
 breaks="The error of the bytes API names the number of hunks applied instead of the failing hunk.",
 edits=[("src/apply.rs", """        apply_hunk(&mut image, hunk).map_err(|_| ApplyError(i + 1))?;
    }

    Ok(image
        .into_iter()""", """        apply_hunk(&mut image, hunk).map_err(|_| ApplyError(i.max(1)))?;
    }

    Ok(image
        .into_iter()""")],
 demo=r'''
use diffy::Patch;
fn main() {
    let p = Patch::from_bytes(b"@@ -1 +1 @@\n-a\n+b\n@@ -3 +3 @@\n-x\n+y\n").unwrap();
    assert_eq!(diffy::apply_bytes(b"a\n", &p).unwrap_err().to_string(), "error applying hunk #2");
}
'''),
dict(id="c11-same-change-compare-limit", property="C11",
 needs="both sides make the same change of more than 64 lines",
 breaks="Large conflicting regions are not compared any more, so that an identical large change on both sides is a conflict.",
 edits=[("src/merge/mod.rs", "            if ours.as_slice() == theirs.as_slice() {", "            if ours.len() <= 64 && ours.as_slice() == theirs.as_slice() {")],
 demo=r'''
fn main() {
    for n in [1usize, 10, 64, 65, 300] {
        let new: String = (0..n).map(|i| format!("line {i}\n")).collect();
        let a = format!("top\n{new}bottom\n");
        assert_eq!(diffy::merge("top\nbottom\n", &a, &a).as_deref(), Ok(a.as_str()), "{n} lines");
        assert_eq!(diffy::merge_bytes(b"top\nbottom\n", a.as_bytes(), a.as_bytes()).unwrap(), a.as_bytes());
    }
}
'''),
dict(id="c20-prefix-is-same", property="C20",
 needs="both sides insert at the same place and the insertion of ours of at least three lines is a proper prefix of theirs",
 breaks="A conflict is taken for an identical change if ours is a prefix of theirs; the remaining lines of theirs are lost in a clean merge.",
 edits=[("src/merge/mod.rs", "            if ours.as_slice() == theirs.as_slice() {", """            if ours.as_slice() == theirs.as_slice()
                || (ours.len() > 2 && theirs.starts_with(ours))
            {""")],
 demo=r'''
fn main() {
    let r = diffy::merge("a\nb\n", "a\nx\nx\nx\nb\n", "a\nx\nx\nx\ny\nb\n");
    let text = match &r { Ok(s) | Err(s) => s };
    assert!(text.contains("y\n"), "{r:?}");
    let r = diffy::merge_bytes(b"a\nb\n", b"a\nx\nb\n", b"a\nx\ny\nb\n");
    let text = match &r { Ok(s) | Err(s) => String::from_utf8_lossy(s) };
    assert!(text.contains("y\n"), "{r:?}");
}
'''),
dict(id="c12-delete-beside-insert", property="C12",
 needs="theirs deletes the ancestor lines of a region in which ours only adds lines",
 breaks="An insertion of ours beside lines deleted by theirs alone is merged cleanly instead of being a conflict.",
 edits=[("src/merge/mod.rs", """            } else if ancestor.as_slice() == theirs.as_slice() {
                solution[pointer] = MergeRange::Ours(ours);
            }""", """            } else if ancestor.as_slice() == theirs.as_slice()
                || (theirs.is_empty() && ours.starts_with(ancestor) && ancestor.len() > 1)
            {
                solution[pointer] = MergeRange::Ours(ours);
            }""")],
 demo=r'''
fn main() {
    let (o, a, b) = ("1\nx\ny\n2\n", "1\nx\ny\nnew\n2\n", "1\n2\n");
    assert!(diffy::merge(o, a, b).is_err());
    assert!(diffy::merge(o, b, a).is_err());
    assert!(diffy::merge_bytes(o.as_bytes(), a.as_bytes(), b.as_bytes()).is_err());
}
'''),
dict(id="c13-original-marker-length", property="C13",
 needs="a marker length other than 7 and the diff3 style",
 breaks="The marker in front of the original section is at least 7 characters long whatever length is configured.",
 edits=[("src/merge/mod.rs", """                    add_conflict_marker(&mut output, '|', marker_len, Some("original"));""", """                    let marker_len = cmp::max(marker_len, DEFAULT_CONFLICT_MARKER_LENGTH);
                    add_conflict_marker(&mut output, '|', marker_len, Some("original"));"""),
        ("src/merge/mod.rs", """                    add_conflict_marker_bytes(&mut output, b'|', marker_len, Some(b"original"));""", """                    let marker_len = cmp::max(marker_len, DEFAULT_CONFLICT_MARKER_LENGTH);
                    add_conflict_marker_bytes(&mut output, b'|', marker_len, Some(b"original"));""")],
 demo=r'''
fn main() {
    for n in [0usize, 1, 3, 7, 12] {
        let m = |c: &str| c.repeat(n);
        let want = format!("{} ours\na\n{} original\no\n{}\nb\n{} theirs\n", m("<"), m("|"), m("="), m(">"));
        let mut o = diffy::MergeOptions::new();
        o.set_conflict_marker_length(n);
        assert_eq!(o.merge("o\n", "a\n", "b\n"), Err(want.clone()));
        assert_eq!(o.merge_bytes(b"o\n", b"a\n", b"b\n"), Err(want.into_bytes()));
    }
}
'''),
dict(id="c14-ours-contains-theirs", property="C14",
 needs="both sides insert several lines at the same place and theirs is the tail of ours, by at least two lines",
 breaks="If both sides insert and theirs is the tail of ours the merge is clean, but not the other way around.",
 edits=[("src/merge/mod.rs", """            if ours.as_slice() == theirs.as_slice() {""", """            if ours.as_slice() == theirs.as_slice()
                || (ancestor.is_empty() && theirs.len() > 1 && ours.ends_with(theirs))
            {""")],
 demo=r'''
fn main() {
    let (o, a, b) = ("1\n2\n", "1\nx\ny\nz\n2\n", "1\ny\nz\n2\n");
    assert_eq!(diffy::merge(o, a, b).is_ok(), diffy::merge(o, b, a).is_ok());
    assert_eq!(diffy::merge_bytes(o.as_bytes(), a.as_bytes(), b.as_bytes()).is_ok(), diffy::merge_bytes(o.as_bytes(), b.as_bytes(), a.as_bytes()).is_ok());
}
'''),
dict(id="c19-unclamped-position", property="C19",
 needs="a hunk which only inserts lines (no context) and states an enormous line number",
 breaks="The search for a hunk's place starts at the stated line number even if that is far behind the end of the text, so that it takes as long as the number is large.",
 edits=[("src/apply.rs", "    let pos = std::cmp::min(pos, image.len());\n", "    let pos = match pre_image_line_count(hunk.lines()) {\n        0 => pos,\n        _ => std::cmp::min(pos, image.len()),\n    };\n"),
        ("src/apply.rs", "    let image = if let Some(image) = image.get(pos..pos + len) {", "    let image = if let Some(image) = image.get(pos..pos.saturating_add(len)) {")],
 demo=r'''
use diffy::Patch;
fn main() {
    for n in [10u64, 1 << 20, 1 << 40, 1 << 62] {
        let s = format!("@@ -{n},0 +{n} @@\n+b\n");
        let p = Patch::from_str(&s).unwrap();
        assert_eq!(diffy::apply("a\n", &p).unwrap(), "a\nb\n");
    }
}
'''),
dict(id="c19-range-end-panics", property="C19",
 needs="a parsed patch of at least two hunks whose stated numbers are near the largest usize, asked to be applied",
 breaks="The stated position is converted to a signed number when hunks are placed, which panics for numbers beyond its range.",
 edits=[("src/apply.rs", "    let pos = std::cmp::min(pos, image.len());", "    let pos = isize::try_from(pos).unwrap().min(image.len() as isize) as usize;")],
 demo=r'''
use diffy::Patch;
fn main() {
    for n in [5usize, isize::MAX as usize, isize::MAX as usize + 2, usize::MAX - 1] {
        let s = format!("@@ -{n} +{n} @@\n-a\n+b\n");
        let p = Patch::from_str(&s).unwrap();
        assert_eq!(diffy::apply("a\n", &p).unwrap(), "b\n");
    }
}
'''),
dict(id="c17-marker-length-grows", property="C17",
 needs="an option object whose marker length is set twice, the second time to a smaller value below the default",
 breaks="Setting a marker length below the default of an object that had a longer one keeps the default.",
 edits=[("src/merge/mod.rs", "        self.conflict_marker_length = conflict_marker_length;", """        // Never go below the default once longer markers were needed
        self.conflict_marker_length =
            if self.conflict_marker_length > DEFAULT_CONFLICT_MARKER_LENGTH {
                cmp::max(conflict_marker_length, DEFAULT_CONFLICT_MARKER_LENGTH)
            } else {
                conflict_marker_length
            };""")],
 demo=r'''
fn main() {
    let mut o = diffy::MergeOptions::new();
    o.set_conflict_marker_length(20).set_conflict_marker_length(3);
    let mut f = diffy::MergeOptions::new();
    f.set_conflict_marker_length(3);
    assert_eq!(o.merge("o\n", "a\n", "b\n"), f.merge("o\n", "a\n", "b\n"));
}
'''),
dict(id="c17-last-diff-cache", property="C17",
 needs="two diffs of texts that lie at the same addresses with the same lengths but other content (a buffer overwritten in place)",
 breaks="The lines ids of the last diff are reused when both texts are where the last ones were, whatever they contain by now.",
 edits=[("src/diff/mod.rs", """    pub fn create_patch<'a>(&self, original: &'a str, modified: &'a str) -> Patch<'a, str> {
        let mut classifier = Classifier::default();
        let (old_lines, old_ids) = classifier.classify_lines(original);
        let (new_lines, new_ids) = classifier.classify_lines(modified);
""", """    pub fn create_patch<'a>(&self, original: &'a str, modified: &'a str) -> Patch<'a, str> {
        let mut classifier = Classifier::default();
        let (old_lines, mut old_ids) = classifier.classify_lines(original);
        let (new_lines, mut new_ids) = classifier.classify_lines(modified);

        // Formatting the same diff with different options is common
        let key = (
            original.as_ptr() as usize,
            original.len(),
            modified.as_ptr() as usize,
            modified.len(),
        );
        LAST_IDS.with(|last| {
            let mut last = last.borrow_mut();
            if last.0 == key && last.1.len() == old_ids.len() && last.2.len() == new_ids.len() {
                old_ids = last.1.clone();
                new_ids = last.2.clone();
            } else {
                *last = (key, old_ids.clone(), new_ids.clone());
            }
        });
"""), ("src/diff/mod.rs", "/// A collection of options for modifying the way a diff is performed", """type TextKey = (usize, usize, usize, usize);

thread_local! {
    static LAST_IDS: std::cell::RefCell<(TextKey, Vec<u64>, Vec<u64>)> = Default::default();
}

/// A collection of options for modifying the way a diff is performed""")],
 demo=r'''
fn main() {
    let mut old = String::from("a\nb\n");
    let mut new = String::from("a\nc\n");
    let _ = diffy::create_patch(&old, &new).to_string();
    old.clear(); old.push_str("x\ny\n");
    new.clear(); new.push_str("z\ny\n");
    let p = diffy::create_patch(&old, &new);
    assert_eq!(diffy::apply(&old, &p).unwrap(), new);
}
'''),
dict(id="c21-unstable-run-sort", property="C21",
 needs="the reverse of a patch with a run of more than 20 changed lines",
 breaks="Reversing puts the deleted lines of each run first with an unstable sort, which mixes up the lines of long runs.",
 edits=[("src/patch/mod.rs", """        let lines = self.lines.iter().map(Line::reverse).collect();
""", """        let mut lines: Vec<_> = self.lines.iter().map(Line::reverse).collect();
        // Deleted lines come first, as in any other patch
        for run in lines.split_mut(|line| matches!(line, Line::Context(_))) {
            run.sort_unstable_by_key(|line| matches!(line, Line::Insert(_)));
        }
""")],
 demo=r'''
fn main() {
    for n in [1usize, 5, 15, 30, 200] {
        let old: String = (0..n).map(|i| format!("old {i}\n")).collect();
        let new: String = (0..n).map(|i| format!("new {i}\n")).collect();
        let p = diffy::create_patch(&old, &new);
        assert_eq!(diffy::apply(&old, &p).unwrap(), new);
        assert_eq!(diffy::apply(&new, &p.reverse()).unwrap(), old, "{n} lines");
    }
}
'''),
]
