//! The properties and the spaces that decide them.

pub mod apply;
pub mod diff;
pub mod history;
pub mod merge;
pub mod options;
pub mod parse;
pub mod preempt;
pub mod stack;
pub mod text;
pub mod tokens;
pub mod total;
pub mod twins;
pub mod values;

use crate::engine::PropDef;

const INPUTS: &[&str] = &[
    "every input within the stated bounds is executed; nothing is claimed beyond them",
    "the reference models in /verif/mc/src/model.rs state the intended behaviour; they read results only through the public API",
];

macro_rules! props {
    ($($id:literal, $f:path, $threads:expr, $rule:literal;)*) => {
        static ALL: &[PropDef] = &[$(PropDef { id: $id, rule: $rule, assumptions: INPUTS, spaces: $f, threads: $threads }),*];
    };
}

props! {
    "C01", diff::c01, None, "every pair of texts in the bounds x context lengths, str and bytes: create, apply, compare with the modified text";
    "C02", text::c02, None, "every patch in the bounds x every walk of format/parse/reverse/clone steps up to the depth: the model patch must be what each step gives";
    "C03", diff::c03, None, "every pair of texts in the bounds x context lengths: reverse against the model, apply it to the modified text, also after a text round trip";
    "C04", diff::c04, None, "every pair of texts in the bounds x context lengths: both texts are rebuilt from the hunks alone and ranges are checked line by line";
    "C05", diff::c05, None, "every pair of texts in the bounds: number of deleted plus inserted lines equals the optimum found by dynamic programming";
    "C06", diff::c06, None, "every pair of texts in the bounds x context lengths: amount of context and grouping of hunks against the reference";
    "C07", twins::c07, None, "every pair, triple and patch text in the bounds, run through the str and the bytes API with all options: equal results step by step";
    "C08", parse::c08, None, "every patch text of the grammar-directed bounds: verdict and content against an independent reference parser";
    "C09", apply::c09, None, "every base x patch in the bounds: result, position and error number against exhaustive search for the nearest place";
    "C10", apply::c10, None, "every patch x drift of the base in the bounds: the result must carry the same drift";
    "C11", merge::c11, None, "every pair of texts in the bounds x merge options: trivial merges are clean and exact";
    "C12", merge::c12, None, "every triple of texts in the bounds: merge against the diff3 combination of the library's own line diffs";
    "C13", merge::c13, None, "every triple of texts in the bounds x styles x marker lengths: rendered text against the reference, and relations between options";
    "C14", merge::c14, None, "every triple of texts in the bounds: the merge with the sides exchanged";
    "C15", text::c15, None, "every patch in the bounds x all formatter options x every output path: exact text against the reference renderer";
    "C16", text::c16, None, "every sequence of sink answers with a bounded number of deviations at every call: what was delivered and what was returned";
    "C17", history::c17, None, "every sequence of calls up to the depth: each result equals that of the same call made first in a fresh process";
    "C18", text::c18, None, "every file name in the bounds: reported, formatted, parsed back";
    "C19", total::c19, None, "every input and option value in the bounds: no panic (debug assertions and overflow checks on), no abort, no hang";
    "C20", merge::c20, None, "every pair of edit sets in the bounds on distinct lines: additions and deletions are accounted for in the result";
    "C21", apply::c21, None, "every version history x every walk on it up to the depth: the text reached is the version";
    "C22", values::c22, None, "every ordered pair of patches of a pool, and every one-part variation of larger ones: equality, clones, reversal and range accessors against the model";
    "C23", options::c23, None, "every pair and triple of texts in the bounds: free functions, new() and default() against all options stated; every subset and order of setters";
}

pub fn all() -> &'static [PropDef] {
    ALL
}
