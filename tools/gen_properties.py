#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per property)."""
import json, os

def P(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why, "anchors": a}

D = "src/diff/mod.rs"; MY = "src/diff/myers.rs"; CL = "src/diff/cleanup.rs"
AP = "src/apply.rs"; PM = "src/patch/mod.rs"; PF = "src/patch/format.rs"; PP = "src/patch/parse.rs"
ME = "src/merge/mod.rs"; RA = "src/range.rs"; UT = "src/utils.rs"

props = [
P("C01", "Applying a created patch to the original yields the modified text",
  "For every pair of texts and every configured context length (including zero and values larger than the file), applying the patch created from (original, modified) to the original succeeds and returns the modified text byte for byte. This covers empty texts, texts with and without a final newline, lines of any content and length, and both the text and the bytes API.",
  ["inputs", "configurations"], "all pairs of texts x all context lengths, str and bytes",
  "The tests apply about ten hand-written pairs, nearly all with the default context length; diff, compaction, hunk building and placement interact in ways that depend on repeated lines and on the context length.",
  [D, MY, CL, AP, UT, RA],
  [("Myers divide and conquer + compaction", MY + ", " + CL), ("hunk construction", D + ": to_hunks, calc_end, build_edit_script"), ("hunk placement", AP + ": find_position, match_fragment")],
  ["create_patch / DiffOptions::create_patch(_bytes) followed by apply(_bytes)"]),
P("C02", "Patch text round trip: parsing a formatted patch gives back an equal patch",
  "For every patch (created by a diff, obtained by parsing, or reversed) formatting it and parsing the result succeeds and gives a patch equal to it in file names, hunk ranges, function context and lines, including lines without a final newline and lines that look like patch syntax. It holds for Display, the byte conversion and writing into a sink, with blank-context suppression on or off, and repeated format/parse steps change nothing further.",
  ["inputs", "configurations", "histories"], "all patches x lossless formatter options x sequences of format/parse/reverse/clone steps",
  "The tests round-trip a dozen fixed patches; none has a function context, escaped file names that were written by the library, or lines resembling headers and markers.",
  [PF, PP, PM],
  [("formatter", PF + ": PatchDisplay, HunkDisplay, LineDisplay"), ("parser", PP + ": patch_header, hunk, hunk_lines, strip_newline")],
  ["Patch::to_string / to_bytes / PatchFormatter::write_patch_into -> Patch::from_str / from_bytes"]),
P("C03", "The reverse of a patch undoes it",
  "For every pair of texts and every context length, the reverse of the patch from original to modified applies to the modified text and restores the original exactly, also after the reversed patch has been formatted and parsed. Reversing twice gives a patch equal to the first one, and for every patch, created or parsed, the reverse swaps file names, ranges and the roles of inserted and deleted lines and keeps everything else.",
  ["inputs", "configurations"], "all pairs of texts x all context lengths, str and bytes",
  "Two tests reverse two fixed patches with the default context length.",
  [PM, AP, D],
  [("reverse", PM + ": Patch::reverse, Hunk::reverse, Line::reverse"), ("placement by new range", AP + ": find_position")],
  ["Patch::reverse, apply, Patch equality"]),
P("C04", "Hunks describe the two texts faithfully",
  "In a created patch, each hunk's context+deleted lines are exactly the lines of the original at the hunk's old range and its context+inserted lines are exactly the lines of the modified text at its new range (an empty range's start being the number of lines before it), hunks are in order and do not overlap, and everything outside the hunks is identical in both texts. Every hunk contains a change, identical texts give no hunks, and a reader that follows the emitted line numbers strictly rebuilds the modified text from the patch text and the original.",
  ["inputs", "configurations"], "all pairs of texts x all context lengths, str and bytes",
  "apply searches for a place, so wrong ranges are silently tolerated; tests compare complete output for about ten pairs only.",
  [D, PM, PF],
  [("hunk ranges", D + ": to_hunks, calc_end"), ("edit script", D + ": build_edit_script"), ("count assertions", PM + ": Hunk::new")],
  ["Patch::hunks, Hunk::old_range/new_range/lines, formatted patch text"]),
P("C05", "Diffs are minimal edit scripts",
  "For every pair of texts the number of deleted plus inserted lines in the created patch equals the minimum possible, i.e. lines(original) + lines(modified) - 2 x (length of their longest common subsequence of lines). The context length does not change that number.",
  ["inputs", "configurations"], "all pairs of texts x all context lengths",
  "Tests only compare a few outputs; a sub-optimal split in the divide-and-conquer search still gives a correct, merely larger patch, which no test notices.",
  [MY, CL, D, UT],
  [("middle snake search", MY + ": find_middle_snake, conquer"), ("compaction keeps the cost", CL + ": compact"), ("line classification", UT + ": Classifier")],
  ["counts of Line::Delete and Line::Insert in Patch::hunks"]),
P("C06", "Hunks carry the configured context and are grouped accordingly",
  "Every hunk starts and ends with exactly min(context length, unchanged lines available up to the start/end of the text) context lines around its first and last change. Two neighbouring changes separated by fewer than 2 x context-length unchanged lines are in the same hunk, and changes separated by more than that are in different hunks; with context length 0 no hunk contains a context line.",
  ["inputs", "configurations"], "all pairs of texts x all context lengths",
  "Only context lengths 0, 1 and 3 are tested, on one pair of texts.",
  [D], [("context window and hunk merging", D + ": to_hunks, calc_end"), ("options", D + ": DiffOptions::set_context_len")],
  ["Patch::hunks"]),
P("C07", "The text API and the bytes API agree",
  "For every valid UTF-8 input the str and the bytes variants of creating, formatting, parsing, reversing and applying patches and of merging give corresponding results: same success or failure, same hunks, ranges and file names, and byte-identical output, under every option. Display, the byte conversion and writing into a sink give identical bytes.",
  ["inputs", "configurations"], "all UTF-8 inputs x all options, for every pair of API variants",
  "The two variants are separate code for output, searching and escaping; tests compare them on a dozen inputs with default options.",
  [AP, D, ME, PF, PP, UT],
  [("Text trait for str and [u8]", UT), ("duplicated output paths", ME + ": output_result(_bytes); " + PF + ": write_into / fmt")],
  ["every str function against its _bytes twin"]),
P("C08", "Parsing is exact: accepted patches mean what the text says",
  "Parsing any input either fails with an error or returns a patch whose file names, ranges, function contexts and lines are exactly those written in the input. Well-formed unified diffs (leading preamble, either or both file headers in any order, quoted names, omitted counts, suppressed blank context, no-newline markers, adjacent hunks) are accepted. Input whose hunk bodies do not match the stated line counts, whose hunks overlap or are out of order, with repeated or unterminated or badly quoted file names, malformed or overflowing ranges, body text that is not a hunk line, a deleted (inserted) line after the marker that ended the old (new) side of the hunk, or any line after an unterminated context line, is rejected.",
  ["inputs"], "all byte strings (bounded: all line sequences over a patch-syntax alphabet, all small mutations of valid patches, all header strings over a small alphabet)",
  "About a dozen fixed inputs are parsed by tests, most of them valid.",
  [PP, PM, UT],
  [("parser", PP), ("count and order verification", PP + ": hunk, verify_hunks_in_order"), ("line iteration and search", UT + ": LineIter, find_bytes")],
  ["Patch::from_str, Patch::from_bytes and the accessors of the result"]),
P("C09", "Apply places each hunk on an exact, unpatched, nearest match or fails",
  "For every base text and every patch, apply processes the hunks in order and replaces, for each, a run of lines that equals the hunk's context+deleted lines exactly and contains no line written by an earlier hunk; among all such places it takes the one nearest to the line number stated for the new file (the earlier one on a tie). If a hunk has no such place apply returns an error naming that hunk's 1-based number, and otherwise all other text is left unchanged.",
  ["inputs", "histories"], "all base texts x all patches (bodies, stated line numbers, number of hunks)",
  "Tests apply patches at their right place plus two displaced ones with a single candidate place.",
  [AP],
  [("search order", AP + ": find_position, interleave"), ("matching", AP + ": match_fragment, ImageLine"), ("error index", AP + ": ApplyError")],
  ["apply, apply_bytes, ApplyError's message"]),
P("C10", "Patches apply to a base that has drifted elsewhere",
  "If lines were added to or removed from the base outside the lines the patch's hunks cover, so that stated line numbers are off by any amount in either direction, and each hunk's lines still occur exactly once, the patch still applies and the result is the modified text with the same drift. This holds for any number of hunks, each with its own displacement.",
  ["inputs", "histories"], "all patches x all drifts before, between and after hunks",
  "One test displaces a single-hunk patch once.",
  [AP], [("forward/backward search clamped to the base", AP + ": find_position")],
  ["apply, apply_bytes on a drifted base"]),
P("C11", "Merging with an unchanged or identical side is trivial and clean",
  "For all texts O and A: merging ancestor O with A on one side and the unchanged O on the other gives exactly A without conflict, whichever side changed, and merging when both sides made the same change gives exactly that text without conflict. This holds in both APIs and under all merge options.",
  ["inputs", "configurations"], "all pairs of texts x merge options",
  "Tests check three trivial merges of one seven-line text.",
  [ME, D], [("conflict elimination", ME + ": cleanup_conflicts"), ("range pairing", ME + ": merge_solutions, diff3_range_to_merge_range")],
  ["merge, merge_bytes, MergeOptions::merge(_bytes)"]),
P("C12", "Merge is the diff3 combination of the two line diffs",
  "The merge of ancestor O with A and B equals the diff3 result computed from the library's own line diffs O->A and O->B: O is cut where a line is kept by both sides, and in each region in between a change made by only one side is taken, an identical change by both is taken once, and anything else is a conflict listing A's, O's and B's lines of the region. Err is returned exactly when at least one region conflicts, and no region's text is lost, duplicated or reordered.",
  ["inputs"], "all triples of texts",
  "Ten hand-written triples are tested; omitted conflicts and wrong ranges have been released before (issues #9 and #28).",
  [ME, D],
  [("pairing of the two diffs", ME + ": merge_solutions"), ("region building", ME + ": diff3_range_to_merge_range, set_or_merge_range, create_merge_range"), ("conflict elimination", ME + ": cleanup_conflicts")],
  ["merge, merge_bytes"]),
P("C13", "Conflicts are rendered completely, on their own lines, as configured",
  "Every conflict is rendered as an opening marker line, the lines of ours, (in the diff3 style only) a marker line and the lines of the original, a separator marker line, the lines of theirs and a closing marker line, each marker alone on its line even when the text before it has no final newline, with the configured marker length. Style and marker length change nothing else: whether there is a conflict, the clean result and all text outside markers stay the same, and dropping the original sections of the diff3 style gives the merge style.",
  ["inputs", "configurations"], "all triples of texts x conflict styles x marker lengths",
  "All tests use the default options and texts that end with a newline.",
  [ME], [("rendering", ME + ": output_result, output_result_bytes, add_conflict_marker(_bytes)"), ("options", ME + ": MergeOptions")],
  ["MergeOptions::set_conflict_style / set_conflict_marker_length, merge results"]),
P("C14", "Merge treats both sides alike",
  "Swapping ours and theirs never changes whether a merge is clean nor the merged text of a clean merge. When there are conflicts, the swapped merge has the same conflicts in the same places with the two sides exchanged and the original section unchanged.",
  ["inputs"], "all triples of texts",
  "Five fixed triples are tested in both orders.",
  [ME], [("symmetric handling of both diffs", ME + ": merge_solutions, cleanup_conflicts, output_result")],
  ["merge(o,a,b) against merge(o,b,a), str and bytes"]),
P("C15", "Formatted patches are exact unified diffs under every formatter option",
  "Without color, the formatted patch is exactly: file name headers when known, then for each hunk an `@@ -start[,len] +start[,len] @@` header (`,len` omitted when 1) with the function context if any, then each line with its sign; a blank context line is written as an empty line iff suppression is on, and an unterminated line is completed by a newline followed by the no-newline marker line iff that message is enabled. With color the output is the same text with terminal style sequences inserted and nothing else changed: file headers are bold, hunk ranges cyan, deleted lines red, inserted lines green, everything else unstyled, and no style stays on at the end.",
  ["inputs", "configurations"], "all patches x all combinations of formatter options, Display and writer output",
  "Tests render a dozen patches, three options in one setting each, and color not at all.",
  [PF, PM], [("formatter", PF), ("range display", PM + ": HunkRange Display")],
  ["PatchFormatter options, fmt_patch, write_patch_into"]),
P("C16", "Writing a patch survives any behaviour of the sink",
  "Whatever the sink does - accepting only part of a buffer, being interrupted, accepting nothing, or failing at any call - writing a patch either returns success after delivering exactly the formatted bytes, or returns an error (the sink's own, or write-zero) having delivered a prefix of them and without writing anything after the failure; taking only part of a buffer or being interrupted is no failure. The same holds for formatting a patch into a text sink that fails at any call.",
  ["fault_sequences", "inputs"], "all sequences of sink answers (short, interrupted, zero, error) up to a number of deviations, at every write call",
  "All tests write into a Vec, which never misbehaves.",
  [PF, PM], [("write_all / ? propagation", PF + ": write_into; " + PM + ": Filename::write_into")],
  ["PatchFormatter::write_patch_into with a custom io::Write; write!(sink, \"{}\", ..) with a custom fmt::Write"]),
P("C17", "Results depend only on the arguments, not on earlier calls",
  "Every call gives the same result whatever calls were made before it in the same thread or in others: after any history of creating, formatting, parsing, reversing, applying and merging - with option objects reused and re-set, buffers overwritten in place, and failing calls in between - each result equals that of the same call made first in a fresh process. An option object behaves according to the last value set for each option, and using it does not change it.",
  ["histories", "inputs"], "all sequences of API calls and option settings up to a depth",
  "Each test makes one or a few calls with fresh option objects; none makes a call depend on previous ones.",
  [D, ME, AP, PM, PF, UT],
  [("no global state; per-call buffers", MY + ": V arrays; " + UT + ": Classifier"), ("option setters", D + ": DiffOptions; " + ME + ": MergeOptions; " + PF + ": PatchFormatter")],
  ["results of repeated and interleaved API calls"]),
P("C18", "File names survive in patches whatever characters they contain",
  "For every pair of file names set for a diff, the created patch reports them unchanged, and formatting and parsing that patch gives back exactly the same names, also when they contain quotes, backslashes, tabs, newlines, carriage returns, NULs, spaces or any other Unicode characters or are empty. Formatted file headers always stay on one line each, and names read by parsing (including non-UTF-8 names in the bytes API) survive formatting and parsing again.",
  ["inputs"], "all file name strings (bounded: all strings over an alphabet of special characters up to a length)",
  "Tests parse one hand-written escaped name and never write one.",
  [PM, PP, D], [("escaping", PM + ": Filename Display and write_into"), ("unescaping", PP + ": parse_filename, is_quoted, escaped_filename, unescaped_filename")],
  ["DiffOptions::set_original_filename / set_modified_filename, Patch::original / modified, formatted headers"]),
P("C19", "No input makes the library panic or hang",
  "Creating, formatting, reversing and applying patches, parsing and merging terminate without panicking on every input: any texts, any bytes given to the parser, any accepted patch (whatever line numbers its headers state, and read through all its accessors) applied to any text, and any option values (the output staying within memory). In particular the time to place a hunk is bounded by the size of the base, not by the stated line number.",
  ["inputs", "configurations"], "all inputs and option values of every public function (overflow checks on)",
  "The internal assertions, unreachable!s, unwraps and unchecked additions are only exercised by the few inputs in the tests.",
  [MY, CL, D, ME, AP, PP, PM, RA],
  [("bounds and assertions", MY + ": unreachable!; " + ME + ": assert_eq!; " + PM + ": Hunk::new; " + CL + ": panic!"), ("search clamping", AP + ": find_position"), ("header arithmetic", PM + ": HunkRange::end")],
  ["every public function"]),
P("C20", "A merge neither loses additions nor resurrects deletions",
  "When both sides only add new lines and delete ancestor lines, every line added by either side appears exactly once in the merge result (inside the respective side's section if in a conflict), every ancestor line kept by both sides appears exactly once, and a line deleted by a side never appears in a clean result nor outside a conflict. Lines keep the relative order they have in each side.",
  ["inputs"], "all pairs of edit sets (deletions and insertions) on ancestors of distinct lines",
  "Tests use ten fixed triples; silently dropped regions were a released defect (issue #28).",
  [ME], [("region building", ME + ": merge_solutions, diff3_range_to_merge_range"), ("rendering", ME + ": output_result")],
  ["merge, merge_bytes"]),
P("C21", "Patches navigate a version history in any order",
  "For any sequence of versions of a text, walking the history along patches between versions - forward with a patch, backward with its reverse, in any order, with patches kept as objects, as text or as bytes and re-read - always arrives at exactly the text of the version reached. Applying a patch never alters the patch or the base, so every patch can be reused.",
  ["histories", "inputs"], "all version histories and all walks on them up to bounds",
  "Tests make at most one forward and one backward step on two fixed pairs.",
  [AP, D, PM, PF, PP], [("round trip of every representation", AP + ", " + PM + ", " + PF + ", " + PP)],
  ["apply, Patch::reverse, to_string/from_str over multi-step walks"]),
P("C22", "Patches, hunks, ranges and lines are plain values",
  "Two patches (hunks, ranges, lines) compare equal exactly when all their contents are equal - file names, ranges, function contexts and the lines with their kind - however they were obtained (created, parsed or reversed). A clone is equal to its source and reads, formats and reverses like it. Reversing a hunk exchanges its ranges and its inserted and deleted lines and nothing else, and reversing twice gives an equal value. A range's start, length, end, emptiness, range() and display always agree.",
  ["inputs"], "all pairs of patches",
  "Tests compare patches for equality only where they expect it, and hardly read the range accessors.",
  [PM], [("equality, Clone and reverse", PM + ": PartialEq/Clone of Patch, Filename, Hunk, Line; reverse"), ("range accessors", PM + ": HunkRange")],
  ["==, clone, reverse and accessors of Patch, Hunk, HunkRange, Line"]),
P("C23", "Shortcuts and defaults are the documented options",
  "For every input the free functions create_patch, create_patch_bytes, merge and merge_bytes, and option objects made by new() or default(), behave exactly as an option object on which every option was set to its documented default (context length 3, names `original` and `modified`, markers of 7 characters, diff3 style; to_string, to_bytes and default formatters: no color, missing-newline message on, blank context suppressed). Setting some options leaves the others at their defaults, and neither the order of the setters nor the form of a name argument (&str, String, Cow) matters.",
  ["inputs", "configurations"], "all inputs x all subsets and orders of option setters",
  "Tests use the free functions on a few texts and almost never compare them with option objects.",
  [D, ME, PF, PM], [("free functions and Default impls", D + ", " + ME + ", " + PF), ("setters", D + ": DiffOptions; " + ME + ": MergeOptions; " + PF + ": PatchFormatter")],
  ["create_patch, create_patch_bytes, merge, merge_bytes, new, default and setters of the three option types"]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props), "properties")
