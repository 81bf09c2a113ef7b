#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, 'more than three sentences')
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [], "hook_needed": None}})
G = "gitdiff/"
p("C01", "Parsing any input terminates cleanly with bounded resources",
  "Parsing any byte sequence as a patch, and then formatting, validating, decompressing (under the default limit) or applying whatever came out, always terminates by returning a result or an error. It never panics, never loops, and never takes time or allocates memory out of proportion to the size of the input and source, whatever sizes or positions the patch declares.",
  ["inputs"], "every byte string given to Parse, and every source file the parsed files are applied to",
  "The tests parse about a hundred hand-written patches; the claim is about all byte strings, including truncated, spliced and hostile ones with huge declared sizes.",
  [G+"parser.go", G+"gitdiff.go", G+"text.go", G+"binary.go", G+"file_header.go", G+"apply_text.go"],
  [("line reader with three-line lookahead and eof flag", G+"parser.go Next/shiftLines"), ("fragment loop bounded by header counts", G+"text.go ParseTextChunk"), ("chunked preimage reads", G+"apply_text.go readPreimage")],
  observe=["gitdiff.Parse", "File.String", "gitdiff.Apply"])
p("C02", "Every parsed file is well formed",
  "Every file that parsing returns, whatever the input and even next to an error, is self-consistent: each text fragment has counts that match its lines, contains a change, has non-negative positions and single-line entries; text and binary content exclude each other; names are present unless the file is created or deleted; created files have no old lines and deleted files no new lines; the score is within 0..100. The returned preamble is a prefix of the input.",
  ["inputs"], "every byte string given to Parse",
  "Tests compare a few outputs field by field; they do not establish the invariants applying relies on for arbitrary accepted input.",
  [G+"parser.go", G+"text.go", G+"binary.go", G+"file_header.go", G+"gitdiff.go"],
  [("line accounting while parsing fragments", G+"text.go ParseTextChunk"), ("new/delete content checks", G+"text.go ParseTextFragments"), ("missing file name checks", G+"file_header.go ParseGitFileHeader")],
  observe=["[]*File returned by Parse"])
p("C03", "Text fragments are parsed exactly as written",
  "For any well-formed unified diff hunk, the parsed fragment reports exactly the old and new ranges (an omitted count is 1), the section comment, every line with its operation and exact bytes including carriage returns and the presence or absence of the final newline, and the added, deleted, leading-context and trailing-context counts. This holds for any line content, including lines that look like patch syntax, any 'no newline' message text, and context lines written as bare empty lines.",
  ["inputs"], "every sequence of hunks over arbitrary line contents and layouts",
  "A handful of fixed hunks are tested; interactions of markers, look-alike content, sizes and buffer boundaries are not.",
  [G+"text.go", G+"parser.go"],
  [("header range parsing", G+"text.go ParseTextFragmentHeader/parseRange"), ("line loop and counters", G+"text.go ParseTextChunk"), ("no-newline marker", G+"text.go isNoNewlineMarker/removeLastNewline")],
  observe=["File.TextFragments"])
p("C04", "Git extended headers are parsed exactly",
  "For any header git can emit for a modification, mode change, creation, deletion, rename or copy, of text, empty or binary files, the parsed file reports exactly the old and new names, the created/deleted/renamed/copied flags, the modes, the object id prefixes and the similarity or dissimilarity score. A mode on the index line is reported as the old mode, absent items stay at their zero values, and items of one file never leak into the next.",
  ["inputs"], "every combination of extended header lines git emits, with arbitrary names, modes, ids and scores, in single and multi-file patches",
  "Tests cover each header line once in isolation; combinations and sequences are not explored.",
  [G+"file_header.go", G+"parser.go"],
  [("header line table", G+"file_header.go parseGitHeaderData"), ("default name from the diff --git line", G+"file_header.go parseGitHeaderName")],
  observe=["File fields"])
p("C05", "File names are recovered byte for byte",
  "For any path git can track and any way git writes it (bare or C-quoted, core.quotePath on or off, any one-component source and destination prefix, the trailing tab after names with spaces), the parsed name equals the original path byte for byte. This holds in every place a name appears: the diff --git line, the ---/+++ lines and the rename and copy lines.",
  ["inputs"], "every path without NUL made of non-empty components, in every name position and quoting style",
  "Tests use about ten names; quoting bugs appear only for particular byte combinations and positions.",
  [G+"file_header.go"],
  [("quoted and unquoted name parsing", G+"file_header.go parseName/parseQuotedName/parseUnquotedName"), ("prefix removal", G+"file_header.go cleanName/trimTreePrefix"), ("splitting two unquoted names", G+"file_header.go parseGitHeaderName")],
  observe=["File.OldName", "File.NewName"])
p("C06", "Traditional unified diffs are recognised and classified correctly",
  "A unified diff without git headers, as produced by GNU diff, is parsed into one file per ---/+++ pair with the new name, or the old name when that is a prefix of the new one. It is a creation exactly when the old side is /dev/null or carries the epoch timestamp, a deletion exactly when the new side does (in any time zone and precision), and then only the existing side's name is set; fragments are exact.",
  ["inputs"], "every pair of names, timestamps (instants, zones, precision, layout) and hunks",
  "Tests have seven headers with two time zones; GNU diff emits nanoseconds, all zones and arbitrary names.",
  [G+"file_header.go", G+"text.go"],
  [("traditional header recognition by three-line lookahead", G+"file_header.go ParseTraditionalFileHeader"), ("epoch detection", G+"file_header.go hasEpochTimestamp")],
  observe=["File.OldName", "File.NewName", "File.IsNew", "File.IsDelete"])
p("C07", "Binary patches decode to exactly the encoded payload",
  "For any payload of any length, a git binary patch (literal or delta, with or without a reverse fragment) parses to a file whose fragments have the declared method and size and whose decoded and decompressed data are byte-identical to what git encoded; reading on after their end keeps reporting the end. 'Binary files differ' markers yield a binary file without data, and formatting a binary fragment encodes it exactly as git does.",
  ["inputs"], "every payload, length and compression of forward and reverse fragments",
  "Tests use a few fixed payloads; base85 line lengths, paddings and all byte values are not covered.",
  [G+"binary.go", G+"base85.go", G+"binary_reader.go", G+"format.go"],
  [("fragment line framing", G+"binary.go ParseBinaryChunk"), ("base85", G+"base85.go base85Decode/base85Encode"), ("inflating reader", G+"binary_reader.go Read")],
  observe=["File.BinaryFragment", "File.ReverseBinaryFragment", "BinaryFragment.Data", "BinaryFragment.String"])
p("C08", "Surrounding text is ignored and patches compose",
  "Parsing a patch embedded in other text returns the text before the first file verbatim as the preamble and ignores text between and after files, such as commit messages, mail signatures and blank lines. Parsing a concatenation of patches returns the concatenation of what parsing each one returns, with no information crossing file boundaries.",
  ["inputs"], "every sequence of valid file patches interleaved with text that does not itself look like a file header or fragment",
  "Tests have three sample documents; the state carried between files depends on which kinds of file follow each other.",
  [G+"parser.go", G+"gitdiff.go", G+"file_header.go"],
  [("header search loop", G+"file_header.go ParseNextFileHeader"), ("file loop", G+"gitdiff.go / parser.go Parse")],
  observe=["files and preamble returned by Parse"])
p("C09", "Malformed patches are rejected, never silently misread",
  "Parsing returns an error when the lines of a fragment do not add up to the counts in its header, or it has no changes, has an invalid line or an invalid, negative or overflowing range, or has no file header; when a created file has old lines or a deleted file new lines; when names in a git header are missing or contradict each other; when a mode, score or index line is malformed; and when binary data has a bad size, length byte, line length, alphabet, base85 group or terminator.",
  ["inputs"], "every well-formed patch damaged by one of the listed defects at any position",
  "Each rejection has at most one example test; the defect has to be detected at every position and in every surrounding context.",
  [G+"text.go", G+"binary.go", G+"file_header.go", G+"base85.go"],
  [("count check", G+"text.go ParseTextChunk"), ("orphan fragment check", G+"file_header.go ParseNextFileHeader"), ("name consistency", G+"file_header.go verifyGitHeaderName"), ("binary line checks", G+"binary.go ParseBinaryChunk")],
  observe=["error returned by Parse"])
p("C10", "A parse error still returns every file before it",
  "When a patch is malformed at some file, parsing returns an error together with exactly the files that precede the malformed one, each identical to what it would be if parsed alone, and, if there is at least one such file, the same preamble. The malformed file itself is never included.",
  ["inputs"], "every sequence of valid files followed by a malformed file and arbitrary further content",
  "Only one partial-result example is tested, while callers of multi-file patches depend on it for any mix of files.",
  [G+"parser.go", G+"gitdiff.go"],
  [("early return with collected files", G+"parser.go/gitdiff.go Parse")],
  observe=["files, preamble and error returned by Parse"])
p("C11", "Parsing does not depend on how input is delivered; read errors surface",
  "Parsing gives the same files, preamble and error for the same bytes however the reader chunks them, whether it returns data together with EOF, and whatever its concrete type. If the reader fails with an error other than EOF at any byte offset, parsing returns that error and only files that a complete parse would also have returned; it never reports success on truncated input.",
  ["inputs", "fault_sequences"], "every input, every chunking of it, and every offset at which the reader fails",
  "Tests read from in-memory strings only and inject no read failures.",
  [G+"parser.go"],
  [("buffering wrapper", G+"parser.go newParser"), ("error propagation from line reads", G+"parser.go Next/shiftLines")],
  observe=["gitdiff.Parse with instrumented readers"])
p("C12", "Applying a text patch produces exactly the new content",
  "For any old and new content and any diff between them (any context width including zero-context hunks inside the file, any hunk splitting, any size, with or without final newlines), strictly applying the parsed patch to the old content writes exactly the new content. Applying the inverse patch to the new content restores the old content.",
  ["inputs"], "every pair of contents and every valid unified diff between them, except zero-context hunks at line 0 of non-empty files",
  "About fifteen fixed source/patch/output triples are tested; none has large gaps, many fragments, long lines or zero context.",
  [G+"apply.go", G+"apply_text.go", G+"io.go"],
  [("fragment application", G+"apply_text.go ApplyFragment/readPreimage/applyTextLine"), ("line index", G+"io.go lineReaderAt"), ("tail copy", G+"io.go copyLinesFrom")],
  observe=["bytes written by gitdiff.Apply"])
p("C13", "Strict apply never succeeds on a source that does not match",
  "Applying a text patch succeeds if and only if every context and deleted line equals the source line at exactly the stated position, fragments do not overlap, the source is long enough, a creation is applied to an empty source and a whole-file deletion leaves nothing behind. In every other case it returns an error that matches Conflict, and on success the output is exactly the source with the stated lines replaced.",
  ["inputs"], "every list of valid fragments and every source, in particular sources that differ from the expected one in a single line, byte, newline or offset",
  "Seven conflict examples are tested; a missed comparison shows only for particular positions, buffer boundaries or line endings.",
  [G+"apply.go", G+"apply_text.go", G+"io.go"],
  [("line comparison", G+"apply_text.go applyTextLine"), ("overlap, new file and leftovers checks", G+"apply_text.go ApplyFragment"), ("Conflict", G+"apply.go Conflict.Is")],
  observe=["error and output of gitdiff.Apply"])
p("C14", "Apply errors point at the failing source line and fragment line",
  "When applying a text patch fails because a line does not match, the returned ApplyError carries the one-based source line, the number of the fragment in the file (whatever the order of the fragments) and the line number within the fragment of the first mismatch. When the source is too short it carries the fragment number and the source line just past the end; when content is left after a whole-file deletion, the first leftover line.",
  ["inputs"], "every fragment list and every position of the first mismatch",
  "No test checks the location fields.",
  [G+"apply.go", G+"apply_text.go"],
  [("location annotations", G+"apply.go applyError"), ("line bookkeeping", G+"apply_text.go ApplyFragment")],
  observe=["*ApplyError fields via errors.As"])
p("C15", "Incremental appliers follow their documented life cycle",
  "Feeding fragments one by one to a text applier and closing it writes the same bytes as applying the file at once; closing an unused applier copies the source unchanged; closing again writes nothing and succeeds. After closing, or for a second fragment on a binary applier, or for a nil or inconsistent fragment, or for a fragment starting before one already applied, the applier returns an error and writes nothing for it. After a fragment that conflicts part of the way, what is applied or copied later goes on after the source lines already used, so none is lost or written twice.",
  ["histories", "inputs"], "every sequence of fragment applications and closes on both appliers",
  "Tests never reuse, close twice or misuse an applier.",
  [G+"apply_text.go", G+"apply_binary.go"],
  [("closed and dirty flags, next line", G+"apply_text.go TextApplier; apply_binary.go BinaryApplier")],
  state=[{"name": "closed/dirty/nextLine", "meaning": "applier progress", "where": G+"apply_text.go"}],
  observe=["ApplyFragment/Close results and bytes written"])
p("C16", "Operations do not modify their inputs and are repeatable",
  "Applying, formatting, validating and reading the data of a parsed file leave that file, the other files of the patch and the source unchanged, so any of them can be repeated and interleaved with identical results. Applying a file gives the same output for every order of its text fragments with distinct old positions, and changing one returned file never changes another.",
  ["inputs", "histories"], "every patch, every sequence of read-only operations on its files, every permutation of fragments",
  "Tests use each parsed value once, with fragments in order.",
  [G+"apply.go", G+"gitdiff.go", G+"format.go", G+"binary.go"],
  [("fragments copied before sorting", G+"apply.go Apply"), ("separate buffers per fragment", G+"binary.go ParseBinaryChunk")],
  observe=["deep snapshots of File values and source bytes"])
p("C17", "I/O failures while applying are always reported",
  "If writing the destination or reading the source fails at any point while applying a text or binary patch or copying unchanged content, the apply or close call returns an error wrapping that failure, and the bytes written so far are a prefix of the correct output. Success is reported only if the complete correct output was written.",
  ["fault_sequences", "inputs"], "every patch and every single write or read failure point, transient or persistent",
  "Tests inject no failures at all.",
  [G+"apply_text.go", G+"apply_binary.go", G+"io.go", G+"apply.go"],
  [("error checks after each write and read", G+"apply_text.go, io.go copyFrom/copyLinesFrom, apply_binary.go limitWriter")],
  observe=["errors and bytes written with faulty readers and writers"])
p("C18", "Applying does not depend on how the source is accessed",
  "Applying a patch gives the same output and the same kind of error for every source reader that follows the io.ReaderAt contract, including readers that return EOF together with the last full read, and for every source that provides lines itself through LineReaderAt. The size, line lengths and alignment of the source relative to internal buffers do not matter.",
  ["inputs", "configurations"], "every source content, reader implementation and patch",
  "Tests only use bytes.Reader and small sources.",
  [G+"io.go", G+"apply_text.go", G+"apply_binary.go"],
  [("line index and byte reads", G+"io.go lineReaderAt"), ("length probe", G+"io.go isLen"), ("LineReaderAt detection", G+"apply_text.go NewTextApplier")],
  observe=["output and errors of gitdiff.Apply across reader types"])
p("C19", "Binary patches are applied exactly or rejected",
  "A literal binary fragment writes exactly its data. A delta fragment writes exactly what git's delta encoding specifies for the source (copy and add instructions with every operand encoding); a source of a different size is a Conflict, and an instruction stream that is truncated, has an invalid or overflowing size, an unknown opcode, copies beyond the source or produces more or fewer bytes than declared is an error, never a silent success.",
  ["inputs"], "every source and every delta instruction stream, valid or not",
  "Nine fixed deltas are tested; operand encodings and truncation points are not enumerated.",
  [G+"apply_binary.go", G+"binary_reader.go"],
  [("delta interpreter", G+"apply_binary.go applyBinaryDeltaFragment/applyBinaryDeltaCopy/applyBinaryDeltaAdd/readBinaryDeltaSize"), ("size check", G+"apply_binary.go checkBinarySrcSize/limitWriter")],
  observe=["output and errors of gitdiff.Apply and BinaryApplier"])
p("C20", "Binary size limits bound output and memory",
  "With a binary fragment limit in force (100 MiB by default, or the value of the last option given), a literal or delta fragment whose declared data, delta stream or result exceeds the limit is refused with an error before any byte is written, whether applied through Apply or an applier; sizes up to and including the limit are accepted, and a negative limit disables the check. Reading fragment data never yields more than one byte beyond the declared size however much the compressed data expands.",
  ["inputs", "configurations"], "every limit and every declared and actual size around it",
  "Four examples with limits of 200 and 1024 are tested; boundaries and the default are not.",
  [G+"apply_binary.go", G+"apply_options.go", G+"binary_reader.go"],
  [("limit checks", G+"apply_binary.go ApplyFragment/applyBinaryDeltaFragment"), ("limited inflate", G+"binary_reader.go Read"), ("option collection", G+"apply_options.go collectApplyOptions")],
  observe=["bytes written, errors, bytes inflated"])
p("C21", "Corrupted binary payloads are detected",
  "If the text or compressed bytes of a binary patch are damaged (bytes changed, dropped, truncated, duplicated or swapped, a wrong declared size or checksum), then parsing, reading the data, or applying reports an error unless the resulting data are identical to the undamaged ones. Data that do not have exactly the declared size or fail the checksum are never returned as complete.",
  ["inputs"], "every payload and every damage to its encoded form",
  "Three damaged readers are tested.",
  [G+"binary_reader.go", G+"binary.go", G+"base85.go"],
  [("size and checksum check at end of data", G+"binary_reader.go Read"), ("framing checks", G+"binary.go ParseBinaryChunk")],
  observe=["errors from Parse, BinaryFragment.Data and Apply"])
p("C22", "Formatting and parsing a file are inverse",
  "Formatting any file parsed from a git patch and parsing the text again yields an equal file: same names, flags, modes, ids, score, text fragments and binary fragments; the score is a dissimilarity exactly for files neither copied nor renamed. Formatting that file again yields the same text, and a fragment's own string and header forms are the ones that appear in the file's text.",
  ["inputs"], "every file obtainable by parsing a git-format patch",
  "Fourteen fixed patches are round-tripped; the test's binary comparison compares a value with itself.",
  [G+"format.go", G+"gitdiff.go", G+"file_header.go", G+"text.go", G+"binary.go"],
  [("formatter", G+"format.go FormatFile/FormatTextFragment/FormatBinaryFragment/WriteQuotedName")],
  observe=["File.String", "TextFragment.String", "TextFragment.Header", "BinaryFragment.String"])
p("C23", "git apply accepts formatted files with the same effect",
  "The text that a file parsed from a git patch formats to is a git patch: git apply accepts it and produces the same tree, with the same names, contents, modes, creations, deletions, renames and copies, as the file describes and as applying it with this library gives.",
  ["inputs", "programs"], "every file change git can express on regular files whose names git can read back from its own unquoted headers",
  "No test hands formatted output to git.",
  [G+"format.go"], [("formatter", G+"format.go FormatFile")],
  observe=["File.String piped to git apply"])
p("C24", "Real git diffs parse and apply to reproduce the target tree",
  "For any two trees, the output of git diff between them, under any combination of context, rename, copy, rewrite, binary, abbreviation, prefix and algorithm options, parses into exactly the changes git reports for that diff. Applying each parsed file to the old content yields the new content, and reverse binary fragments yield the old content again.",
  ["inputs", "configurations", "programs"], "every pair of trees and every option combination whose output git apply could use, in strict mode, except zero-context changes at the very start of a file and -D with -B",
  "Tests contain a dozen captured diffs from default options.",
  [G+"parser.go", G+"file_header.go", G+"text.go", G+"binary.go", G+"apply.go", G+"apply_text.go", G+"apply_binary.go"],
  [("whole pipeline", G+"Parse and Apply")],
  observe=["Parse and Apply on git diff-tree output, against git diff-tree --raw and blob contents"])
p("C25", "Commit headers in git's pretty formats are parsed faithfully",
  "For any commit shown by git log or git show in the short, medium, full or fuller format with any supported date format, the parsed header has the commit id, author, committer and dates git printed, the title with wrapped lines joined by single spaces, and the body with the indentation removed, trailing whitespace trimmed and runs of blank lines collapsed to one. Decorations and other header lines are ignored, CRLF line endings change nothing, the appendix stays empty, and the message is the title and body separated by a blank line.",
  ["inputs"], "every commit metadata and message, in each format",
  "Seven fixed headers are tested.",
  [G+"patch_header.go", G+"patch_identity.go"],
  [("pretty header scanner", G+"patch_header.go parseHeaderPretty/scanMessageTitle/scanMessageBody"), ("Message", G+"patch_header.go Message")],
  observe=["PatchHeader fields"])
p("C26", "Mail headers from git format-patch are parsed faithfully",
  "For any commit exported by git format-patch, parsing the preamble yields the commit id, author (also if its name is encoded or quoted), date, the original subject (unfolded, and decoded in every cleaning mode) with the removed markers in the subject prefix, the body up to the first '---' line, and the text after that line as the appendix. Preambles that start directly with a From: header parse the same way without an id.",
  ["inputs"], "every author, date, subject prefix and commit message whose title has no runs of white space",
  "Eight fixed mails are tested; folding and encoding depend on title length and bytes.",
  [G+"patch_header.go", G+"patch_identity.go"],
  [("mail header parsing", G+"patch_header.go parseHeaderMail"), ("subject decoding", G+"patch_header.go decodeSubject"), ("appendix split", G+"patch_header.go scanMessageBody")],
  observe=["PatchHeader fields"])
p("C27", "Subject cleaning removes exactly the documented markers",
  "For any subject line, whitespace-only cleaning just trims it; full cleaning removes the longest leading run of whitespace, colons, case-insensitive 're:' and bracketed strings; patch-only cleaning does the same but keeps brackets without PATCH and everything after them. Removed text is kept verbatim in the subject prefix, so prefix and title together reproduce the subject up to outer whitespace, and full cleaning is the default; of several mode options the last counts.",
  ["inputs", "configurations"], "every subject line and every cleaning mode",
  "Eighteen fixed subjects are tested.",
  [G+"patch_header.go"],
  [("subject scanner", G+"patch_header.go cleanSubject")],
  observe=["PatchHeader.Title", "PatchHeader.SubjectPrefix"])
p("C28", "Dates in every git date format parse to the right instant",
  "For any instant in the years 1000 to 9999 and any zone, the date string git prints in the default, iso, iso-strict, rfc, raw, unix or short format, with zone or in local form, parses to exactly that instant at the precision of the format and keeps the printed zone offset. An empty string gives the zero time, and strings with out-of-range fields or in no supported format give an error.",
  ["inputs", "configurations"], "every instant, zone offset, local time zone and date format",
  "One instant in one zone is tested per format.",
  [G+"patch_header.go"], [("layout list and numeric formats", G+"patch_header.go ParsePatchDate")],
  observe=["time returned by ParsePatchDate"])
p("C29", "Identities are split into name and email correctly",
  "For any name and address, an identity written as 'Name <address>' (the brackets may be missing around an address with '@'), as a bare or bracketed address, with a quoted-string name or quoted pairs, or with extra whitespace around its parts yields exactly that name and address, with inner whitespace runs collapsed, and the address standing in for a missing name. A parenthesised comment after an address with '@' is the name if there is no other, and otherwise stays part of it. Formatting an identity and parsing it gives it back, and a string without name and address is an error, also in a patch header.",
  ["inputs"], "every name without '@<>' (and without quotes, backslashes next to parentheses or parentheses around it where it is not quoted) and every address, in each written form",
  "Fifteen fixed strings are tested.",
  [G+"patch_identity.go"],
  [("identity heuristic", G+"patch_identity.go ParsePatchIdentity/unquotePairs/normalizeSpace"), ("formatting", G+"patch_identity.go String")],
  observe=["PatchIdentity"])
p("C30", "The library is safe for concurrent use on separate and shared values",
  "Any number of goroutines may parse, format, validate, decompress and apply at the same time, on separate inputs or sharing parsed files and sources for reading. Each gets the result it would get alone, without data races.",
  ["schedules", "inputs"], "every set of operations running concurrently under any schedule",
  "Tests are sequential and do not run under the race detector.",
  [G+"base85.go", G+"format.go", G+"binary_reader.go", G+"apply.go"],
  [("package-level tables are written only during initialisation", G+"base85.go init; format.go quoteEscapeTable"), ("no shared buffers", G+"io.go, binary.go")],
  observe=["results compared with sequential run, race detector"])
p("C31", "Validate accepts exactly the consistent fragments",
  "Validating a text fragment returns nil if and only if every line has a known operation, its old, new, added, deleted, leading-context and trailing-context counts equal what its lines contain, and a fragment at old position zero has no old lines. A nil fragment is an error, and applying a fragment that fails validation returns an error and writes nothing.",
  ["inputs"], "every fragment value, consistent or perturbed in any single or several fields",
  "One example per count is tested.",
  [G+"gitdiff.go", G+"apply_text.go"], [("recount", G+"gitdiff.go Validate"), ("validation before apply", G+"apply_text.go ApplyFragment")],
  observe=["TextFragment.Validate", "TextApplier.ApplyFragment"])
p("C32", "Header, identity and date parsing never crash or hang",
  "Parsing any string as a patch header (in every subject mode), identity or date terminates with a result or an error, never a panic, in time and memory proportional to the input. On success the header is non-nil, titles, bodies, appendices, subject prefixes, names and addresses carry no trailing line breaks, and identities have a name or an address.",
  ["inputs"], "every string and cleaning mode",
  "Tests parse a few dozen well-formed strings.",
  [G+"patch_header.go", G+"patch_identity.go"],
  [("header dispatch", G+"patch_header.go ParsePatchHeader"), ("index arithmetic on byte positions", G+"patch_identity.go, patch_header.go cleanSubject")],
  observe=["ParsePatchHeader", "ParsePatchIdentity", "ParsePatchDate"])
p("C33", "Parse errors name the line at fault",
  "When parsing fails on malformed content, the error names a line of the input, counted from one whatever comes before: the fragment header that is malformed, stands without a file, contradicts a creation or deletion or miscounts its lines; the invalid line of a fragment; the header line with the bad name, mode, score or index; the bad size or data line of binary data. For other defects the line lies within the malformed file or directly after it. Text and files before the defect change nothing in the error but the line number.",
  ["inputs"], "every malformed file of the classes of C09 after any number of files and lines of text",
  "No test looks at the numbers in parse errors; they are computed from offsets that depend on how far the parser has moved.",
  [G+"parser.go", G+"text.go", G+"binary.go", G+"file_header.go"],
  [("line counting", G+"parser.go Next/Errorf"), ("offsets of the line at fault", G+"text.go, file_header.go, binary.go calls of Errorf")],
  observe=["error returned by Parse"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
