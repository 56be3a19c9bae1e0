#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "In-place rewrite is all-or-nothing for every file",
  "When `--write` rewrites a file, then at every instant of the run, and after the process is killed, the machine loses power, or any write, flush, rename or close fails (disk full included), the path holds either the complete previous content or the complete formatted content - never an empty, partial, mixed or missing document. A rewrite that completes also keeps the file's permission bits, keeps symbolic links pointing at the rewritten file, and leaves no auxiliary file behind on success or on a reported failure.",
  ["crash_points", "fault_sequences", "schedules", "inputs"],
  "Every point of the write sequence at which the process or machine can stop or a system call can fail, every file size, every concurrent rewrite of other files, every instant at which somebody else reads the file.",
  "Integration tests only compare the file after a run in which nothing failed; no test kills the process, fills the disk, or looks at the file while it is being written.",
  ["src/main.rs"],
  [("write-back of the formatted document", "src/main.rs process_files_parallel")],
  observe=["file system state at every mutation", "post-crash disk image"])

p("C02", "A failure on one file never disturbs the other files",
  "In `--write` and `--check` mode, whatever goes wrong with one file (unreadable, deleted or replaced meanwhile, not UTF-8, not writable, disk full, I/O error), every other selected file is still processed exactly as if the failing file had not been selected. The failing file keeps its content and gets exactly one error message that names it.",
  ["fault_sequences", "schedules", "inputs"],
  "All subsets of failing files, all failure kinds and positions, all interleavings of the worker threads.",
  "Tests run at most two or three files with at most one failure and never inspect what happened to the neighbours under injected I/O errors.",
  ["src/main.rs"], [("per-file closure of the parallel loop", "src/main.rs process_files_parallel")],
  state=[dict(name="has_error", meaning="some file failed", where="src/main.rs process_files_parallel")],
  observe=["final file contents", "stderr", "exit status"])

p("C03", "The exit status tells the truth",
  "Exit status 0 means every selected document was read, formatted and delivered (written, printed, or in `--check` mode - for files and for standard input alike - found already formatted); if any document could not be read, decoded, formatted, written or printed, or `--check` found a document that is not formatted, the status is non-zero. With no failure and nothing unformatted to report the status is 0, and the run always ends by exiting with a status: it never crashes, hangs or dies of a signal it was not sent.",
  ["fault_sequences", "schedules", "inputs", "configurations"],
  "All modes, all combinations of failing and healthy documents, all orders in which workers finish, all faults on reads, writes and standard streams.",
  "Tests check the status for single-file runs without I/O faults; a flag lost in one interleaving, or a fault at one particular call, is outside their reach.",
  ["src/main.rs"], [("error flags combined over worker threads", "src/main.rs process_files_parallel"), ("early exits of the stream modes", "src/main.rs process_files_sequential, process_files_diff, main")],
  observe=["exit status", "file system state", "standard streams"])

p("C04", "Nothing but the selected, changed files is ever modified",
  "Without `--write` a run never creates, changes, renames or removes any file; with `--write` the only files whose content or metadata change are selected files whose formatted form differs from their content. Already-formatted, unselected, ignored and unreadable files, and files reached by no selection, are left untouched under every fault and schedule, and no new file outlives a run that ends by itself.",
  ["fault_sequences", "schedules", "inputs", "configurations"],
  "All modes, trees, selections, faults and schedules; judged on every mutating file-system operation, not only on the final state.",
  "Tests look at the one file they formatted, not at every mutating call of the run or at the rest of the tree.",
  ["src/main.rs", "src/config.rs"], [("mode dispatch", "src/main.rs main"), ("input != output guard before writing", "src/main.rs process_files_parallel")],
  observe=["every mutating file-system operation"])

p("C05", "Reported file lists are exact",
  "With `--write`, standard output lists exactly the files that were rewritten, each once and nothing else; with `--check`, standard error names as not formatted exactly the files whose formatted form differs, each once. This holds for every interleaving of the workers and when some files fail: a file whose rewrite failed is never listed as written, and a rewritten file is never missing from the list.",
  ["schedules", "fault_sequences", "inputs"],
  "All interleavings of the workers, all subsets of unformatted and failing files, short and interrupted writes on the standard streams.",
  "Tests look for one file name in the output of a one-file run.",
  ["src/main.rs"], [("println!/eprintln! after each file", "src/main.rs process_files_parallel")],
  observe=["stdout", "stderr", "file system state"])

p("C06", "The result does not depend on scheduling or on the other files",
  "For fixed files, configuration and arguments, the final content of every file, the multiset of output lines and the exit status are the same for every number of worker threads, every thread schedule, every directory enumeration order and every hash seed. Each file's result is the one obtained when that file is formatted alone, so directives, headings, references, footnotes and warnings of one document never leak into another.",
  ["schedules", "inputs", "configurations"],
  "All interleavings of the worker threads at the granularity of individual memory accesses, all thread counts, all sets of documents processed together.",
  "The tests format one document at a time, or a couple with whatever schedule the OS happens to choose.",
  ["src/main.rs", "src/lib.rs", "src/serializer/mod.rs", "src/serializer/state.rs", "src/serializer/document.rs", "src/serializer/heading.rs"],
  [("per-document serializer state", "src/serializer/state.rs"), ("rayon parallel iteration", "src/main.rs process_files_parallel")],
  observe=["final file contents", "sorted output lines", "exit status"])

p("C07", "A working code formatter's output is always used",
  "If a configured code formatter exits with status 0 within its time limit, having written valid UTF-8 to its standard output, then the code block's content becomes exactly that output, whatever the sizes of the code, of the output and of its diagnostics, whether it reads all, part or none of its input, and however its reads, writes and exit interleave with hongdown. The formatter is started with exactly the configured command and arguments, once per eligible block, and receives exactly the block's code followed by end of file.",
  ["schedules", "inputs", "fault_sequences"],
  "All timings of the formatter's reads, writes, closes and exit against hongdown's, all pipe capacities, all sizes, short and interrupted reads and writes on the pipes.",
  "Tests pipe a few bytes through `cat` or `tr`; nothing exceeds a pipe buffer and no interleaving is controlled (one such test is already known to be flaky).",
  ["src/serializer/formatter.rs", "src/serializer/code.rs"],
  [("run_formatter", "src/serializer/formatter.rs"), ("try_format_code", "src/serializer/code.rs")],
  observe=["bytes the formatter received", "argv it was started with", "formatted document"])

p("C08", "A failing code formatter leaves the code intact and is reported once",
  "If a code formatter cannot be started, exits with a non-zero status, is killed by a signal, exceeds its time limit, or writes invalid UTF-8, then the code block keeps its original code byte for byte, exactly one warning naming the command and the language appears for that block, and the rest of the document and the other documents are formatted as usual. A failed formatter never contributes any of its output to the document and never makes the run fail.",
  ["fault_sequences", "schedules", "inputs"],
  "All ways and moments a formatter can fail, including partial output before the failure, failing spawns, and several formatters failing concurrently.",
  "Tests cover `false`, a missing command and one timeout, never partial output followed by a failure or the interplay of several blocks and files.",
  ["src/serializer/formatter.rs", "src/serializer/code.rs"],
  [("FormatterError variants", "src/serializer/formatter.rs"), ("warning and fall-back to the original", "src/serializer/code.rs try_format_code")],
  observe=["formatted document", "stderr", "exit status"])

p("C09", "The formatter time limit is enforced",
  "A code block delays a run by no more than its formatter's configured time limit plus a small constant, whatever the formatter does: never reading, never exiting, flooding its output, closing its streams early, or leaving its streams open in a background descendant. A formatter that finishes before its limit is never treated as timed out, also when the system clock is set forwards or backwards meanwhile.",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "All formatter behaviours, limits, block sizes, clock jumps and schedules; liveness as a bound on simulated time.",
  "One test waits a real second for `sleep 10` with empty input; blocking on a full pipe, on a descendant that keeps the pipe open, and clock jumps are not reachable that way.",
  ["src/serializer/formatter.rs"], [("polling loop with deadline", "src/serializer/formatter.rs run_formatter")],
  observe=["simulated time at which the run ends", "formatted document"])

p("C10", "No formatter process is left behind",
  "When a run ends by itself, every formatter process it started has terminated and has been waited for, and by the time a block is given up on for exceeding its time limit or for any other error its formatter process has been killed and reaped. Over a run of any length the number of formatter processes alive or unreaped at once never exceeds the number of blocks being formatted at once.",
  ["schedules", "fault_sequences", "histories"],
  "All failure moments (spawn, feeding input, waiting, time limit), all schedules, runs with many blocks.",
  "Tests never look at the process table after a timeout or an input error.",
  ["src/serializer/formatter.rs"], [("kill on time limit", "src/serializer/formatter.rs run_formatter")],
  observe=["simulated process table"])

p("C11", "Streamed output is complete and in order, or the run fails",
  "When hongdown prints formatted documents or diffs (file arguments, `--diff`, `--stdin` or `-`) and exits with status 0, standard output received exactly the full output for every document in argument order (directories expanded in sorted order), whatever short or interrupted reads and writes occurred, and every diff applied to the original gives the formatted document. If input cannot be fully read or decoded, or the output cannot be fully delivered, the exit status is non-zero and what was printed is a prefix of the correct output.",
  ["fault_sequences", "inputs", "schedules"],
  "All faults at all byte positions of standard input, standard output and the input files; all chunkings.",
  "Tests read a whole pipe from a run without faults; a full or closed output, or an interrupted read, never occurs.",
  ["src/main.rs"], [("print!/print_diff", "src/main.rs process_files_sequential, process_files_diff, print_diff"), ("read_to_string on stdin", "src/main.rs main")],
  observe=["stdout bytes", "exit status"])

p("C12", "An unusable configuration never leads to formatting",
  "If a configuration file that applies to the run (the one given with `--config`, or any file of the cascade that is not overridden by `no_inherit`) exists but cannot be read or is invalid, the run reports an error naming that file (or, for a value that is only unusable in combination with others, naming the setting), exits with a non-zero status, prints no formatted document and modifies nothing. It never continues with default or partially merged settings.",
  ["fault_sequences", "configurations", "inputs"],
  "All configuration sources, all kinds of damage (I/O error at any read, truncation, invalid UTF-8, syntax errors, out-of-range values), all modes.",
  "Tests cover parsing of strings, not what a run does to the user's files when a layer cannot be loaded.",
  ["src/main.rs", "src/config.rs"], [("load_config", "src/main.rs"), ("ConfigLayer::from_file, load_cascading", "src/config.rs")],
  observe=["exit status", "stderr", "file system state"])

p("C13", "Effective settings are exactly those of the documented cascade",
  "A run behaves as if one configuration had been given that takes each top-level setting and each settings table from the highest-priority source defining it, in the order system, user (legacy), user (platform-specific), nearest project file at or above the working directory; `no_inherit = true` in the project file discards the others even if they are broken, `--config` replaces the whole cascade, and `--line-width` overrides the width. All documents of a run are formatted under that same configuration, even if configuration files change while it runs.",
  ["configurations", "schedules", "fault_sequences"],
  "All combinations of present, absent and broken layers, working directories and environment variables, and edits of the configuration while the run proceeds.",
  "Unit tests exercise a few hand-written layers through library calls; the home, XDG and system locations and concurrent edits are not controlled.",
  ["src/config.rs", "src/main.rs"], [("load_cascading, merge_over, discover_project_config", "src/config.rs"), ("load_config", "src/main.rs")],
  observe=["formatted documents compared with a run under the merged configuration"])

p("C14", "A directory argument covers every Markdown file below it",
  "A directory argument selects every regular file below it, at any depth and through symbolic links, whose extension is `.md` or `.markdown` in any letter case, and no other file; symbolic-link cycles end and are not an error. If some part of the tree cannot be examined, the files that can be reached are still processed, the unreadable part is reported and the exit status is non-zero; files appearing or vanishing meanwhile never make others be skipped.",
  ["fault_sequences", "schedules", "inputs"],
  "All tree shapes, enumeration orders, entries without type information, and errors of every directory-reading and stat call.",
  "Tests list two or three files in one temporary directory; no directory call ever fails and no tree has cycles.",
  ["src/main.rs"], [("collect_md_files", "src/main.rs"), ("expand_paths", "src/main.rs")],
  observe=["set of files processed", "stderr", "exit status"])

p("C15", "Pattern selection never touches excluded or git-ignored files",
  "With no file arguments, exactly the files below the configuration directory that match an `include` pattern, match no `exclude` pattern and (unless `git_aware = false`) are neither ignored by the repository's own rules (`.gitignore` files and `.git/info/exclude`; ignore rules of the user or the system play no part) nor inside a `.git` directory are processed, in every directory enumeration order. If an ignore file or directory cannot be read the run fails without modifying any file, rather than processing a different selection.",
  ["fault_sequences", "configurations", "inputs"],
  "All trees, pattern sets, ignore files at several levels, enumeration orders and I/O errors while walking.",
  "Tests use one or two patterns in a small directory; no .git directory contains matching names and no ignore file is unreadable.",
  ["src/config.rs"], [("collect_files", "src/config.rs")],
  observe=["set of files processed", "exit status"])

p("C16", "Interrupted or faulty runs converge when repeated",
  "After any number of `--write` runs that were killed, lost power or met transient errors, one further undisturbed run succeeds, leaves every selected file with exactly the content an undisturbed first run would have produced, and adds no auxiliary files to the selection; after it, `--check` succeeds and another `--write` changes nothing and lists nothing.",
  ["crash_points", "histories", "fault_sequences"],
  "All histories of interrupted runs followed by an undisturbed one, all crash points and fault placements.",
  "Tests never interrupt a run, and each runs the tool once.",
  ["src/main.rs", "src/config.rs"], [("write-back", "src/main.rs process_files_parallel"), ("file selection", "src/main.rs collect_md_files, src/config.rs collect_files")],
  observe=["file contents over a history of runs"])

p("C17", "WebAssembly wrapper loads once and recovers from a failed load",
  "However many calls of the JavaScript functions are made concurrently and however their loading steps interleave, the module is loaded and initialised at most once successfully, no call reaches the formatter before initialisation has completed, and every call resolves with the formatter's result for its own arguments (or rejects with that call's own error). If a load attempt fails, the calls waiting for it reject with the cause, and a later call tries again and succeeds once loading works.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings of concurrent calls with the asynchronous load and init steps, all failures of either step, all sequences of calls.",
  "The JavaScript tests await one call at a time with a loader that never fails.",
  ["packages/wasm/src/index.ts", "packages/wasm/src/loader-node.ts", "packages/wasm/src/loader-web.ts"],
  [("ensureInitialized", "packages/wasm/src/index.ts")],
  state=[dict(name="initPromise", meaning="the load in progress or done", where="packages/wasm/src/index.ts")],
  observe=["settlement of every call", "calls reaching the stubbed module"])

p("C18", "The npm launcher is transparent",
  "The npm `hongdown` command runs the platform binary once with exactly the arguments it was given and the same standard streams, and exits with the binary's status; if the binary cannot be found or started, dies of a signal, or does not report a status, the launcher exits with a non-zero status and never pretends success; if the binary cannot be found or started, it also says so on standard error.",
  ["fault_sequences", "inputs"],
  "All argument vectors, exit statuses, signals and spawn failures of the binary.",
  "There is no test of the launcher at all.",
  ["packages/hongdown/bin/hongdown.js"], [("spawnSync and process.exit", "packages/hongdown/bin/hongdown.js")],
  observe=["argv passed on", "exit status"])

p("C19", "Diagnostics stay whole and attributed under concurrency",
  "Every warning or error about a document is printed exactly once on standard error as one uninterrupted line (or block) that begins with or names the document it is about, in every mode; lines about different documents are never merged, torn or attributed to another document, whatever the interleaving of workers and however the stream accepts the bytes. The warnings of a document are the same, in the same order, in every mode.",
  ["schedules", "fault_sequences", "inputs"],
  "All interleavings of worker threads writing diagnostics and all short or interrupted writes on standard error.",
  "Tests look for a substring of a warning in a one-file run.",
  ["src/main.rs"], [("eprintln! of warnings", "src/main.rs process_files_parallel, process_files_sequential, process_files_diff")],
  observe=["stderr bytes"])

p("C20", "Resources in use do not grow with the length of a run",
  "Whatever a run has already processed — any number of files, directories and formatted code blocks, whether they succeeded, failed, timed out or met I/O errors — the file descriptors it holds open and the threads it keeps alive at any moment stay within a fixed number per worker thread (plus the depth of the directory being walked, and the streams and their helper threads that a still-running descendant of a formatter keeps open); everything used for one file or one formatter process is released when that file or process is done with.",
  ["histories", "fault_sequences", "schedules", "inputs"],
  "All lengths of run and all sequences of successful, failing, hanging and faulty operations in them; decided on runs of tens to a hundred and more documents or formatter processes under every kind of formatter misbehaviour and I/O error.",
  "Tests run one or two documents; a leak of one descriptor or thread per file or per failed formatter appears only after hundreds of them.",
  ["src/main.rs", "src/serializer/formatter.rs"],
  [("temporary file handling", "src/main.rs write_file"), ("pipes and helper threads of a formatter", "src/serializer/formatter.rs"), ("walks", "src/main.rs")],
  observe=["open descriptors", "live threads"])

# ---- pure functions of the input: stated, but not decided by simulation -------------------------
def na(id, title, st, files, mech, why):
    p(id, title, st, ["inputs"], "All Markdown documents and configurations.", why, files, mech)
TS = "Snapshot tests sample a few hundred hand-written documents; the property ranges over all documents."
na("C30", "Formatting preserves the meaning of the document",
   "For every input and configuration the formatted document renders to the same content as the original, apart from the documented typographic, heading-case and code-formatter changes: no text, link, image, code, table cell, list item, footnote or HTML is lost, duplicated, reordered or turned into something else.",
   ["src/serializer/mod.rs", "src/serializer/inline.rs", "src/serializer/list.rs", "src/serializer/table.rs", "src/serializer/escape.rs"], [("Serializer", "src/serializer")], TS)
na("C31", "Formatting is idempotent",
   "For every input and configuration, formatting an already formatted document returns it unchanged, so `--check` succeeds directly after `--write`.",
   ["src/serializer/mod.rs", "src/lib.rs"], [("format", "src/lib.rs")], TS)
na("C32", "Formatting is total",
   "For every valid UTF-8 input and every accepted configuration, formatting ends in a result or an error in time and memory bounded by the input size; it never panics, overflows the stack or loops.",
   ["src/lib.rs", "src/serializer/wrap.rs", "src/serializer/mod.rs"], [("format_with_warnings", "src/lib.rs")], TS)
na("C33", "Disabled regions are preserved verbatim",
   "Every region that a hongdown-disable directive covers is output byte for byte as in the source, and a directive has no effect outside the region documented for it.",
   ["src/serializer/document.rs", "src/serializer/mod.rs"], [("directive handling", "src/serializer/document.rs")], TS)
na("C34", "Code is never altered by formatting itself",
   "The content of code blocks and code spans without a configured formatter is preserved exactly, inside every container, and the fence is always long enough to contain it.",
   ["src/serializer/code.rs", "src/serializer/inline.rs"], [("serialize_code_block", "src/serializer/code.rs")], TS)
na("C35", "Wrapped lines respect the configured width",
   "Every line of wrapped prose in the output fits the configured display width unless it consists of a single unbreakable unit.",
   ["src/serializer/wrap.rs"], [("wrap", "src/serializer/wrap.rs")], TS)
na("C36", "Typographic substitution never touches code, URLs or HTML",
   "Quote, dash and ellipsis substitution changes only prose characters, and pairs quotes consistently.",
   ["src/serializer/punctuation.rs"], [("transform", "src/serializer/punctuation.rs")], TS)
na("C37", "Reference definitions and footnotes are conserved",
   "Every link reference definition and footnote of the input is present exactly once in the output with the same target or content, and every reference still resolves to it.",
   ["src/serializer/state.rs", "src/serializer/link.rs"], [("reference collection", "src/serializer/state.rs")], TS)
na("C38", "Out-of-range configuration values are rejected",
   "Every configuration value outside its documented range or vocabulary is rejected with an error that names it, and every value inside is accepted and takes effect.",
   ["src/config.rs"], [("validated newtypes", "src/config.rs")], "Tests sample boundary values of each option.")
na("C39", "Sentence case keeps proper nouns, acronyms and code",
   "Heading sentence-casing changes only the letter case of words that are neither proper nouns, acronyms, code nor otherwise protected, for every heading and word list.",
   ["src/serializer/heading.rs"], [("to_sentence_case", "src/serializer/heading.rs")], TS)
na("C40", "Options mean the same in the library, the CLI and WebAssembly",
   "For every document and every option value, the JavaScript API gives the same output and warnings as the Rust API and the CLI given the equivalent option.",
   ["src/wasm.rs", "packages/wasm/src/types.ts"], [("JsFormatOptions conversion", "src/wasm.rs")], "The JavaScript tests sample a handful of options.")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
