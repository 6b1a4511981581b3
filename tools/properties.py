"""Writes properties.jsonl and MANIFEST.json. Run from /verif after editing."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [
                  {"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})


prop("C01", "In-place formatting replaces a file atomically, whatever happens",
     "While and after knfmt -i works on a file, every observer of that path sees either the complete original or the complete formatted text, never anything else and never no file. This includes the moment after the process is killed at any point, after any system call fails or transfers less than asked for, after a write error that is only reported late, and after a power loss at any point.",
     ["crash_points", "fault_sequences", "inputs"],
     "every input file and file list, every call as the point of a kill, power loss or failure, every split of writes",
     "The tests run knfmt -i to completion on an idle disk; no test kills it, fails a call, shortens a write or loses power.",
     ["knfmt.c", "fs.c"],
     [("temporary file next to the original, synced, then renamed over it", "knfmt.c filewrite()"),
      ("temporary name in the same directory", "fs.c tmptemplate()")],
     ["contents of the path after every simulated call and after restart"])
prop("C02", "With -i the exit status is truthful and a failing file harms no other",
     "knfmt -i exits zero only if every named file now holds its formatted text, durably written; a file that could not be read, parsed or written is left exactly as it was and makes the exit status non-zero. A failure on one file, whichever call fails, does not keep the other named files from being formatted.",
     ["fault_sequences", "inputs", "histories"],
     "every list of acceptable, rejected, missing and unreadable files and every failing or shortened call",
     "Tests format one file at a time and never make a call fail; mixed lists with failures in between are not reached.",
     ["knfmt.c", "file.c", "libks/buffer.c"],
     [("per file error accumulation", "knfmt.c main(), fileformat()"),
      ("every result of a call is checked before the rename", "knfmt.c filewrite()")],
     ["exit status", "contents of all named files"])
prop("C03", "In-place formatting preserves permission bits and ownership",
     "At every moment during and after knfmt -i the path carries the permission bits, including set-id and sticky bits, owner and group it had before; when they cannot be restored the original stays in place. What has been written but is not in place yet is never readable or writable by anybody who could not read or write the original.",
     ["crash_points", "fault_sequences", "configurations"],
     "every mode, owner, umask and calling user, every failing call and kill point",
     "No test looks at attributes at all, let alone as a user who may not change owners or with a failing chmod.",
     ["knfmt.c"],
     [("attributes copied from the open original before the rename", "knfmt.c fileattr()"),
      ("temporary created with a restrictive mode", "knfmt.c filewrite()")],
     ["mode, owner and group of every name after every simulated call"])
prop("C04", "knfmt touches nothing but the files it is asked to rewrite",
     "Without -i, or with -d, knfmt changes no existing file; with -i it changes nothing but the named files, leaving neighbours, other hard links and files with similar names alone. Unless it is killed or removing a file itself fails, it leaves no additional file behind, in any directory, however it ends.",
     ["fault_sequences", "inputs", "configurations"],
     "every combination of flags, file lists, neighbouring files and failing calls",
     "Tests compare the one file they know about; nothing looks for strays after an error.",
     ["knfmt.c", "fs.c", "libks/tmp.c"],
     [("temporary removed on every error path", "knfmt.c filewrite()"),
      ("temporary files for -d are unlinked while open", "libks/tmp.c")],
     ["complete name space after every simulated call and at exit"])
prop("C05", "A file that is already formatted is never rewritten",
     "knfmt -i neither replaces, writes to nor creates a temporary file for a file whose text equals its formatted text, so inode and modification time survive and no write permission is needed. Such a file alone gives exit status zero and no output.",
     ["inputs", "fault_sequences", "configurations"],
     "every formatted file, size, read delivery, memory layout and neighbour in the list",
     "Tests compare text, which is identical either way.",
     ["knfmt.c", "libks/buffer.c"],
     [("source and result compared before writing", "knfmt.c filewrite(), buffer_cmp()")],
     ["inode identity, write count, created files"])
prop("C06", "Standard output is complete and in order, or the exit status says so",
     "Without -i and -d, exit status zero means that the formatted text of every named file, or of standard input, reached standard output completely, once and in the given order, however writes are split. When output cannot be written in full the exit status is non-zero, or the process dies from SIGPIPE, and what did reach the output is made of the formatted texts in order.",
     ["fault_sequences", "schedules", "inputs"],
     "every split, failure or early close of standard output: pipes of any capacity, full disks, vanished readers",
     "Tests capture output through a reader that always takes everything.",
     ["knfmt.c"],
     [("write loop until everything is taken", "knfmt.c fileprint()")],
     ["bytes received by the reader, exit status"])
prop("C07", "How input is delivered does not matter; a failed read is not end of file",
     "For the same bytes the outcome is the same whether they arrive in one read or many, from a file, a pipe or standard input (apart from what a file's name decides), and whatever their size relative to buffer boundaries. If reading a source, the diff or a style fails part way, nothing formatted from the part received is written, printed or compared, and the exit status is non-zero.",
     ["fault_sequences", "inputs"],
     "every partition of every input into reads and every read as the failing one",
     "Tests read small regular files, where one read returns everything and none fails.",
     ["libks/buffer.c", "file.c", "style.c", "diff.c", "clang.c"],
     [("read until end of file into a growing buffer", "libks/buffer.c buffer_read_fd_impl()")],
     ["outputs and exit status across deliveries"])
prop("C08", "A file is formatted the same whatever was processed before it",
     "For every list of files, what each file is turned into, printed as, compared as and complained about is what the same invocation on that file alone gives, in order. This holds as well when earlier files of the list are malformed, unreadable or cannot be written.",
     ["histories", "fault_sequences"],
     "every sequence of files, valid or not, in every mode, with failures in between",
     "Tests start a new process per file, so no state can be carried over.",
     ["knfmt.c", "clang.c", "lexer.c", "simple.c", "parser.c", "diff.c", "libks/arena.c"],
     [("per file contexts and arenas are reset", "knfmt.c fileformat()"),
      ("per file simple and clang state", "simple.c, clang.c")],
     ["outputs of a list against those of single runs"])
prop("C09", "Files already dealt with use up no descriptors, children or memory",
     "The number of files in one invocation is not limited by descriptors or processes: a long list gives the same result under a low descriptor limit as under a high one, also when most files fail, always at the same point. Every child process started has been waited for when knfmt exits, and peak memory does not grow with the number of files beyond bookkeeping.",
     ["histories", "fault_sequences"],
     "every long list, every mode, every repeatedly failing call",
     "Tests pass one file and never hit an error path twice.",
     ["knfmt.c", "file.c", "diff.c", "style.c", "clang.c", "libks/arena.c"],
     [("file_close() on every path", "knfmt.c main()"),
      ("child reaped", "knfmt.c filediff(), style.c"),
      ("arena scopes freed per file", "knfmt.c fileformat()")],
     ["results under a low descriptor limit, unreaped children, peak of live allocations"])
prop("C10", "Running out of memory never yields wrong results",
     "Whichever allocation fails, once or from then on, knfmt ends with a non-zero exit status and a message, or with exit status zero and exactly the result it gives with enough memory; it never crashes. Files are left original or completely formatted, output consists of formatted texts in order, and no additional file remains.",
     ["fault_sequences", "inputs"],
     "every allocation of every run as the failing one, in all modes",
     "No test makes an allocation fail.",
     ["libks/arena.c", "libks/buffer.c", "libks/vector.c", "libks/map.c", "knfmt.c"],
     [("allocation failures are fatal and reported", "libks/arena.c, libks/vector.c"),
      ("nothing is written before formatting is complete", "knfmt.c fileformat()")],
     ["exit status, messages, files, output"])
prop("C11", "The same input always gives the same result",
     "Output, diagnostics, file contents and exit status are a function of the flags, files, style and diff alone: they do not depend on where memory lies, what it held before, whether blocks move, which processor features exist, how the C library's sort orders equal elements, process ids, random names, the time, environment variables, the user, the umask or whether a terminal is attached.",
     ["configurations", "inputs"],
     "every memory layout, prior memory content, processor capability, random seed, clock, environment and user, for valid and damaged input",
     "Tests run in one environment and would have to be lucky to notice.",
     ["libks/", "clang.c", "lexer.c", "expr.c", "doc.c", "ruler.c", "style.c", "cpp-include.c"],
     [("initialised state, bounded reads", "all of the parser and printer"),
      ("native string matching agrees with the portable one", "libks/string.c, libks/string-x86_64.S")],
     ["results across simulated environments"])
prop("C12", "-d shows exactly what -i would do and touches nothing",
     "With -d the output for each file is a unified diff, labelled with its path, that applied to the file gives its formatted text, or nothing at all if the file is formatted; no file changes. When the diff cannot be produced completely the exit status is non-zero; it is zero only if there is no difference. Nothing is written to standard error unless something failed.",
     ["fault_sequences", "schedules", "inputs"],
     "every file, every schedule of knfmt and its diff child, every failing call in either, missing or dying diff",
     "Tests run a healthy diff(1) on small inputs.",
     ["knfmt.c", "libks/tmp.c"],
     [("both texts handed to diff(1) through temporary files", "knfmt.c filediff()"),
      ("status of the child examined", "knfmt.c filediff()")],
     ["diff output applied by an independent patcher, exit status, files"])
prop("C13", "-D changes only what the received diff covers",
     "With -D knfmt formats only top level constructs touched by completely received chunks of the diff and leaves everything else byte for byte as it is; whatever lines the chunks cover, no text is lost or repeated, also when declarations or includes are sorted (-s). Files the diff does not name are never touched, wherever in a repository knfmt is run. A diff that cannot be read or is cut short is refused with a message and non-zero exit status, without changing anything; a stale diff, pointing outside the file, never damages it.",
     ["fault_sequences", "inputs"],
     "every diff, split, cut, failing read, and every mismatch of diff and file",
     "Tests feed complete diffs that match their file, in one read.",
     ["diff.c", "doc.c", "lexer.c", "knfmt.c"],
     [("chunks mark the tokens they cover", "diff.c diff_parse(), diff_get_chunk()"),
      ("unmarked groups are emitted verbatim", "doc.c doc_diff_*()")],
     ["constructs that changed against those covered, text lost or repeated, namesakes of the files named"])
prop("C14", "The nearest style applies completely, or knfmt refuses",
     "The style in effect is that of the nearest .clang-format at or above the working directory, and the default if there is none. If that file exists but cannot be opened or read, or the clang-format helper consulted for a base style fails, dies or cannot be started, no style from a partial read or another directory is applied: knfmt ends with non-zero status and a message, or carries on with what the file itself says.",
     ["fault_sequences", "schedules", "configurations"],
     "every placement of style files, every failing call while looking for, reading or resolving them, every helper failure and pipe split",
     "Tests place one readable style file; the helper is not exercised with failures.",
     ["style.c", "fs.c"],
     [("search upwards for the style file", "fs.c searchpath()"),
      ("base style from clang-format -dump-config", "style.c parse_BasedOnStyle()")],
     ["formatted text against that of each candidate style"])
prop("C15", "Damaged input is refused or formatted, never lost, and never crashes",
     "For sources, styles and diffs that are truncated, corrupted or mixed up, knfmt never crashes, trips an assertion or reads or writes out of bounds. Each file is either refused, with a message naming it, non-zero exit status and no effect, or accepted; a truncated source that is accepted loses none of its words, and neither does a source damaged in any way that has no preprocessor conditionals.",
     ["inputs", "fault_sequences"],
     "every truncation, lost, repeated, zeroed or misplaced block, flipped bit, of sources, styles and diffs",
     "Tests cover a few hand written malformed files.",
     ["clang.c", "lexer.c", "parser*.c", "expr.c", "doc.c", "style.c", "diff.c", "cpp-*.c", "simple*.c"],
     [("errors unwind, recovery removes preprocessor branches", "parser.c, lexer.c, clang.c"),
      ("assertions guard invariants only", "all")],
     ["crash, sanitizer report, exit status, messages, words of the file"])
prop("C16", "Concurrent use on the same files is safe",
     "When several knfmt processes, and editors that replace files atomically, work on the same files under any interleaving, every observer sees only complete versions: one of the originals or the formatted form of one. Processes that were not disturbed by a fault succeed, print only complete versions, leave files formatted and no temporary file behind, even if others are killed.",
     ["schedules", "crash_points", "fault_sequences"],
     "every interleaving of the calls of all processes, kill points and failures of any of them",
     "Tests run one process at a time.",
     ["knfmt.c", "fs.c"],
     [("unique temporary names, rename", "knfmt.c filewrite(), fs.c tmptemplate()"),
      ("the file is read once", "file.c file_read()")],
     ["contents after every step, what readers saw, exit status of each process"])
prop("C17", "Failure is never silent",
     "Whenever knfmt exits with non-zero status it has written a message to standard error, except with -d when the diff is on standard output.",
     ["fault_sequences", "inputs"],
     "every failing call, malformed input and mode",
     "Tests check messages for a handful of syntax errors only.",
     ["knfmt.c", "file.c", "diff.c", "style.c", "clang.c", "fs.c"],
     [("warn() at every failing call", "knfmt.c, file.c, fs.c, diff.c")],
     ["standard error and exit status"])
prop("C18", "knfmt always comes to an end, within bounds",
     "Whatever fails and however slowly or finely data flows through files, pipes and helpers, knfmt ends within a number of steps bounded by the amount of data, without deadlock between it and its children. Processor time and memory stay bounded for deeply nested and long inputs, up to the nesting found in practice, and grow no faster than in proportion to the number of files, style options, top level constructs, statements, comments and blank or long lines.",
     ["schedules", "fault_sequences", "inputs"],
     "every schedule of knfmt and helpers, pipe capacity, failure, nesting and repetition",
     "Tests see healthy helpers, large pipes and small inputs.",
     ["knfmt.c", "style.c", "clang.c", "parser*.c", "expr.c", "doc.c", "libks/buffer.c"],
     [("pipe read until end of file before waiting", "style.c"),
      ("error paths leave loops", "all")],
     ["deadlock, step count, processor time, live memory"])
prop("C19", "Running again after an interruption puts everything right",
     "After any sequence of runs of knfmt -i that were killed, lost power or failed, one undisturbed run exits zero with every file formatted, attributes intact and nothing of what earlier runs left behind in the way, even if temporary names repeat. A further run changes nothing.",
     ["histories", "crash_points", "fault_sequences"],
     "every sequence of interruptions, each at any point",
     "Tests never interrupt and rerun.",
     ["knfmt.c", "fs.c"],
     [("exclusive creation of temporary files", "knfmt.c filewrite()"),
      ("no state besides the files", "knfmt.c")],
     ["files after the undisturbed run"])
NA = []


def na(id, title, statement, reason, files, mech):
    prop(id, title, statement, ["inputs"], "every source file and style",
         "Tests sample a few hundred inputs.", files, mech,
         ["formatted text"])
    NA.append({"property": id, "reason": reason})


PURE = ("A pure function of the text: no schedule, clock, I/O, crash or second "
        "party can influence it, so deterministic simulation with fault "
        "injection has nothing to vary; generating inputs would be property "
        "based testing, another technique. ")
na("C20", "Formatting preserves the tokens of the source",
   "Without -s, every valid C source is turned into text with the same sequence of tokens, comments and preprocessor directives.",
   PURE + "(What faults can do to it is covered by C07, C08, C10, C11, C15.)",
   ["clang.c", "parser*.c", "doc.c"], [("every token is emitted once", "parser.c, doc.c")])
na("C21", "Formatting is idempotent",
   "Formatting already formatted text changes nothing.",
   PURE + "(C05 and C19 rely on it only where a reference run shows it.)",
   ["doc.c", "parser*.c", "ruler.c"], [("layout depends on tokens, not on the former layout", "doc.c")])
na("C22", "-s preserves the meaning of the program",
   "Simplifications applied by -s never change what a program means.",
   PURE, ["simple*.c"], [("conservative rewriting", "simple*.c")])
na("C23", "clang-format off regions are kept verbatim",
   "Text between clang-format off and on comments in a valid source is reproduced byte for byte.",
   PURE, ["clang.c", "parser.c"], [("verbatim tokens", "clang.c, parser.c")])
na("C24", "Style options have their documented effect",
   "Each supported style option changes the layout as documented and no line exceeds the column limit if it can be broken.",
   PURE, ["style.c", "doc.c", "ruler.c"], [("style lookups", "style.c")])

prop("C25", "Missing or failing standard streams never damage files or fake success",
     "If any of standard input, output and error is closed when knfmt starts, or writes to standard output or error fail or their reader leaves, in any mode and even if other calls fail as well, the files end up exactly as they would with all streams in place, and no message or output lands in a file. Only a signal for a reader that left may end the run early; then each file is either untouched or done. knfmt exits zero only if all it had to read was read and all it had to print was delivered, and trouble with messages alone does not change its exit status or what it prints.",
     ["fault_sequences", "inputs"],
     "every subset of closed streams, every byte after which a stream fails or its reader leaves, every other failing call, file list and mode",
     "Tests always provide all streams.",
     ["knfmt.c", "file.c", "error.c", "diff.c", "style.c"],
     [("descriptors compared with -1 only", "knfmt.c filewrite(), file.c file_read()"),
      ("failing writes to standard output are reported", "knfmt.c fileprint()"),
      ("no message is written while a file that will be kept is written", "knfmt.c filewrite()"),
      ("pipe descriptors are not closed in the helper after being duplicated", "style.c clang_format_dump_style()")],
     ["files, exit status and streams compared with a run that has all streams"])

prop("C26", "Options act however written, misuse does nothing and tracing only observes",
     "An unknown option or trace flag, an option without its argument, file names together with -D, or -i without file names and without -D is refused: a message, non-zero exit status, no output and no file touched. Options accepted before the file names act the same in any order, grouped, repeated, with their argument attached or apart, and followed by -- or not. Tracing with -t, of anything, changes neither files, standard output nor exit status, and adds to the messages only, even if standard error cannot be written or other calls fail.",
     ["inputs", "configurations", "fault_sequences"],
     "every command line, source, style, memory layout, failing call and point at which standard error fails",
     "Tests use one spelling of each option and never trace.",
     ["knfmt.c", "options.c", "trace.c", "doc.c", "lexer.c", "style.c"],
     [("options and their arguments", "knfmt.c main()"),
      ("trace flags", "options.c options_trace_parse()"),
      ("tracing in the middle of formatting", "doc.c doc_trace_impl(), trace.c trace_impl()")],
     ["files, output, exit status and messages compared with the plain spelling"])

TECH = {
    "C26": "deterministic simulation: seeded command lines, tracing, failing calls and messages, compared with a plain run",
    "C25": "deterministic simulation: seeded closed, failing and abandoned standard streams, compared with a run that has them",
    "C01": "deterministic simulation: seeded kills, power loss, failing and short calls; invariant after every call",
    "C02": "deterministic simulation: seeded failing calls over file lists; outcome against reference runs",
    "C03": "deterministic simulation: seeded modes, owners, failing calls and kills; invariant after every call",
    "C04": "deterministic simulation: seeded failing calls in all modes; name space invariant after every call",
    "C05": "deterministic simulation: inode identity invariant under seeded delivery and faults",
    "C06": "deterministic simulation: seeded splits, failures and early closes of standard output",
    "C07": "deterministic simulation: seeded read partitions and failing reads against one-read reference",
    "C08": "deterministic simulation: seeded histories of files and faults against single-file runs",
    "C09": "deterministic simulation: long histories with repeated faults under descriptor limits",
    "C10": "deterministic simulation: seeded allocation failures against fault free reference",
    "C11": "deterministic simulation: seeded allocator layouts, fills and processors compared",
    "C12": "deterministic simulation: seeded schedules and faults of knfmt and diff, output checked by an independent patcher",
    "C13": "deterministic simulation: seeded torn and stale diffs, failing reads; construct level oracle",
    "C14": "deterministic simulation: seeded style trees, failing calls and helpers; oracle per candidate style",
    "C15": "deterministic simulation: seeded storage and transfer damage to inputs, with sanitizers",
    "C16": "deterministic simulation: seeded interleavings of several knfmt, readers and editors with kills",
    "C17": "deterministic simulation: seeded failing calls in all modes",
    "C18": "deterministic simulation: seeded schedules, tiny pipes, fault storms; bounded progress; processor time counted in control flow edges, compared as the input grows",
    "C19": "deterministic simulation: seeded crash-and-rerun histories",
}
NOTE = ("Seeded search over whole simulated executions of the real code built "
        "from /repo's working tree; evidence, not proof. Trusts the simulated "
        "kernel, file system durability model and helper stubs.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 sim/build.py",
         "hooks": {"guard": "none", "enable": "No hooks: calls are redirected "
                   "by renaming symbols in the objects built from /repo.",
                   "source_commits": []},
         "checks": [{"property": p["id"],
                     "quick_cmd": "python3 sim/check.py " + p["id"],
                     "thorough_cmd": "VERIF_TIER=thorough python3 sim/check.py "
                     + p["id"],
                     "technique": TECH[p["id"]], "level": "exploration",
                     "level_note": NOTE}
                    for p in P if p["id"] in TECH],
         "not_applicable": NA,
         "notes": "See DESIGN.md. Replay: python3 sim/replay.py FILE."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
