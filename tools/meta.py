"""The properties, in one place; `python3 tools/mk.py` writes properties.jsonl and MANIFEST.json from it."""
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, level=level))


prop("C01", "Sort is an ordered, stable permutation of its input",
     "For every set of input files and every list of keys, sort writes the header once and then every data line of every "
     "input exactly once, byte for byte, in the order given by the keys (column by name or number, or whole line; plain, "
     "case-insensitive, length, numeric, float, IP; each possibly reversed). Lines that compare equal keep their input order.",
     ["inputs", "configurations"], "all tables, key lists and groupings into files",
     "The example tests fix a few tables and keys; losing, duplicating or misordering a line depends on key collisions, "
     "cache ties, reverse flags, missing newlines and combinations of keys no test lists.",
     ["src/sort.rs", "src/comp.rs", "src/bin/cdx/sort_main.rs"],
     [("key cache ordering and tie breaking", "src/comp.rs"), ("line buffering and output", "src/sort.rs")],
     "standard output of `cdx sort`",
     "runtime monitoring: offline oracle (permutation, pairwise order, stability) over recorded runs of the real binary",
     "thousands of generated sorts per run, each output judged line by line against an independent model; inputs are sampled, not exhausted")
prop("C02", "Unique sort keeps exactly one line per key",
     "For every input and key list, sort with the unique option writes exactly the first line, in input order, of every "
     "set of lines with equal keys, in key order. No other line is dropped.",
     ["inputs", "configurations"], "all tables and key lists",
     "Duplicates interact with stability, reversed and numeric keys and buffering; the tests list a handful of duplicates.",
     ["src/sort.rs", "src/comp.rs"], [("removing equal neighbours after sorting", "src/sort.rs")], "standard output of `cdx sort -u`",
     "runtime monitoring: offline oracle over recorded runs (first of each key class, in order)",
     "sampled inputs; the oracle decides every output line of each run")
prop("C03", "Sorting does not depend on memory or temporary files",
     "For every input and key list, the result of sorting is the same whether the data fits in the sort buffer or is "
     "spilled in any number of pieces to temporary files and merged, for plain and unique sorting alike. No temporary file survives a run.",
     ["inputs", "configurations"], "all inputs, buffer sizes and temporary-directory settings",
     "The default buffer is far larger than any test input, so spilling, merging of spills and lines straddling a buffer end are never executed by the tests.",
     ["src/sort.rs", "src/util.rs"], [("spill to temporary files and merge of spills", "src/sort.rs")],
     "output of the library's sort with small buffers, and the temporary directory",
     "runtime monitoring: differential oracle across buffer sizes plus monitor of the temporary directory",
     "buffer sizes from a few dozen bytes upward drive dozens of spills per run; sampled inputs")
prop("C04", "Merging sorted files equals sorting their concatenation",
     "For every set of files each ordered by the keys, merging writes every line of every file exactly once in key order, "
     "equal lines in file order, with the header once. With the unique option exactly the first of equal lines is kept.",
     ["inputs", "configurations"], "all sets of sorted files and key lists",
     "Tournament and heap merges fail only for particular interleavings of keys, ties and file exhaustion orders.",
     ["src/sort.rs"], [("merging several sorted readers", "src/sort.rs")], "standard output of `cdx sort -m`",
     "runtime monitoring: offline oracle over recorded merges", "sampled sets of 1-9 files; the oracle decides every line")
prop("C05", "Comparison is a total order, the same by every route",
     "For every comparison method and modifier, comparing is reflexive, antisymmetric, transitive and total on all byte "
     "strings, and numeric, float, length, case-insensitive and IP comparisons agree with the mathematical order of the values. "
     "Every way of asking (values, split lines, unsplit lines, cached keys, equality only) gives the same answer.",
     ["inputs", "programs"], "all triples of values, methods and modifiers",
     "Order laws quantify over all triples; inconsistencies show only for particular pairs such as equal prefixes, embedded NULs or huge numbers.",
     ["src/comp.rs", "src/num.rs", "src/text.rs"], [("comparators and their caches", "src/comp.rs")],
     "results of the comparison functions through a harness linked with the library",
     "runtime monitoring: law-checking monitor on every comparison of a generated value set, routes cross-checked",
     "all pairs and triples of each generated value set are checked; value sets are sampled")
prop("C06", "Order checking agrees exactly with the order of the file",
     "For every file and key list, checking whether a file is sorted succeeds if and only if no adjacent pair of lines is out "
     "of order (strictly increasing when uniqueness is asked for), and a failure names the first offending line. The output of sort always passes.",
     ["inputs", "configurations"], "all files and key lists",
     "Acceptance must match the order on every adjacent pair of every file; tests hold two or three files.",
     ["src/bin/cdx/sort_main.rs", "src/bin/cdx/verify_main.rs", "src/util.rs"], [("adjacent comparison and reporting", "src/util.rs")],
     "exit status and messages of `cdx sort -c`, `-C` and `cdx verify --sort/--unique`",
     "runtime monitoring: oracle on exit status and reported line of recorded runs", "sampled files including single-defect mutations of sorted ones")
prop("C07", "Uniq keeps one right line and the right count per run",
     "For every file and key list, uniq writes exactly one line for each maximal run of adjacent lines with equal keys: the "
     "first, last, minimal or maximal one as asked. A requested count column holds the exact length of the run and gets its name in the header.",
     ["inputs", "configurations"], "all files, key lists, choices and count placements",
     "Run boundaries, the last run, ties and the chosen line depend on the data and on which of several code paths the options select.",
     ["src/bin/cdx/uniq_main.rs", "src/comp.rs"], [("run detection and choice of representative", "src/bin/cdx/uniq_main.rs")],
     "standard output of `cdx uniq`", "runtime monitoring: offline oracle over recorded runs", "sampled inputs; complete output judged")
prop("C08", "Aggregated columns hold exactly the aggregate of their group",
     "For every file, grouping and list of aggregators, each aggregated column (replacing, before or after the others) holds "
     "exactly the sum, mean, minimum, maximum, merged list, common prefix or suffix, count or character and word count of that "
     "column over exactly the lines of that group, and the other columns come from the chosen line.",
     ["inputs", "configurations"], "all files, groupings and aggregator lists",
     "Reset between groups, first and last group, negative or empty values and option combinations are beyond a handful of examples.",
     ["src/agg.rs", "src/bin/cdx/uniq_main.rs", "src/column.rs"], [("aggregator add, result and reset", "src/agg.rs")],
     "standard output of `cdx uniq --agg...`", "runtime monitoring: offline oracle over recorded runs", "sampled inputs; every cell judged")
prop("C09", "Join pairs exactly the lines with equal keys and loses none",
     "For every pair of sorted files, the second without repeated keys, and key list (columns of either file, any comparison, possibly reversed), join writes one "
     "output line for every pair of lines with equal keys, in key order, with the columns asked for, and nothing else. Every "
     "unmatched line of either file goes, unchanged and in order, to the output asked for, and nowhere otherwise; headers name the columns.",
     ["inputs", "configurations"], "all pairs of sorted files, key lists and output choices",
     "Which side advances depends on ties, runs of equal keys and end of file on either side, for every comparison; the tests hold a dozen tables.",
     ["src/join.rs", "src/bin/cdx/join_main.rs", "src/comp.rs"], [("merge walk over two readers", "src/join.rs")],
     "standard output and unmatched-line files of `cdx join`",
     "runtime monitoring: offline oracle over recorded joins (pairing and conservation)", "sampled inputs; every output file judged completely")
prop("C10", "Column selections mean exactly the columns they name",
     "For every header and column list (names, numbers, counting from the end, ranges open or closed, globs and other matchers, "
     "negations, renames, in any combination), cut writes exactly the selected columns of every line, in the order asked for, "
     "under the matching names, or refuses a list naming a column that does not exist. Columns missing from a short line are empty.",
     ["inputs", "configurations"], "all headers, column lists and lines",
     "The column language is a small grammar whose combinations are unbounded; the tests try some twenty of them.",
     ["src/column.rs", "src/bin/cdx/cut_main.rs", "src/matcher.rs"], [("parsing and resolving column specifications", "src/column.rs")],
     "standard output of `cdx cut`", "runtime monitoring: offline oracle (independent resolver of column lists) over recorded runs",
     "sampled column lists over generated headers; every cell judged")
prop("C11", "Derived and composite columns hold exactly their definition",
     "For every file, columns built by cut from others (groups joined with their own delimiter, composites of text and columns, "
     "transformed columns: case, trim, space normalisation, UTF-8 variants, chains of these) hold for every line exactly the value defined by "
     "that line's columns, and no other column of the line changes.",
     ["inputs", "configurations"], "all files, composite formats and transform chains",
     "Values depend on every byte of the data (invalid UTF-8, blanks, empty or missing columns) and on the composition of transforms.",
     ["src/trans.rs", "src/column.rs", "src/bin/cdx/cut_main.rs"], [("composite columns", "src/column.rs"), ("transforms", "src/trans.rs")],
     "standard output of `cdx cut`", "runtime monitoring: offline oracle over recorded runs", "sampled data and specifications; every cell judged")
prop("C12", "Paste puts line N of every file side by side",
     "For every set of files, output line N of paste is line N of every file joined by the delimiter. Files of different "
     "length are refused, cut at the shortest or filled to the longest, with the values or the last line asked for. The header "
     "joins all headers, with colliding names refused, renamed or numbered as asked, and an unused rename refused.",
     ["inputs", "configurations"], "all sets of files, end modes, fill values and renames",
     "Misalignment depends on relative lengths, empty files and option combinations; each output line must be right.",
     ["src/bin/cdx/paste_main.rs", "src/column.rs"], [("advancing several readers in step", "src/bin/cdx/paste_main.rs"),
                                                      ("column name collisions", "src/column.rs")],
     "standard output and exit status of `cdx paste`", "runtime monitoring: offline oracle over recorded runs", "sampled files and options; every line judged")
prop("C13", "Cat concatenates every line exactly once under one header",
     "For every list of files, cat writes all their lines in order, exactly once and byte for byte, under one header, padding "
     "missing newlines only as asked, whatever the sizes and however many files are empty. Numbering counts every line written unless skipped, "
     "removal drops exactly the matching lines, and files whose headers differ are refused.",
     ["inputs", "configurations"], "all lists of files, pad modes, numbering and line filters",
     "Block-wise copying, missing newlines, empty files and headers combine in ways a few small examples cannot cover.",
     ["src/bin/cdx/cat_main.rs", "src/util.rs", "src/matcher.rs"], [("block copy and padding", "src/bin/cdx/cat_main.rs"),
                                                                   ("header agreement", "src/util.rs")],
     "standard output and exit status of `cdx cat`", "runtime monitoring: offline oracle over recorded runs", "sampled files, some larger than the copy buffer; output judged byte for byte")
prop("C14", "Cgrep selects exactly the lines its matchers describe",
     "For every file and list of matchers (on a column, the whole line, a quantified group of columns, or comparing columns; exact, prefix, "
     "suffix, infix, glob, regex, length, range, file list, each with case folding, UTF-8, trimming, empty acceptance, negation or combination), "
     "cgrep writes exactly the lines satisfying all (or any) of them, and inverted exactly the others. Reported locations are the lines' own.",
     ["inputs", "configurations"], "all files, matcher lists and locations",
     "Dozens of matcher kinds times modifiers times byte and UTF-8 variants have separate code; the tests touch a few with benign data.",
     ["src/matcher.rs", "src/bin/cdx/cgrep_main.rs", "src/text.rs"], [("matcher registry and implementations", "src/matcher.rs")],
     "standard output of `cdx cgrep`, direct and inverted",
     "runtime monitoring: offline oracle over recorded runs; direct and inverted runs must partition the file", "sampled matchers and lines; every line judged in both runs")
prop("C16", "Sample writes the lines asked for, once each and in order",
     "For every file, sampling by step (by, from, to) or by ranges writes exactly the lines with those numbers, counted per "
     "file from the first data line. Sampling N lines writes min(N, length) lines, at least two, always including the first and last, in "
     "input order, none twice, roughly evenly spaced; the header comes once.",
     ["inputs", "configurations"], "all files, steps, ranges and sample sizes",
     "The reservoir is halved repeatedly as the file grows, so errors appear only at particular lengths and sizes.",
     ["src/sampler.rs", "src/bin/cdx/sample_main.rs", "src/util.rs"], [("collapsing the sample", "src/sampler.rs")],
     "standard output of `cdx sample`", "runtime monitoring: offline oracle over recorded runs", "sampled lengths up to 300 lines and sample sizes up to 100")
prop("C17", "Transpose exchanges rows and columns and loses nothing",
     "For every file, line I of the transposed file holds column I of every line, in line order, preceded by the column's name if the file has a "
     "header. Short lines give empty values, a line limit keeps exactly the first lines, and transposing a rectangular file twice gives it back.",
     ["inputs", "configurations"], "all tables", "Every cell must land in its place for every shape; there is no test of it at all.",
     ["src/transpose.rs", "src/bin/cdx/transpose_main.rs"], [("collecting and writing lines", "src/transpose.rs")],
     "standard output of `cdx transpose`", "runtime monitoring: offline oracle and round-trip monitor over recorded runs", "sampled tables")
prop("C18", "Counts are exact, per file, per column and in total",
     "For every list of files, wc reports for each non-empty file (or each column over all files) the exact number of lines, bytes, "
     "characters and words, or the aggregate asked for, of that file alone. Totals are the sums over all of them, and the header "
     "and name column appear as asked and match the rows.",
     ["inputs", "configurations"], "all lists of files, counters and layout options",
     "Counters carry state from file to file and from column to column; one test counts five lines.",
     ["src/bin/cdx/wc_main.rs", "src/agg.rs"], [("per-file reset and totals", "src/bin/cdx/wc_main.rs"), ("counters", "src/agg.rs")],
     "standard output of `cdx wc`", "runtime monitoring: offline oracle over recorded runs", "sampled files and options; every cell judged")
prop("C19", "Binary search finds exactly the lines a full scan would",
     "For every file sorted by the keys and every pattern, binsearch writes exactly the lines whose keys equal the pattern, all of "
     "them and in order, or none, with exactly the context lines asked for around the match or the place where it would be, for every key "
     "list, file size, line length and missing final newline, and it always terminates.",
     ["inputs", "configurations"], "all sorted files, key lists, patterns and contexts",
     "Bisection over bytes with lines of any length fails only at particular offsets; the order of probes depends on every line length.",
     ["src/binsearch.rs", "src/bin/cdx/binsearch_main.rs", "src/comp.rs"], [("bisection over line starts", "src/binsearch.rs")],
     "standard output of `cdx binsearch`", "runtime monitoring: differential oracle (linear scan) over recorded runs", "sampled sorted files of 0-100 lines; complete output judged")
prop("C20", "Arithmetic expressions have the value ordinary arithmetic gives them",
     "Every valid expression (numbers, constants, columns by name, number or range, + - * / % ^ !, comparisons, parentheses and the functions) has the value "
     "given by the usual precedence and IEEE arithmetic, for calc and for the columns, filters, sort keys and aggregates made "
     "from expressions alike. Invalid expressions are refused with a message and never crash.",
     ["inputs", "configurations"], "all expressions and column values",
     "Precedence, signs and constant folding interact; only a few expressions are tested, and most operators and functions in no test at all.",
     ["src/expr.rs", "src/tok2.rs", "src/shunting_yard.rs", "src/bin/cdx/calc_main.rs"],
     [("tokenizing and precedence", "src/shunting_yard.rs"), ("folding and evaluation", "src/expr.rs")],
     "values written by `cdx calc` and `cdx cut -e`, lines kept or ordered by expressions",
     "runtime monitoring: differential oracle (independent evaluator) over recorded runs",
     "sampled expressions up to depth 3; bit-exact except transcendental functions (1e-9)")
prop("C21", "Numbers are read exactly and written so that they read back the same",
     "Every decimal number in a column (any length, sign, exponent, optional size suffix) is read as the nearest double; sums, "
     "keys and expressions see that value and nothing else. Every number written in the default format reads back as the same "
     "double, and in a fixed format is the value correctly rounded to the digits asked for. Counts are exact integers.",
     ["inputs", "configurations"], "all number texts, doubles, suffixes and number formats",
     "Rounding errors appear only for particular digit strings, exponents and boundaries between formats.",
     ["src/num.rs", "src/util.rs", "src/expr.rs"], [("parsing of numbers and suffixes", "src/util.rs"), ("number formats", "src/num.rs")],
     "values written by `cdx cut -e`, `cdx calc` and aggregates for texts given in columns",
     "runtime monitoring: differential oracle (exact decimal arithmetic) over recorded runs", "sampled texts and doubles; compared bit for bit or digit for digit")
prop("C22", "The header comes first, once, fits every line, and never affects the data",
     "For every tool, options and files, the output has a header exactly when the input has, first and only once, naming as many columns as every "
     "line has; the data lines are the same as for the same files without headers (columns given by number), and files with "
     "contradicting headers are refused rather than mixed.",
     ["inputs", "configurations"], "all tools, options and files, with and without headers",
     "Every tool decides separately when to write the header and whether the first line is data, for every number of files, empty files included.",
     ["src/util.rs", "src/text.rs", "src/sort.rs", "src/column.rs"], [("header detection and agreement", "src/util.rs")],
     "standard output of 11 tools on paired inputs", "runtime monitoring: differential (metamorphic) monitor over recorded runs",
     "18 tool modes times sampled options and files; whole outputs compared")
prop("C23", "Results do not depend on how the input is stored or delivered",
     "For every tool, options and input, the output is the same whether the input is a file, standard input, inline text, or gzip data (one or many "
     "members, any level), with or without a final newline, and however the operating system splits its reads and writes into pieces.",
     ["inputs", "configurations", "schedules"], "all inputs, storage forms, and splits of reads and writes",
     "Short reads and writes happen only with pipes and networks; tests read small files in one piece.",
     ["src/util.rs", "src/text.rs", "src/bin/cdx/cat_main.rs", "src/sort.rs"], [("opening and recognizing inputs", "src/util.rs")],
     "outputs of 15 tools on paired deliveries, with a shim splitting the system calls",
     "runtime monitoring: differential monitor under injected short reads and writes", "sampled inputs and splits, from single bytes up; whole outputs compared")
prop("C24", "Failed reads and writes are reported, never passed off as success",
     "Whenever a read or a write fails (out of space, I/O error, missing file, directory, truncated or damaged gzip data, spill file), at whatever byte, the tool "
     "ends with a message and a non-zero status, and what it wrote is the beginning of the right output. Only a reader closing the pipe ends it quietly.",
     ["inputs", "fault_sequences"], "all tools, inputs, and points of failure",
     "Buffered output fails at the very end, where the error is easily lost; no test injects a failure.",
     ["src/util.rs", "src/sort.rs", "src/join.rs", "src/bin/cdx/main.rs"], [("flushing and error propagation", "src/bin/cdx/main.rs"),
                                                                            ("opening files", "src/util.rs")],
     "exit status, messages and partial output under injected faults, and what the shim records as injected",
     "runtime monitoring: fault injection at system calls with an exit-status and prefix monitor",
     "one fault per run at a sampled byte; every run judged, only injected faults count")
prop("C25", "Text formats are read and written as specified",
     "For every delimiter, quoting mode and header mode, columns are those the format describes: delimiters inside quotes or after a backslash belong to the value, "
     "values written in a format read back the same (plain replaces what it cannot hold), lines copied keep their own "
     "text, and no result depends on which delimiter is used.",
     ["inputs", "configurations"], "all byte strings as values, delimiters, quoting and header modes, and tools",
     "Escaping must hold for every byte in every position; a handful of quoted values are tested.",
     ["src/util.rs", "src/column.rs", "src/join.rs", "src/sort.rs", "src/binsearch.rs"], [("splitting and escaping", "src/util.rs")],
     "standard output of `cdx cut` converting between formats, and of all tools under exchanged delimiters",
     "runtime monitoring: independent codec as oracle, and differential monitor over exchanged delimiters", "sampled tables and 18 delimiters; every value compared")
prop("C27", "verify accepts exactly the files that satisfy every stated condition",
     "cdx verify exits 0 with no message exactly when every file's lines all have the right number of columns, satisfy every pattern, are in order (or strictly in order) under the given keys when asked, and "
     "first and last lines satisfy their one- or two-sided ranges; otherwise it exits 1, "
     "naming the failing lines by number in order, up to the report limit. A violation on any line counts, including the last.",
     ["inputs", "configurations"], "all files, patterns, keys, ranges and report limits",
     "A verifier must be right on every line of every file, including the first and last; two tests exist.",
     ["src/bin/cdx/verify_main.rs", "src/util.rs", "src/comp.rs", "src/matcher.rs"], [("conditions per line", "src/bin/cdx/verify_main.rs"), ("ranges", "src/util.rs")],
     "exit status and messages of `cdx verify`",
     "runtime monitoring: every run judged by an independent evaluator of all conditions on all lines", "sampled files and conditions; complete verdict per run")
prop("C28", "tabs shows the start of every file, aligned, within the screen",
     "For files of any width and any number of files, cdx tabs never fails: it shows the first lines of each file in order, columns aligned by display width, "
     "cells whole when they fit and otherwise cut at character boundaries with the widest columns cut first, no line wider than the screen, the screen's lines shared between the files.",
     ["inputs", "configurations"], "all files, numbers of files and screen sizes",
     "No test covers tabs at all; screen sizes and widths cannot be sampled by hand.",
     ["src/tabs.rs", "src/bin/cdx/tabs_main.rs"], [("fitting columns", "src/tabs.rs")],
     "standard output of `cdx tabs` under an interposed window-size ioctl",
     "runtime monitoring: full output compared with a layout model while the window size is injected by interposition", "sampled files and screens 0x0 to 60x250")
prop("C29", "filegen writes the requested lines and columns",
     "cdx filegen writes exactly the requested number of lines, each with exactly the requested columns: grid, count, null and expression cells equal their formula, decimal cells have the requested digits and sign "
     "and spread over their whole range, normal cells follow the requested mean and deviation; malformed or out-of-range specifications are refused with a message.",
     ["inputs", "configurations"], "all column specifications, line counts and random draws",
     "Random output cannot be compared with a fixed expectation; one test covers the default.",
     ["src/textgen.rs", "src/bin/cdx/filegen_main.rs"], [("generators", "src/textgen.rs")],
     "standard output of `cdx filegen`",
     "runtime monitoring: formula oracle for deterministic cells, format and statistical monitors for random ones", "sampled specifications; statistics only for 200 or more draws")
prop("C30", "tooltest passes exactly the tests whose command did what they say",
     "cdx tooltest passes a test exactly when the command's exit status, standard output, standard error and output files are as the test file says (byte for byte, or by its matcher), and no other file was left behind; a command that "
     "cannot run, dies of a signal, or a malformed test file fails the test; no test influences the verdict on another, and totals, exit status and named tests agree.",
     ["inputs", "histories"], "all test files and sequences of tests",
     "The repository's own tests rely on tooltest, so its false passes are invisible to them.",
     ["src/tooltest.rs", "src/bin/cdx/tooltest_main.rs"], [("comparing results", "src/tooltest.rs")],
     "report, messages and exit status of `cdx tooltest` running scripts of known behaviour",
     "runtime monitoring: scripted commands with known behaviour and planted discrepancies, verdicts compared", "sampled sequences of up to 4 tests with 22 kinds of discrepancy")
prop("C26", "No command line and no input makes any tool crash or hang",
     "Whatever UTF-8 arguments any tool is given, and whatever bytes its files hold, the run ends by itself, without exhausting memory unless it was asked for that much output, "
     "with status 0, 1 or 2, never by a panic or a signal; when it refuses, it says why on standard error.",
     ["inputs", "configurations"], "all argument vectors and file contents, for every tool",
     "Every parser of every small language must survive every string; tests only give valid ones and a few errors.",
     ["src/bin/cdx/main.rs", "src/util.rs", "src/column.rs", "src/comp.rs", "src/matcher.rs", "src/agg.rs", "src/trans.rs", "src/num.rs", "src/sampler.rs", "src/binsearch.rs"],
     [("option parsing", "src/bin/cdx/args.rs"), ("specification parsing", "src/util.rs")],
     "exit status, signals, CPU time and standard error of every tool",
     "runtime monitoring: crash, hang and silence monitors over mutated command lines and files", "sampled mutations of valid command lines; debug build, so overflow is seen too")
prop("C31", "No run makes an invalid memory access",
     "No tool, on any command line and input, reads or writes memory outside a live object: mapped files, reused line buffers, spilled sort buffers and raw pointers included.",
     ["inputs", "configurations"], "all command lines, files, and buffer layouts",
     "An out-of-bounds read mostly returns plausible bytes, and no test can see it.",
     ["src/sort.rs", "src/binsearch.rs", "src/util.rs", "src/text.rs", "src/column.rs"], [("sort item pointers", "src/sort.rs"), ("mapped files", "src/binsearch.rs")],
     "AddressSanitizer reports, signals and panics of an instrumented build of cdx",
     "sanitizer: AddressSanitizer build of the whole program under the workloads of the other checks", "sampled workloads; every memory access of each run is checked by the sanitizer")
prop("C32", "Runs change nothing but the named outputs, and repeat exactly",
     "No tool changes, truncates or removes an input file or any other file than the outputs named on its command line; no temporary file is left when a run ends, "
     "successfully or not; and the same command line on the same files gives the same output, messages and status each time, except where randomness is asked for.",
     ["inputs", "configurations", "histories"], "all tools, command lines and files, successful and failing runs",
     "Tests compare standard output only; files left behind and run-to-run differences are invisible to them.",
     ["src/util.rs", "src/sort.rs", "src/join.rs"], [("temporary files", "src/sort.rs"), ("output files", "src/util.rs")],
     "snapshots of the working and temporary directories around each run, and paired runs",
     "runtime monitoring: file-system snapshots and paired-run comparison", "sampled command lines, well-formed and damaged; every run snapshotted")
prop("C33", "Header policies accept, drop and refuse exactly what they say",
     "For every sequence of input files, a header checker in mode match accepts files whose header (or lack of one) equals the first file's and refuses the others, require also insists on "
     "a header, none refuses every header, strip drops them all, trust accepts anything and drops every header after the first, and ignore treats headers as data; exactly the first accepted header is to be written, "
     "data lines always are, and a malformed header is refused.",
     ["inputs", "histories", "configurations"], "all sequences of first lines and all policies",
     "A policy is about sequences of files; only the default policy is used by the command line, and tests show it two files.",
     ["src/util.rs"], [("HeaderChecker::check and check_file", "src/util.rs")],
     "answers of the library's HeaderChecker, through a harness linked with the library",
     "runtime monitoring: the real checker is shown sequences of files and every answer is compared with the definition of its policy", "sampled sequences of up to 5 files; every answer judged")
prop("C34", "A Reader shows every line once, with its columns, place and predecessors",
     "For every file, text format and look-back, a Reader delivers each record exactly once and in order, with its decoded columns, its original bytes, its line number and byte offset, and the requested number of previous "
     "lines (empty before the first), after the header's column names, or c1, c2 and so on without header; a Reader opened on another file shows nothing of the file before.",
     ["inputs", "histories", "configurations"], "all files, formats, look-backs and sequences of files",
     "The look-back ring, decoding in place and reopening only go wrong for particular sequences of lines, which tests do not follow line by line.",
     ["src/util.rs"], [("Reader, TextLine, TextFileMode::split", "src/util.rs")],
     "every accessor of the library's Reader on every line, through a harness linked with the library",
     "runtime monitoring: a trace of everything the real Reader shows, compared with an independent model", "sampled files and formats; every line of each trace compared")
prop("C35", "An option means the same in every spelling and place",
     "For every tool and every command line, writing the same options differently gives the same status and output: short or long names, the value attached, after = or as the next word, flags bundled or apart, "
     "files before, between or after the options or behind --, names of modes in any case, standard input named - or implied. Only the order of the options among themselves and of the files among themselves counts.",
     ["configurations", "programs", "inputs"], "all tools, command lines and inputs",
     "Options are collected by one generic parser and then handed out by position to each tool, so what goes wrong depends on the combination of options and their places; a test fixes one spelling.",
     ["src/bin/cdx/args.rs"], [("ArgSpec, parse, ArgValue", "src/bin/cdx/args.rs"), ("the tools' main functions", "src/bin/cdx")],
     "pairs of complete runs of any tool with the same files",
     "runtime monitoring: differential observation of complete runs of the real tool on equivalent command lines", "sampled command lines, three to six rewritings combined per case")
prop("C36", "A specification that means nothing is refused",
     "For every tool and every otherwise working command line, a value that means nothing - a name that is not a column of the file, column 0, an unknown method, modifier, aggregator, transform or mode, a malformed "
     "number, range, pattern or expression, missing or surplus parts - makes the command fail with a message and without having written a data line, wherever the option stands among the others.",
     ["configurations", "inputs"], "all tools, command lines and inputs",
     "The refusals are spread over a few hundred places, most of them one dropped error away from silently computing something else; tests exercise the accepted specifications.",
     ["src/column.rs", "src/comp.rs", "src/matcher.rs", "src/agg.rs"], [("ColumnSet::range, NamedCol", "src/column.rs"), ("CompMaker", "src/comp.rs"), ("MatchMaker", "src/matcher.rs"), ("AggMaker", "src/agg.rs")],
     "the status, messages and output of complete runs of any tool",
     "runtime monitoring: exit status, message and output of the real tool on command lines with one meaningless value, beside the run without it", "sampled command lines; every kind of nonsense in the templates")
prop("C37", "Text functions mean the same for strings and bytes, and what they say",
     "For every text, the library's Text functions give the answers their definitions give: glob matching, case-insensitive equality and order (agreeing with the lower-cased texts), upper and lower case, trimming, "
     "first and last parts of a path, and reading of unsigned, signed and floating numbers with size suffixes: value, what remains, refusal of anything more than a number, and the junk value where asked for. "
     "For ASCII text, bytes and strings give the same answers.",
     ["inputs"], "all texts, UTF-8 or not",
     "The same dozen functions exist twice, for bytes and for characters, and every tool reads its options and data through them; tests cover a few ASCII words each.",
     ["src/text.rs", "src/num.rs"], [("Text for str, Text for [u8]", "src/text.rs"), ("suffix_valf, suffix_valu, Junk", "src/num.rs")],
     "every function of the trait on both kinds of text, through a harness linked with the library",
     "runtime monitoring: the answers of the real functions on generated texts, each compared with an independent definition", "sampled texts; every answer compared")
prop("C38", "Column sets select the same columns however they are asked",
     "For every set of column names, every specification of columns to include and to leave out, and every line, the library's column sets resolve to the columns specified, in order and with their new names, "
     "by every route (lookup, lookup_cols, ranges, lookup1), again after the names change, and every way of selecting or writing gives exactly those columns of the line: a missing column is refused, empty, or the "
     "value given for it, as that function says, and never a crash; nothing is selected before a lookup. Values scoped to columns belong to exactly the columns named, the last one given winning, all others having "
     "the default, as text and as numbers.",
     ["inputs", "histories"], "all names, specifications, lines and sequences of lookups",
     "Every tool reaches its columns through these functions, and lines shorter than the header are ordinary; the documentation's examples cover one well-formed header.",
     ["src/column.rs"], [("ColumnSet, OutCol, get_col", "src/column.rs"), ("ScopedValue, ScopedValues", "src/column.rs")],
     "every public function of the column set, before a lookup, after it and after another, through a harness linked with the library",
     "runtime monitoring: the answers of the real functions on generated specifications and lines, each compared with an independent resolver", "sampled inputs; every answer compared")
prop("C39", "A matcher gives the same right answer by every route",
     "For every matcher, with any modifiers and pattern, and every value, the library's answer is the one the matcher's definition gives, whichever way it is asked: as a string or as bytes (for text where these are "
     "the same thing), leniently or strictly about text that is not UTF-8, verbosely or not, made from one specification or from two parts, or as a copy. Lists of value matchers and of line matchers combine the answers "
     "with AND or OR as asked, after any number of lookups; a verbose call answers as the plain one does, and writes an explanation exactly when the match fails. A quantifier never settles early on an answer that later values would change.",
     ["inputs", "histories"], "all matchers, values, lines, lookups and counts",
     "cgrep, verify, uniq, cat, tooltest and the column selections each reach matchers by a different one of these calls; the tests use one call per matcher and a value or two.",
     ["src/matcher.rs"], [("Matcher, MatchMaker", "src/matcher.rs"), ("MatcherList, LineMatcherList", "src/matcher.rs"), ("Determiner, Thresh", "src/matcher.rs")],
     "every public call on matchers, lists of matchers and quantifiers, with what is written to stderr, through a harness linked with the library",
     "runtime monitoring: the answers of the real calls on generated matchers, values and lines, each compared with an independent evaluator, and the quantifiers' early answers with their final ones for all counts up to a bound", "sampled inputs; every answer compared")
