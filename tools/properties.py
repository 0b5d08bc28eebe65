#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table. Run in /verif after changing it."""
import json, os, subprocess, sys

F = "flatjsonl/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, level="exploration", technique="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state or [],
                  observe=observe or [], level=level, technique=technique, note=note, na=na))


SCHED = ("stateless model checking of the real program: dynamic partial-order reduction / preemption and delay bounding under a "
         "controlled scheduler, every execution compared with a reference model")
ENUM = "bounded exhaustive enumeration of inputs and configurations run through the real program, every execution compared with a reference model"
FAULT = "exhaustive enumeration of fault points (every operation of a run fails once) on the real program, outcome compared with the fault-free run"

TRUST = ("Assumes the instrumented build (sync, atomics, maps, os, time, runtime memory readings rewritten to shims by a source rewriter) behaves like the "
         "plain one between scheduling points, and trusts the reference model in mc/ref.go. ")

prop("C01", "Every complete line becomes exactly one row, in input order, for any schedule",
     "For every interleaving of the reading and converting workers, at any concurrency and memory limit, the output contains exactly one row per "
     "accepted input line, in the order of the lines, with that line's own values. No row is lost, duplicated, mixed with another row or moved.",
     ["schedules", "inputs"], "all interleavings of small inputs (2-4 lines, 2-3 workers) at synchronisation granularity, deviation-bounded for larger ones",
     "Tests run each input once under whatever schedule the Go runtime picks; a reordering window of a few instructions is practically never hit.",
     [F + "reader.go", F + "writer.go", F + "processor.go"],
     [("worker pool with one scanner goroutine", F + "reader.go Reader.Read"), ("reordering buffer keyed by sequence number", F + "processor.go writeIterator")],
     [("pending rows", "rows finished out of order wait until their predecessors are complete", F + "processor.go writeIterator")],
     ["csv/raw/sqlite/pg outputs"], "model_checking", SCHED,
     TRUST + "Exhaustive for the small scenarios (DPOR), preemption/delay bounded beyond; memory model is sequentially consistent, weak-memory effects are left to C03.")

prop("C02", "Discovered keys, column order and types do not depend on the schedule",
     "For every interleaving of the workers, scanning the same input yields the same set of columns and the same declared column types, and with a single worker also the "
     "same column order: that of first appearance in the input. Rows always carry each value under its own column.",
     ["schedules", "inputs"], "all interleavings of the key scan of small inputs with 1-3 workers, including keys that meet in one column",
     "Concurrent discovery of the same key by two workers has to be scheduled at the right instruction; tests do not control it.",
     [F + "keys.go", F + "processor.go"],
     [("concurrent key registry", F + "keys.go scanKey"), ("ordering of keys after the scan", F + "keys.go iterateIncludeKeys")],
     [("flKeysMap / flKeysList", "keys seen so far with types and order", F + "processor.go")], ["header and CREATE TABLE of the outputs"], "model_checking", SCHED,
     TRUST + "Order of columns between workers is compared as a set when more than one worker scans, because discovery order is a documented function of the schedule.")

prop("C03", "Workers never access shared data without synchronisation",
     "No pair of concurrently running workers accesses the same memory without synchronisation while at least one of them writes, whatever the schedule. "
     "Reading, key discovery, conversion, memory throttling and writing are all free of data races.",
     ["schedules", "configurations"], "deviation-bounded schedules of every feature that adds shared state, each execution watched by the race detector with only the program's own happens-before edges",
     "The tests are not run with a race detector under controlled schedules, and most of them use one line per worker.",
     [F + "reader.go", F + "processor.go", F + "keys.go", F + "writer.go", F + "flattener.go"],
     [("per-worker walkers, parsers and buffers", F + "reader.go doLine"), ("mutexes and atomics around the shared registries", F + "keys.go, processor.go")],
     None, ["race reports"], "model_checking", "stateless exploration of schedules under a controlled scheduler with the Go race detector (happens-before) as monitor on every execution",
     TRUST + "The scheduler hands over without creating happens-before edges, so that only the program's own synchronisation counts.")

prop("C04", "Every run terminates: no schedule or memory limit makes it hang",
     "Whatever the interleaving, the concurrency, the memory limit and the moment at which a worker meets a bad line or a write fails, a run on a finite input ends: it either completes "
     "all outputs or reports an error. There is no deadlock and no endless wait.",
     ["schedules", "configurations", "fault_sequences"], "all interleavings of small inputs with every answer of the memory readings, with bad lines and failing outputs",
     "A lost wake-up or a limiter that is never refilled needs a particular order of completion; tests see one order and no memory pressure.",
     [F + "reader.go", F + "processor.go"],
     [("semaphore of workers", F + "reader.go Reader.Read"), ("back-pressure on pending rows and memory", F + "processor.go, reader.go")],
     None, ["process termination"], "model_checking", SCHED,
     TRUST + "Termination is decided as absence of deadlock and of livelock within a step horizon (200,000 scheduling points for inputs of a few lines); time is virtual.")

prop("C05", "The CSV table is a faithful flattening of the input",
     "For every input, the CSV output has one column per distinct path of a scalar, in order of first appearance, and one row per line in which every cell holds exactly the value found "
     "at that path, unchanged by quoting, escapes, size or white space; cells of absent or null values are empty. Parsing the CSV gives back these strings.",
     ["inputs"], "all JSON lines over small alphabets of keys, scalars and shapes up to depth and length bounds, boundary sizes included",
     "Tests compare a handful of files; quoting, buffer reuse and nesting bugs depend on the exact input.",
     [F + "flattener.go", F + "csv_writer.go", F + "writer.go", F + "keys.go"],
     [("recursive walk of the parsed value", F + "flattener.go WalkFastJSON"), ("formatting of values and CSV quoting", F + "writer.go Value.Format, csv_writer.go")],
     None, ["csv output"], "exploration", ENUM, TRUST)

prop("C06", "Declared SQL column types admit every value of the column",
     "For every input, the type declared for a column in the PostgreSQL dump or SQLite table is one that every value written to that column satisfies, and it is the most specific of boolean, "
     "integer, float and text that does so; columns that mix kinds or hold JSON are text. This holds as well for columns fed by several keys, constants or transposed elements.",
     ["inputs", "configurations"], "all sequences of up to 3-4 values over 16 literal kinds under one key, and of up to 3 over 9 kinds under merged, kept, transposed and coalesced keys",
     "The type of a column depends on the whole sequence of values; tests use a few files with fixed kinds.",
     [F + "type.go", F + "keys.go", F + "pg_dump_writer.go", F + "sqlite_writer.go"],
     [("type lattice", F + "type.go Type.Update"), ("merging of types of keys with one target", F + "keys.go prepareKeys, writer.go")],
     None, ["CREATE TABLE statements"], "exploration", ENUM, TRUST)

prop("C07", "The PostgreSQL dump loads into exactly the table of the input",
     "For every input, loading the dump creates tables whose columns and rows are exactly those of the flattened input, with each value equal, absent values NULL, identifiers quoted, and every "
     "row addressed by its sequence number. When the column limit splits a table into parts, the parts joined on the sequence number give the whole table, for any width, limit and number of rows.",
     ["inputs", "configurations"], "strings and identifiers over special characters, table widths 1-13 x column limits 2-14 with and without transposed tables, row counts around the flush size",
     "Tests check one dump text; splitting and quoting errors occur at particular widths, limits and characters.",
     [F + "pg_dump_writer.go", F + "writer.go"], [("CREATE TABLE / COPY generation and splitting", F + "pg_dump_writer.go")], None, ["pg dump"], "exploration", ENUM,
     TRUST + "COPY data is read with the rules of COPY WITH (FORMAT csv), no PostgreSQL server is involved.")

prop("C08", "The SQLite database holds exactly the table of the input",
     "For every input, the SQLite output contains tables whose columns and rows are exactly those of the flattened input, with equal values, NULL for absent ones and rows addressed by their sequence number. "
     "Splitting wide tables into parts and committing in batches lose, duplicate or move nothing.",
     ["inputs", "configurations"], "strings and identifiers over special characters, table widths 1-9 x column limits 2-10, row counts around the transaction size",
     "Tests read back one small database.", [F + "sqlite_writer.go"], [("INSERT generation, transactions, splitting", F + "sqlite_writer.go")], None, ["sqlite file"],
     "exploration", ENUM, TRUST + "The database is read back with the same SQLite library the program links.")

prop("C09", "Getting a single key equals the corresponding column of a full run",
     "For every input and key, extracting a single key yields row by row exactly the value that the column of that key has in a full conversion, and an empty one when the line has no such value. "
     "It holds for every nesting, key spelling and concurrency.",
     ["inputs", "configurations"], "all documents over small alphabets of keys and shapes, with every key that occurs in them and near misses",
     "The single-key mode has its own fast path; tests try two keys.", [F + "processor.go", F + "flattener.go"],
     [("single-key fast path", F + "processor.go / flattener.go")], None, ["csv/raw output with -get-key"], "exploration",
     ENUM + " (differential against the full conversion as well)", TRUST)

prop("C10", "Outputs written together equal outputs written alone",
     "Any set of outputs requested in one run, by dedicated flags or by file extension, plain or compressed, describes the same table, and each is identical to what a run requesting only that output writes. "
     "No output influences another.",
     ["configurations", "inputs"], "all subsets of csv, raw, sqlite and pg outputs x compression x lists by extension, over inputs and mapping options",
     "Tests request one or two outputs at a time.", [F + "processor.go", F + "writer.go"], [("writers fed from one row", F + "writer.go ReceiveRow")], None, ["all outputs"],
     "exploration", ENUM, TRUST)

prop("C11", "Transposing moves each element to one row of the transposed table",
     "For every input, each direct child of a transposed array or object becomes exactly one row of the destination table, carrying the sequence number of its line, its index or name, and its own values in the right columns. "
     "Several prefixes may be nested (the longest one applies to a key) or share a table (elements of different keys stay apart). Keys outside the transposed prefixes stay in the main table, and nothing is lost, duplicated or attributed to another element or line.",
     ["inputs", "configurations"], "all arrays and objects up to length 3 over scalar, object and nested elements under the transposed key, several lines, several, nested and shared prefixes, all table outputs",
     "Tests transpose a few fixed documents.", [F + "writer.go", F + "keys.go"], [("splitting of rows by transposed prefix", F + "writer.go, keys.go")], None,
     ["transposed tables of all outputs"], "exploration", ENUM, TRUST)

prop("C12", "Parents with too many children are kept as JSON, completely",
     "When a key has more distinct children than the children limit, it becomes one column that holds its JSON unchanged in every row, and no column for its children exists; otherwise every child has its own column. "
     "Allowed keys are always expanded, the root always is, and no value is lost in either case.",
     ["inputs", "configurations"], "all small documents x limits 0-3 x allow lists, children arriving on one line or spread over lines",
     "Tests use one file that crosses the limit.", [F + "keys.go", F + "processor.go"], [("counting of distinct children per parent", F + "keys.go")], None, ["csv output"],
     "exploration", ENUM, TRUST)

prop("C13", "Keys kept as JSON hold their exact value and are not flattened",
     "A key listed to be kept as JSON becomes one column whose cell is a JSON text equal to the value in that line, whatever its kind, and none of its descendants becomes a column. Other keys are unaffected.",
     ["inputs", "configurations"], "all values up to depth 2 under a kept key, kept keys at several depths, with other mapping options",
     "Tests keep one object.", [F + "keys.go", F + "flattener.go"], [("kept prefixes stop the walk", F + "flattener.go, keys.go")], None, ["csv output"], "exploration", ENUM, TRUST)

prop("C14", "Include and exclude rules select exactly the matching columns",
     "The columns of the output are exactly the discovered keys selected by the include lists, in the listed order first, minus those matched by the exclude rules; with no include rule all keys are selected. "
     "Selecting columns never changes values or the number and order of rows.",
     ["configurations", "inputs"], "all combinations of include/exclude lists and expressions over small key sets, with and without a key scan and case sensitivity",
     "Tests cover single lists on fixed files.", [F + "keys.go", F + "processor.go"], [("include/exclude evaluation", F + "keys.go")], None, ["header and rows"], "exploration", ENUM, TRUST)

prop("C15", "Renaming keys never merges or loses columns by accident",
     "Replacing keys, by configuration, expressions or automatic shortening, gives every column the configured or the shortest unambiguous name; two different columns get the same name only if configured so. "
     "Values stay under their own column, and limiting the length of names keeps them unique.",
     ["configurations", "inputs"], "all key sets over a small alphabet of segments x replacement options, and key length limits",
     "Name collisions depend on the set of keys; tests use one set.", [F + "keys.go"], [("replacement and shortening", F + "keys.go prepareKey")], None, ["header and rows"], "exploration", ENUM, TRUST)

prop("C16", "Keys sharing a column are coalesced or concatenated per row",
     "When several keys are mapped to one column, every row holds there the first value of that line that is not null, or with a delimiter all values of the line (a null as NULL) joined in their order of appearance; constants fill the column they are mapped to. "
     "A value of one row never shows up in another row.",
     ["inputs", "configurations"], "all small documents with 2-4 keys mapped to 1-2 columns, every order, with and without delimiter, constants, transposition and all outputs",
     "Tests coalesce one pair.", [F + "writer.go", F + "keys.go"], [("column index shared by several keys", F + "keys.go prepareKeys"), ("row assembly", F + "writer.go")], None, ["rows"], "exploration", ENUM, TRUST)

prop("C17", "Line limits and offsets select exactly the stated lines of each input",
     "With an offset and a maximum, exactly the lines offset+1 to offset+maximum of each input are converted, whatever the line lengths, blank lines, line ends and buffer size; a limit on scanned lines only limits the discovery of keys. "
     "Neither depends on concurrency.",
     ["inputs", "configurations"], "all line counts 0-6 x offsets 0-7 x maxima 0-7 x scan limits, one and several inputs, blank and malformed lines, with and without a key scan",
     "Tests check two combinations.", [F + "reader.go", F + "processor.go"], [("line counting in the scanner", F + "reader.go Reader.Read")], None, ["rows"], "exploration", ENUM, TRUST)

prop("C18", "Sequence numbers are unique and identify the line",
     "Every row carries a sequence number that is unique, grows with the position of its line and is the same in all tables and outputs of a run, including transposed tables and split parts. "
     "It is written exactly however large it is, and adding it changes no other column.",
     ["inputs", "configurations"], "inputs of 1-5 lines in 1-3 files with blank, malformed and filtered lines; numbers around powers of ten up to 10^6 and beyond",
     "Tests have few lines, so large numbers and multi-file numbering are not reached.", [F + "reader.go", F + "writer.go"], [("sequence assignment", F + "reader.go")], None,
     ["_sequence / _seq_id"], "exploration", ENUM, TRUST)

prop("C19", "Lines that are not JSON objects affect nothing but themselves",
     "A line that is not a valid JSON object does not change the rows, columns or types that come from other lines, does not end the run, and contributes no invented values. "
     "This holds for any kind of damage and any position, also between lines processed by the same worker.",
     ["inputs"], "all placements of about 40 kinds of damaged lines among good ones (truncations of a document at every byte included), every character of three documents lost, doubled, replaced or inserted",
     "Tests have one malformed line.", [F + "reader.go", F + "processor.go"], [("error path of doLine", F + "reader.go")], None, ["rows and header"], "exploration", ENUM, TRUST)

prop("C20", "Captures from the text before the JSON become columns of that line",
     "With an expression for the text that precedes the JSON of a line, every capture of a matching line is a value of that line's row and of no other; lines whose prefix does not match keep their JSON values. "
     "Prefixes never disturb the flattening of the JSON.",
     ["inputs", "configurations"], "all sequences of lines over prefixes that match, partly match and do not match x JSON bodies x expressions with 0-3 groups",
     "Tests use one prefix on regular lines.", [F + "reader.go", F + "processor.go"], [("prefix matching", F + "reader.go doLine")], None, ["rows"], "exploration", ENUM, TRUST)

prop("C21", "JSON and URLs inside strings are expanded without losing the text",
     "When extraction is enabled, a string that holds a JSON object or array, or a URL for keys configured so, additionally yields the columns of its content for exactly those rows, to any depth, while the column of the string itself is kept where it is a plain string. "
     "Strings that only look like JSON or a URL are left alone.",
     ["inputs", "configurations"], "strings holding all small JSON texts, escaped once and twice, damaged ones, and URLs over present/absent components",
     "Tests expand one document.", [F + "flattener.go", F + "extract.go", F + "keys.go"], [("extractors", F + "extract.go")], None, ["rows and header"], "exploration", ENUM, TRUST)

prop("C22", "A run that could not write an output completely reports failure",
     "If creating, writing, compressing or closing any output file or database fails at any point, the run ends with an error and a nonzero status: it never claims success with a missing, truncated or incomplete output. "
     "A run that succeeds has written every output completely.",
     ["fault_sequences", "configurations"], "every single write, create, close and SQL operation of a run fails once (all of them up to a bound), short writes included, for every output and compression",
     "Tests never make an output fail.", [F + "processor.go", F + "csv_writer.go", F + "sqlite_writer.go", F + "pg_dump_writer.go", F + "raw_writer.go"],
     [("error propagation from writers", F + "processor.go"), ("closing of writers", F + "writer.go Close")], None, ["exit status, output files"], "fault_enumeration", FAULT, TRUST)

prop("C23", "Unreadable inputs are reported and never silently truncate the output",
     "If an input cannot be opened, read to its end or decompressed at any point, or a line exceeds the buffer, the run ends with an error instead of presenting the part read so far as the whole. "
     "Configuration that cannot be decoded, or that holds an expression that cannot be compiled, is refused before anything is written.",
     ["fault_sequences", "inputs"], "every open and read operation of a run fails once; compressed inputs truncated and corrupted at every byte; lines around the buffer limit; malformed configurations",
     "Tests read intact files.", [F + "reader.go", F + "processor.go", F + "app.go"], [("error propagation from readers", F + "reader.go")], None, ["exit status"], "fault_enumeration", FAULT, TRUST)

prop("C24", "Compression and read sizes are transparent",
     "The output is the same whether the input is plain, gzip or zstd compressed, in one or several members or frames, and however the operating system splits reads; and decompressing a compressed output gives exactly the plain output. "
     "The buffer size only limits the longest line.",
     ["inputs", "configurations", "fault_sequences"], "all input and output encodings x contents x every read size 1-8 and patterns of short reads",
     "Tests read whole files of one encoding.", [F + "reader.go", F + "csv_writer.go", F + "pg_dump_writer.go", F + "raw_writer.go"], [("decoder selection", F + "reader.go"), ("encoder layering", F + "file writers")],
     None, ["outputs"], "exploration", ENUM, TRUST)

prop("C25", "Key reports list exactly the keys of the input",
     "The flat list, the hierarchy and the JSON schema printed on request name exactly the keys that hold values in the scanned lines, the schema with the kinds of their values; the information list has exactly "
     "one entry for every column, with its name and type, and, when keys are chosen for inclusion, one for every key that is left out. Hierarchy and schema are valid JSON, for any key spelling.",
     ["inputs", "configurations"], "all small documents over keys with special characters and shapes, each report",
     "Tests print one report.", [F + "keys.go", F + "processor.go"], [("report rendering", F + "processor.go, keys.go")], None, ["standard output"], "exploration", ENUM, TRUST)

prop("C26", "Configuration means the same inline, as JSON file and as YAML file",
     "The same configuration given inline, in a JSON file (line comments between members, trailing commas and unquoted keys allowed) or in a YAML file, and options given as flags or in the configuration, have the same effect. "
     "Inputs named by flag or as arguments are equivalent too.",
     ["configurations"], "every configuration option alone and in pairs in all formats", "Tests load one file.", [F + "app.go", F + "config.go"], [("configuration loading", F + "app.go")], None, ["outputs"],
     "exploration", ENUM, TRUST)

prop("C27", "The CSV comparison tool accepts exactly equal tables",
     "The comparison tool reports equality exactly when both files, read as CSV records, hold the same columns and the same rows cell by cell, irrespective of the order of columns (the n-th of several columns with one name goes with the n-th in the other file), and reports the difference otherwise. "
     "It never accepts files that differ in length, header or any cell.",
     ["inputs"], "all pairs of tables up to 2 columns x 3 rows over a small alphabet, headers permuted",
     "There are no tests of the tool beyond one pair.", ["cmd/csvequals/main.go"], [("comparison by header", "cmd/csvequals/main.go")], None, ["exit status"], "exploration", ENUM, TRUST)

prop("C28", "The field limit shortens only the values that exceed it",
     "With a limit on field size, every text not longer than the limit is written unchanged and every longer one is cut to its first bytes up to the limit; numbers are not cut, and no other cell, column or row changes. ",
     ["inputs", "configurations"], "all value lengths 0-9 x limits 0-9, over kinds, outputs and merged columns", "Tests use no limit.", [F + "writer.go"], [("limit in value formatting", F + "writer.go")], None,
     ["rows"], "exploration", ENUM, TRUST)

prop("C29", "Skipping zero columns drops exactly the columns without content",
     "When empty columns are skipped, a column is dropped exactly if every value seen for it is absent, null, false, zero or the empty string; all other columns and all rows are unchanged.",
     ["inputs", "configurations"], "all sequences of up to 4 values over zero and non-zero literals in two columns", "Tests drop one column.", [F + "keys.go"], [("isZero tracking", F + "keys.go scanKey")], None,
     ["header and rows"], "exploration", ENUM, TRUST)

prop("C30", "Parsed times denote the same instant in the requested format and zone",
     "A value matching its configured time layout is written as the same instant in the output format and time zone; a value that does not parse keeps its text, and never becomes a different time. Other columns are unchanged.",
     ["inputs", "configurations"], "all combinations of layouts, zones, offsets and boundary instants, with unparsable values between", "Tests parse one layout.", [F + "writer.go", F + "processor.go"],
     [("time conversion", F + "writer.go")], None, ["rows"], "exploration", ENUM, TRUST)

prop("C31", "Runs are repeatable: output is a function of input and options alone",
     "Running the program again with the same input and options gives byte-identical outputs, independent of the iteration order of any internal hash table, of the time of day, of how reads are chunked, of memory in use and, when the keys are known in advance or there is one worker, of the schedule of the workers.",
     ["configurations", "schedules"], "pairs of mapping features x all outputs, every map iteration order within a deviation bound as an explicit choice, a run in other surroundings, and all schedules within a bound",
     "Go randomises map iteration; a test passes or fails by chance.", [F + "keys.go", F + "writer.go", F + "sqlite_writer.go"], [("sorting before use", F + "keys.go")], None, ["all outputs"], "model_checking",
     "exhaustive exploration of map iteration orders as explicit non-deterministic choices in the real program, outputs compared", TRUST)

prop("C32", "The number of lines in flight is bounded by the concurrency",
     "At any point of a run the number of lines being processed at once does not exceed the concurrency, whatever the schedule, the length and number of inputs and the memory in use. While every memory reading is over the limit, reading goes on, but with a pause before each line. A reading over the limit makes reading wait once: when there is memory again, lines wait no more.",
     ["schedules"], "inputs longer than the concurrency x concurrencies x sequences of memory readings x deviation-bounded interleavings, number of live threads monitored at every step", "Tests cannot observe intermediate states.", [F + "reader.go", F + "processor.go"], [("semaphore", F + "reader.go")], None,
     ["lines in flight"], "model_checking", SCHED, TRUST)

prop("C33", "The Go API does what the tool does, and processors do not influence each other",
     "A Processor made through the Go API from readers, files or a mix of them (compressed or not, however the readers deliver their data, including the repeated input of -dbg-loop-input-size) writes the same outputs as the tool for files of the same content, whether Process or PrepareKeys and WriteOutput are called. Processors of one process, even when made from one configuration value, do not influence each other, whether they run one after another or at once, and leave the caller's configuration as it was.",
     ["inputs", "configurations", "schedules", "histories"], "scenarios x ways to read x ways to call; pairs of processors with different settings of each option, in both orders, one after another and at once under deviation-bounded schedules",
     "Tests use one processor with one input.", [F + "processor.go", F + "reader.go", F + "app.go"], [("inputs that are readers", F + "reader.go"), ("configuration taken over from the caller", F + "processor.go")], None,
     ["rows of each processor"], "model_checking", SCHED, TRUST)

prop("C34", "Damaged lines are reported once per pass, and nothing else is",
     "With -verbosity 2 or more every line that has no JSON or malformed JSON is reported exactly once on stderr in every pass that reads it, malformed ones with the sequence number of the line, and the errors shown in the metrics of the pass are their number; lines that are fine are never reported. With a -match-line-prefix a line without JSON is no error. With -verbosity 1 only the status is shown, with 0 not even that. The summary after scanning tells the number of lines and of keys. A damaged line never stops the run, no line makes a worker panic, and the outputs do not depend on the verbosity.",
     ["inputs", "configurations", "schedules"], "sequences of well-formed and damaged lines x verbosity 0..3 x options that change the passes; deviation-bounded schedules of workers",
     "Tests do not look at stderr.", [F + "processor.go", F + "reader.go"], [("where a line fails", F + "reader.go"), ("status and metrics", F + "processor.go")], None,
     ["stderr, pass by pass, and the outputs"], "model_checking", SCHED, TRUST)

prop("C35", "A flag left out means its documented default",
     "Giving any flag with the default that README.md documents, next to any other flags, changes nothing: the same files, the same standard output and status, the same exit. Without flags the limits are the documented ones: 500 columns in an SQL table, 100 distinct children, lines of 10,000,000 bytes, a pause in reading above 1000 MB of memory. -version prints one line and does nothing else; writing a memory profile does not change the outputs.",
     ["inputs", "configurations"], "every flag x 24 sets of other flags x inputs around the limits; numbers of columns, children and bytes around each default; readings of memory at and just over several limits",
     "Tests set the fields of Flags themselves; the defaults given to the flag package are never run.", [F + "flags.go", F + "app.go"], [("defaults of flags", F + "flags.go")], None,
     ["all outputs"], "exploration", ENUM, TRUST)

prop("C36", "A run writes its outputs whole and leaves every other file as it is",
     "Whatever the output files held before, and whatever was run in the directory before, a run leaves in each of them byte for byte what it writes in an empty directory. It creates and changes no other file: inputs and configuration stay as they are, tables of transposed keys get files only when there are any, runs that only print a report and runs that are refused (missing input, bad configuration) leave all files alone. A database keeps its other tables; a run whose table is already there fails and leaves the table unchanged, as does a run into a file that is not a database. A run that names an input as output, or one file for two outputs, is refused before anything is written.",
     ["histories", "configurations"], "all histories of two runs out of 45 kinds (three thorough) and of three out of 13; every kind over files with five kinds of contents; all pairs of outputs named out of 18 names (several spellings of one name among them) with five sets of inputs",
     "Tests write into fresh temporary files, or do not look at what was there.", [F + "processor.go", F + "writer.go", F + "sqlite_writer.go", F + "pg_dump_writer.go", F + "csv_writer.go", F + "raw_writer.go", F + "flags.go"],
     [("creation of outputs", F + "writer.go"), ("outputs named twice", F + "processor.go"), ("creation of tables", F + "sqlite_writer.go")], None,
     ["all files and tables after a run"], "model_checking",
     "explicit-state exploration: states are contents of the file system and the database, transitions are complete runs of the real program over them", TRUST)

prop("C37", "A limit of zero or below limits nothing, nor does a huge one",
     "-max-lines, -max-lines-keys, -field-limit, -key-limit, -children-limit and -mem-limit of zero, below zero or of the largest numbers, and -offset-lines of zero or below, have no effect: every line, row and value is written as with a limit larger than anything in the input, next to any other limit in effect. -sql-max-cols 0 means 500 for both SQL outputs; other values without room for a column next to the sequence are refused. A concurrency, buffer size or progress interval of zero or below means the default.",
     ["inputs", "configurations"], "all pairs of 12 flags at 3-7 extreme values, and all flags at extreme values next to 8 limits in effect, x 16 sets of options x 3 documents",
     "Tests use few values of each limit.", [F + "processor.go", F + "reader.go", F + "keys.go", F + "sqlite_writer.go", F + "pg_dump_writer.go"], [("limit of lines", F + "reader.go"), ("limit of fields", F + "processor.go"), ("limit of columns", F + "processor.go")], None,
     ["all outputs"], "exploration", ENUM, TRUST)

prop("C38", "A processor that is done holds nothing and returns its failures",
     "When Process, or PrepareKeys and WriteOutput, have returned, with success or with an error, all files and databases they opened are closed and all goroutines they started have ended, lines that were begun are finished before, also when inputs are not read to their end, when memory is limited, or when any operation on an input or output fails. A failure of an input or output, closing included, is returned as an error: it never ends the program that uses the processor. The number of inputs is not limited by the number of files that may be open at once, inputs are opened one after another.",
     ["inputs", "configurations", "fault_sequences", "schedules"], "options x outputs x encodings x windows x memory readings; up to 12 inputs; every failing open, create, read, write, close and SQL operation, pairs of failures, damaged inputs; schedules with up to 2 deviations",
     "Tests end with their process; what is left open or running is not visible in outputs.", [F + "reader.go", F + "processor.go", F + "csv_writer.go", F + "raw_writer.go", F + "pg_dump_writer.go", F + "sqlite_writer.go"], [("readSession", F + "reader.go"), ("writers", F + "writer.go"), ("watching memory", F + "processor.go")], None,
     ["Go API", "open files", "goroutines"], "fault_enumeration", FAULT, TRUST)

PLACEHOLDER = "no check yet"


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    reg = set()
    for fn in os.listdir(here + "/mc"):
        if fn.startswith("props_"):
            for l in open(here + "/mc/" + fn):
                if "ID:" in l and '"C' in l:
                    reg.add(l.split('ID:')[1].split('"')[1])
    with open(here + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"].strip(),
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                            "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    man = {"version": 1, "setup_cmd": "./check setup", "checks": [], "not_applicable": []}
    for p in P:
        if p["id"] in reg:
            man["checks"].append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                                  "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"].strip()})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"] or PLACEHOLDER})
    man["notes"] = ("No hooks in /repo: the checks rewrite the sources of the working tree into a build overlay (tools/instr) that routes synchronisation, "
                    "files, time, maps and memory readings through the explorer (rt/).")
    json.dump(man, open(here + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
    open(here + "/MANIFEST.json", "a").write("\n")
    print(len(P), "properties,", len(man["checks"]), "checks; not claimed:", [n["property"] for n in man["not_applicable"]])


main()
