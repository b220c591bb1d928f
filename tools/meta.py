#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and targets from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "deterministic simulation: seeded search over schedules, inputs and fault sequences of the real code"
P = []

def prop(id, target, title, statement, over, text, why, files, mechanism, observe, note, technique=SIM):
    P.append(dict(id=id, target=target, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, note=note, technique=technique))

FL = ["handlers/flash/handler.go", "handlers/flash/composer.go", "handlers/flash/pools.go", "handlers/flash/group.go", "handlers/flash/extras.go", "handlers/flash/source.go"]
SL = ["handlers/sloggy/handler.go", "handlers/sloggy/composer.go", "handlers/sloggy/group.go"]
NOTE_H = ("Sampled, not exhaustive: real handler code under thousands of seeded schedules with statement-level pre-emption, "
          "the race detector blind to the simulator's own hand-overs, and an independent reference model of every line. "
          "Trusted: the Go compiler, the race detector, encoding/json as parser of the output, and the model in harness/handlers.")
WHY_C = "The tests log from one goroutine to a buffer; the property is over every interleaving of concurrent callers and every behaviour of the destination."

prop("C01", "handlers", "Every record reaches the destination as exactly one whole line",
     "However many goroutines log at once, through one flash or sloggy handler and the loggers derived from it, each record for which logging succeeds reaches the destination as exactly one line, complete and newline-terminated, handed over in a single Write, and Writes to the destination never overlap. Lines of different records, or of different handlers, never mix, nothing is written twice or lost, and the lines of one goroutine keep their order. There is no data race and no deadlock, also when the destination is slow, fails or panics.",
     ["schedules", "histories", "fault_sequences"], "every number of goroutines, every interleaving, every sequence of destination faults (errors, short writes, stalls, panics)", WHY_C,
     FL + SL, [{"name": "one locked Write per record", "where": "handlers/flash/handler.go, handlers/sloggy/handler.go"}, {"name": "buffer and composer pools", "where": "handlers/flash/pools.go"}],
     ["calls of Write on the destination, and their bytes"], NOTE_H)
prop("C02", "handlers", "Loggers derived from one another do not influence each other",
     "A logger made with WithAttrs or WithGroup carries exactly the attributes and groups of its parent at that moment plus its own, in order and properly nested. Deriving from or logging with one logger, before, after or at the same time, never changes what the parent, a sibling or a descendant writes, and this includes the group path given to a ReplaceAttr function.",
     ["schedules", "histories"], "every tree of derivations, and every interleaving of deriving and logging", "A test samples a couple of fixed derivation chains; aliasing between siblings needs particular depths, capacities and orders, and races need particular schedules.",
     FL + SL, [{"name": "copies of prefix, groups and composer state on derivation", "where": "handlers/*/handler.go, handlers/*/composer.go"}], ["lines written by each logger of the tree", "group path seen by ReplaceAttr"], NOTE_H)
prop("C03", "handlers", "A line says exactly what the record says",
     "Each line that flash or sloggy writes is one valid JSON object that holds, in order, the record's time (left out when zero), level, message, source (when asked for) and all the attributes of logger and record that slog's rules do not drop, each with its own key and value, groups nested, LogValuers resolved, empty attributes, empty group values and opened groups that nothing was added to left out, and ReplaceAttr called as slog defines: with the resolved value and the names of all open groups, never for a group itself. Nothing of another record, of an earlier record or of a failed attempt ever appears, whatever the strings, numbers, sizes, nesting or history; and logging changes none of the attributes, which stay the caller's and may be logged again, also by others at the same time.",
     ["inputs", "schedules", "histories"], "every record content, handler configuration, previous history of the handler and concurrent use", "Tests check a fixed list of values in a fresh handler; pooled buffers, scratch space and caches make the line depend on what happened before and at the same time.",
     FL + SL, [{"name": "composers and escaping tables", "where": "handlers/*/composer.go"}, {"name": "pooled buffers reset before use", "where": "handlers/flash/pools.go"}], ["parsed lines against a reference model"], NOTE_H)
prop("C04", "handlers", "Failures are reported and leave no damage",
     "If a record cannot be written, because the destination returns an error or writes short, or because a value cannot be encoded, Handle returns an error (a destination's error stays recognisable in it) and nothing partial of the record is ever written later. A failure, also a panic in a value or in the destination, affects that record alone: the handler keeps working, other records are intact, and no lock, buffer or half-composed text is left behind.",
     ["fault_sequences", "histories", "inputs"], "every sequence of destination faults, unencodable and panicking values, at every position", "No existing test makes a destination or a value fail.",
     FL + SL, [{"name": "error returns of Handle", "where": "handlers/*/handler.go"}, {"name": "deferred unlock and return to pool", "where": "handlers/flash/handler.go"}], ["error of Handle", "bytes at the destination before and after the failure"], NOTE_H)
prop("C05", "handlers", "The level decides, at every moment, what is logged",
     "Enabled is true exactly for levels at or above the handler's minimum level: the configured one, Info by default, and with a dynamic level its current value, at once for the handler and for every logger derived from it, whenever it was made. A record at a level that is not enabled is not written by the logger, and every enabled one is, with the right level name.",
     ["schedules", "histories", "configurations"], "every level, including levels between and beyond the named ones, and every interleaving of level changes, derivations and log calls", "Tests use one constant level; a level captured too early is visible only after a change at run time, in a logger derived before it.",
     FL + SL, [{"name": "Enabled asks the Leveler of the options", "where": "handlers/*/handler.go"}], ["result of Enabled", "lines written"], NOTE_H)
prop("C06", "handlers", "Values may log while they are being logged",
     "A value whose LogValue, String, MarshalJSON or MarshalText itself logs through the same handler or one derived from it neither deadlocks nor corrupts anything: both the inner and the outer record are written, each as one whole and correct line. This holds with any number of goroutines doing so at once and with values or destinations that also fail.",
     ["inputs", "schedules", "fault_sequences"], "every such value at every position, every interleaving", "No existing test logs from within a value.",
     FL + SL, [{"name": "no lock held while values are encoded", "where": "handlers/*/handler.go"}, {"name": "composer taken from the pool per record", "where": "handlers/flash/pools.go"}], ["progress of every simulated thread", "lines written"], NOTE_H)
prop("C07", "handlers", "Making and using handlers leaves shared options alone",
     "The options and extras given to flash.NewHandler and sloggy.NewHandler belong to the caller: neither construction nor use ever changes them, and any number of handlers may be made from the same ones at the same time, without a race, each working on its own destination as configured when it was made, whatever the caller does to the options and extras afterwards.",
     ["schedules", "configurations", "histories"], "every option set and every interleaving of constructions and uses", "Tests make one handler from one option set.",
     FL + SL + ["infra/options.go"], [{"name": "options copied, defaults filled into the copy", "where": "handlers/*/handler.go, handlers/flash/extras.go"}], ["the caller's options before and after", "lines of each handler"], NOTE_H)

NOTE_W = ("Sampled, not exhaustive: the real code under thousands of seeded inputs, schedules with statement-level pre-emption and I/O faults, "
          "with the race detector blind to the simulator's own hand-overs, and an independent model of what must come out. "
          "Trusted: the Go compiler, the race detector, and the model in harness/web.")
prop("C08", "web", "Every line written to the Gin writer becomes one faithful log record",
     "Each line Gin writes through the writer of package gin, be it a debug or error message, a warning, a recovered panic or a traffic report, becomes exactly one slog record at the right level (the level marked in the line, else the configured one), with Gin's decoration removed and nothing of the text lost or taken from another line. With traffic parsing on, the attributes embedded or the fields of the message are those of the request, whatever its URL, status, method, client, latency and error text. Write reports the full length; nothing is retained from the bytes after Write returns, the caller's options stay as they were, and concurrent Writes never mix or race.",
     ["inputs", "schedules", "configurations"], "every line Gin can write for any request, every option set, every interleaving of writers", "The tests parse a few dozen fixed lines from one goroutine.",
     ["gin/writer.go", "gin/parser.go"], [{"name": "Write to slog record", "where": "gin/writer.go"}, {"name": "line patterns", "where": "gin/parser.go"}], ["records at the default slog handler"], NOTE_W)
prop("C09", "web", "Concurrent requests through Gin are logged once each, and truthfully",
     "With Gin's own logger and recovery middleware writing to the writer of package gin, every served request leaves exactly one traffic record with its own method, URL, status, client and error text, and every recovered panic one record with the panic's text, at the configured levels, however many requests run at once and in whatever way they end. Logging never changes a reply, loses a request or blocks it.",
     ["schedules", "inputs", "fault_sequences"], "every set of concurrent requests, with handlers that fail, panic or stall, and every interleaving", "No existing test runs the Gin engine.",
     ["gin/writer.go", "gin/parser.go"], [{"name": "gin.DefaultWriter replaced by the writer", "where": "gin/writer.go"}], ["records at the default slog handler", "HTTP replies"], NOTE_W)
prop("C10", "web", "The trace handler shows every call truthfully and passes through nothing else",
     "Each call of Enabled, Handle, WithAttrs or WithGroup made on a trace handler or on a handler derived from it is shown as exactly one line, handed to standard output in one piece: the indentation of the handler it was made on (two spaces deeper per derivation), the name of the method and its argument in full, for a record its level, message and all attributes in order. It is enabled at every level and never returns an error. This holds under concurrent use, for every content, and while standard output fails or stalls; a failure affects that line only.",
     ["schedules", "histories", "fault_sequences"], "every tree of derived trace handlers, every interleaving, every failure of standard output", "The tests run a few fixed calls from one goroutine.",
     ["handlers/trace/handler.go"], [{"name": "one printed line per call", "where": "handlers/trace/handler.go"}], ["bytes written to standard output"], NOTE_W)
prop("C11", "web", "The warning registry is consistent under concurrent use",
     "A warning name denotes one warning for the life of the process: whoever creates, looks up or lists it gets the same object with the content of the call that made it first. A lookup finds every warning created before it began; the list for a level holds, sorted by name and without repetition, exactly the warnings of that level created so far, those created after an earlier listing too; lists already handed out do not change. There is no race and no deadlock.",
     ["schedules", "histories"], "every interleaving of creations, lookups and listings", "The tests list the predefined warnings once.",
     ["infra/warning/warning.go", "infra/warning/level.go"], [{"name": "registry map and per-level lists under a lock", "where": "infra/warning/warning.go"}], ["results of NewWarning, ByName, WarningsForLevel, Level.Warnings"], NOTE_W)

prop("C12", "web", "The warning manager's count and its report are complete",
     "For a warning manager, every warning added is held under its own name with every instance (function, record, text) in the order added; AddUnused, AddWarning, benchmark and test results and predefined warnings are answered by HasWarning, HasWarnings, GetWarnings and WarningOnly exactly as the calls made so far require. ShowWarnings and ShowHandlerWarnings write each warning of each handler once, at its level, with its count, its instances and its summary, and handlers for a warning in order. The parser of cmd/server and cmd/tabular reads that report back to the same handlers, levels, warnings, counts and instances, whatever the names, texts and records are.",
     ["histories", "inputs", "schedules"], "every sequence of calls on any number of managers at once, every content of handler names, summaries, functions, texts and records", "The tests add a few fixed warnings and parse a fixed report.",
     ["infra/warning/manager.go", "infra/warning/warning.go", "infra/warning/level.go", "internal/data/warnings_parser.go", "internal/data/warnings.go"], [{"name": "maps of warnings per manager", "where": "infra/warning/manager.go"}, {"name": "line patterns of the report", "where": "internal/data/warnings_parser.go"}], ["results of the manager's queries", "text of the report", "parsed report"], NOTE_W)
prop("C13", "web", "Parsing results loses nothing silently",
     "Given the output of any benchmark and verification runs, from files, standard input or readers, in whatever chunks it arrives, the parsers yield exactly the handlers, tests, numbers and warnings in it: every figure under its own handler and test, and every view of it (by handler, by test, tag lists, names, levels) consistent with the others. If the input fails, ends early or has a line too long to read, the parser reports the error or has everything that was complete before; foreign or damaged lines never cause a panic, and never change what the other lines say.",
     ["inputs", "fault_sequences"], "every result text, every way to split it into reads, every read error, truncation, lost or overlong line", "The tests parse one fixed, complete and healthy text.",
     ["internal/data/bench_parser.go", "internal/data/warnings_parser.go", "internal/data/bench.go", "internal/data/warnings.go", "internal/data/tags.go"], [{"name": "line-wise scanners over readers", "where": "internal/data/bench_parser.go, internal/data/warnings_parser.go"}], ["error of the parser", "all accessors of Benchmarks and Warnings"], NOTE_W)
prop("C14", "web", "Questions to the parsed results may be asked at once",
     "Once results are parsed, every query on Benchmarks, Warnings, the tag names, the warning registry and the Markdown renderer, as the server's request handlers make them, may run concurrently with every other: each gives the answer it gives when asked alone, the same every time, lists in the order of the names in them, with no data race, no crash and no deadlock.",
     ["schedules", "histories"], "every set of concurrent queries and every interleaving, from the very first query on", "The tests query from one goroutine.",
     ["internal/data/bench.go", "internal/data/warnings.go", "internal/data/tags.go", "internal/markdown/html.go", "infra/warning/warning.go"], [{"name": "lists and names built when first asked for", "where": "internal/data/*.go"}], ["answers of the queries"], NOTE_W)
prop("C15", "web", "The tabular command prints all the results and nothing else",
     "cmd/tabular prints for every test a table with every handler that ran it, each row with that run's own figures as the chosen language writes them, and for every handler all its warnings with their levels, counts and instances. Two runs over the same input print the same. If input can't be read it says so and does not print a partial report as if it were the whole.",
     ["inputs", "fault_sequences"], "every result text, language and flag combination, and every failure of the input files", "No existing test runs the command.",
     ["cmd/tabular/tabular.go", "internal/data/bench.go", "internal/data/warnings.go", "internal/language/setup.go"], [{"name": "tables from the parsed data", "where": "cmd/tabular/tabular.go"}], ["standard output", "log records"], NOTE_W)

SRV = ["cmd/server/server.go", "cmd/server/text.go", "cmd/server/chart/bar.go", "cmd/server/chart/cache.go", "cmd/server/chart/score.go", "cmd/server/pages/", "cmd/server/parts/", "internal/data/bench.go", "internal/data/warnings.go", "internal/markdown/html.go", "internal/scoring/axis/benchmarks.go", "internal/scoring/axis/warnings.go"]
prop("C16", "web", "The server answers every request with what the results call for",
     "Once it serves, the server answers every request, for a page, a chart, a text or nothing it has, with an answer that follows from the results, the address and nothing else: the same however many requests are under way, in whatever order they come, whatever the clock does, and however slow other clients are or whenever they disconnect; never a panic, a server error, a race, a deadlock or a mixture of answers. A page shows the title, choices, results, summaries, warnings, instances, scores and texts that the parsed results have for what was asked, complete and in order; a chart has a bar or point for each handler at its value; every link, image and choice on a page leads somewhere; whatever isn't there is answered as a client's error; and nothing in results, names, texts or addresses becomes markup of a page.",
     ["inputs", "schedules", "fault_sequences"], "every set of results and texts, every set of concurrent requests with slow and disconnecting clients, every interleaving, and every address", "No existing test compiles or runs the server; caches made on request, templates and renderers shared by requests fail only in some schedules.",
     SRV, [{"name": "page handlers over shared parsed data", "where": "cmd/server/server.go, cmd/server/chart/"}, {"name": "lists and caches built when first asked for", "where": "internal/data/*.go, internal/scoring/"}], ["status, headers and bytes of every answer", "log of the server"], NOTE_W)
prop("C17", "web", "The server serves all the results or says why it does not",
     "The server, started with any flags over any files, whether read in pieces, failing half-way, missing or unreadable, either serves pages that show everything the files hold, or does not start and logs the error that keeps it from doing so. It never serves a part of the results as if that were everything, never crashes, and never hangs.",
     ["inputs", "fault_sequences", "configurations"], "every content of the files, every sequence of read faults, every combination of flags", "No existing test compiles or runs the server, and none makes reading fail.",
     SRV + ["internal/data/bench_parser.go", "internal/data/warnings_parser.go", "internal/language/setup.go"], [{"name": "start-up: parse, set up pages, serve", "where": "cmd/server/server.go"}], ["log of the server", "pages"], NOTE_W)
prop("C18", "web", "Scores are those the definitions give, whenever they are asked for",
     "The benchmark and warning scores of an axis, by handler and test, category and overview, and every keeper and filter over them, are those that their documented definitions give for the parsed results: ranges, weights, averages and ranks, finite numbers always, with every handler that the filter admits and no other, also for handlers or tests without results or warnings and for tests in which handlers do not differ. The same input gives the same scores in every run, however maps are ordered, and concurrent questions get the answers that single ones get, without a race.",
     ["inputs", "schedules", "histories"], "every set of results and warnings, every order of map iteration, every set of concurrent questions", "No existing test builds a keeper; sums in map order and lazily made averages differ or race only in some schedules.",
     ["internal/scoring/axis/benchmarks.go", "internal/scoring/axis/warnings.go", "internal/scoring/axis/common/", "internal/scoring/axis/bench/", "internal/scoring/axis/warn/", "internal/scoring/score/keeper.go", "internal/scoring/score/average.go", "internal/scoring/score/filter.go", "internal/scoring/keeper/", "internal/scoring/filter/", "internal/scoring/group/"], [{"name": "weighted ranges per test", "where": "internal/scoring/axis/benchmarks.go"}, {"name": "weighted counts per level", "where": "internal/scoring/axis/warnings.go"}], ["scores and tables of every keeper"], NOTE_W)

NOTE_S = ("Sampled, not exhaustive: the real code, with the suites and test framework of this repository, under thousands of seeded inputs, schedules with "
          "statement-level pre-emption, clock jumps and destination faults, against an independent model of what must come out. "
          "Trusted: the Go compiler, the race detector, encoding/json, and the model in harness/suites.")
prop("C19", "suites", "The verification suite accepts good handlers and names every fault",
     "The verification suite, run on any handler, passes a handler that does what slog asks, without any warning, and for one that deviates either fails the tests for what it does wrong or, where the deviation was declared beforehand, passes and reports the warning that stands for it, as found by the tests that found it, and no warning that stands for something else. What it reports does not depend on the clock, the order of its tests or of maps, or what an earlier suite declared or found; and it always ends.",
     ["inputs", "configurations", "schedules"], "every combination of deviations of a handler, declared or not, at every point of the clock, with any number of suites in one process", "The existing tests run the suite on a few fixed handlers; none gives it a handler known to be wrong in one respect.",
     ["verify/tests/", "infra/warning/manager.go", "infra/warning/warning.go", "internal/json/field.go", "internal/json/parse.go", "internal/misc/", "infra/options.go"], [{"name": "expectation or declared warning per check", "where": "verify/tests/*.go"}, {"name": "unused warnings become failures", "where": "infra/warning/manager.go"}], ["results of the suite's tests", "the warnings of its manager"], NOTE_S)
prop("C20", "suites", "The benchmark suite measures every test and checks what was logged",
     "The benchmark suite, run on any handler, runs every benchmark that applies to it, each with as many log calls as asked for, all of which reach the handler with the arguments the benchmark stands for, at one thread or in parallel; it counts the bytes written; and it verifies the lines afterwards, so that a handler which writes good lines gets no warning and one which leaves out, repeats or changes what a benchmark logs gets the warning for it. Benchmarks running at once do not disturb each other, and nothing carries over from one to the next.",
     ["inputs", "schedules", "fault_sequences"], "every handler fault, number of iterations and of parallel threads, and every interleaving", "The existing tests run the suite on good handlers only, on one schedule each.",
     ["bench/tests/", "infra/warning/manager.go", "internal/json/", "internal/misc/", "infra/creator.go", "infra/options.go"], [{"name": "counting and verifying writer per benchmark", "where": "bench/tests/suite.go"}, {"name": "checks of the line", "where": "bench/tests/checks.go"}], ["records at the handler", "results and warnings of the suite"], NOTE_S)
prop("C21", "suites", "ReplaceAttr functions change what they name and nothing else",
     "The functions of package replace (ChangeKey, ChangeCase, RemoveKey, RemoveEmptyKey, RemoveTime, Multiple and their checks) do to the attributes they are made for, at the top level or anywhere as asked, case-sensitively or not, exactly what their documentation says, and leave all other attributes, groups and the caller's values alone; in any order of composition, in any handler, and shared by any number of handlers and goroutines.",
     ["inputs", "configurations", "schedules"], "every attribute, group path, function and composition of functions, in every handler, from any number of goroutines", "The tests call each function with a few attributes.",
     ["replace/"], [{"name": "AttrFn closures over a key and a check", "where": "replace/*.go"}], ["result of the function", "lines of handlers that use it"], NOTE_S)
prop("C22", "suites", "A creator's handlers are what was asked for, each on its own",
     "Every creator makes, any number of times and from any goroutine, handlers and loggers that write to the given destination with the given options, or none: each record at an enabled level once, as one line with its level, message and attributes, nothing to any other destination and nothing at other levels, following a level that changes where the library allows it. The options stay as they were, and making or using one handler never changes another. Name, summary and links are those the creator was made with.",
     ["schedules", "configurations", "histories"], "every creator, options, number of handlers made and used at once, and every interleaving", "The tests use one handler per creator at a time.",
     ["creator/", "infra/creator.go", "infra/options.go"], [{"name": "functions to make handlers and loggers", "where": "infra/creator.go, creator/*/creator.go"}], ["lines at each destination", "the options before and after"], NOTE_S)
prop("C23", "suites", "Counting the names in a log line is exact",
     "For every JSON line that a handler can write, the field counter reads it all without an error and tells exactly which names its top-level object has, sorted, how many, and which of them more than once and how often, with the members of a top-level object called fields counted in its place; nothing inside texts, arrays or other objects counts. A line torn by a crash at any point gives an error or the names up to there, never more and never a panic or a hang; parsing a line to a map (Parse, Expect) gives what it holds, and an error if it is not exactly one JSON object; and doing so from several goroutines at once is independent.",
     ["inputs", "schedules", "crash_points"], "every line of every handler, whole or torn at any byte, with any white space", "The tests parse a few fixed texts.",
     ["internal/json/field.go", "internal/json/parse.go"], [{"name": "recursive descent over the line", "where": "internal/json/field.go"}], ["Fields, NumFields, Duplicates, String and error of the counter"], NOTE_S)

prop("C24", "suites", "What the suites find is what the results say",
     "Run both suites on any handlers, as the tests of bench and verify do, keep what each process prints, and read it as the server does: the results then hold, for every handler under the name of its creator, every figure that was printed for every benchmark, and every warning that either suite found, with its level, summary, test, text and log line, as often as it was found; grouped alike by handler, by test and by warning; with the creator's summary and links; a handler without warnings is there without any; and nothing else is there. The exit code is that of the tests.",
     ["histories", "inputs", "schedules"], "every set of handlers, whatever they do wrong and whatever is declared of them, with or without benchmarks or verification, repeated or not, verbose or not, and however the output arrives at the reader",
     "The parser's tests read a fixed excerpt of one old run; nothing runs the suites and the parsers on one another's data.",
     ["bench/tests/suite.go", "verify/tests/suite.go", "infra/warning/manager.go", "internal/data/bench_parser.go", "internal/data/warnings_parser.go", "internal/data/warnings.go", "internal/data/bench.go", "internal/data/tags.go", "infra/creator.go"],
     [{"name": "line-oriented output, marked by prefixes", "where": "infra/warning/manager.go, */tests/suite.go"}, {"name": "line parsers", "where": "internal/data/*_parser.go"}], ["data.Benchmarks and data.Warnings after reading", "warnings held by the suites' managers"], NOTE_S)

NA = []
ONLY = None

def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mechanism"], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    claimed = [p for p in P if p["target"]]
    with open(V + "/targets", "w") as f:
        for p in claimed:
            f.write(p["id"] + " " + p["target"] + "\n")
    m = {"version": 1, "setup_cmd": "./build.sh handlers && ./build.sh web && ./build.sh suites",
         "hooks": {"guard": "none: /repo holds no hooks", "enable": "tools/prep instruments a copy of the sources and a copy of parts of the Go standard library through 'go build -overlay'; nothing in /repo changes", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "./check " + p["id"],
                     "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in claimed],
         "not_applicable": [{"property": i, "reason": r} for i, r in NA]}
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
