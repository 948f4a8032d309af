#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where property texts are kept)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})
M = "modsecurity/"
BUF = M + "buffer.go"; TX = M + "transaction.go"; RULE = M + "sec_rule.go"; ENG = M + "engine.go"
RBP = M + "variables/request_body_parser.go"
SC = "seclang/parser/scanner.go"

prop("C01", "Buffered bodies read back exactly as acknowledged",
 "For any division of a body into appended chunks, any in-memory and total limits, and any reuse of the caller's chunk memory after an append returns, every way of reading the buffered body back (as a whole, incrementally with any read sizes, after seeking, or streamed out) yields exactly the acknowledged chunks concatenated in order, whether they are held in memory or spilled to disk. An append that would exceed the total limit is refused whole and changes nothing. Whole-body access to a body that has spilled reports that it is incomplete instead of passing its prefix off as the body.",
 ["histories", "inputs"], "all sequences of append/read/seek/stream operations, all chunk boundaries relative to both limits",
 "TestBuffer appends two chunks that end exactly on the memory limit and does one read; a chunk that straddles the limit, a second read, a seek or a stream-out is never exercised.",
 [BUF, TX], [("Write: memory/spill/file cases", BUF), ("initRead/Read/WriteTo/Seek/String/Bytes", BUF), ("AppendRequestBody/AppendResponseBody", TX)],
 [{"name": "memBuf/fileBuf/length", "meaning": "where the bytes are and how many were acknowledged", "where": BUF}],
 ["Transaction.Request.Body", "Transaction.Response.Body", "AppendRequestBody", "AppendResponseBody"])

prop("C02", "Storage faults never yield wrong body bytes",
 "When temporary storage fails at any operation while a body is buffered or read back (directory gone, file cannot be created, disk full, short or failed write, failed read or seek), that operation reports an error or behaves as if nothing had failed. Bytes later handed out without an error are always exactly the acknowledged bytes in order, with no panic and no endless loop. Once storage works again, further appends and reads work again.",
 ["fault_sequences", "histories"], "all placements of storage faults within all append/read histories",
 "No test makes any file operation fail.",
 [BUF], [("spill path of Write (create, copy, append)", BUF), ("initRead seek", BUF), ("makeBufferDir", BUF)],
 None, ["Transaction.Request.Body", "AppendRequestBody"])

prop("C03", "A body that cannot be inspected never silently passes",
 "If a rule needs a request body that cannot be inspected in full, because it outgrew the in-memory limit for whole-body inspection or because temporary storage failed, the transaction never goes on as if that body were empty: it is aborted with a disruptive verdict, or the body error is recorded on the transaction; a body that is too large is always answered with 413 while the engine is blocking. After an abort no further rule fires, in that phase or any later one, and every verdict collected afterwards stays disruptive with the same status.",
 ["fault_sequences", "histories", "configurations"], "all limits, body sizes, chunkings, storage fault placements and later lifecycle notifications",
 "Two tests check that one oversized urlencoded body sets the abort flag when a variable is fetched by hand; none runs rules, later phases, other body types or storage failures.",
 [RBP, M + "variables/request_body.go", TX, RULE], [("AbortWithError", TX), ("abort check in Match and processPhase", RULE), ("requestBodyParse error handling", RBP)],
 [{"name": "Transaction.Abort, RequestBodyError", "meaning": "fail-closed flags", "where": TX}],
 ["Transaction.Result", "Transaction.Abort", "Transaction.RequestBodyError"])

prop("C04", "Spilled bodies are confined, unshared and released",
 "Bodies that outgrow memory live only in files under the configured temporary directory, no two live bodies share a file, nothing created is accessible to other users, and inspecting uploads leaves nothing behind in the system temporary directory. Once a transaction is closed, none of its files and none of its open file handles remain, for any interleaving of transactions and any storage fault except a failure of the close or removal itself, which is reported as an error. Closing is harmless when nothing was spilled, and when repeated.",
 ["schedules", "fault_sequences", "histories"], "all interleavings of spilling transactions, all storage fault placements, all close points",
 "TestBuffer closes one spilled buffer once, without faults; nothing closes a transaction, an unspilled body, or looks at what uploads leave behind.",
 [BUF, TX, RBP], [("TempFile/Close/Remove", BUF), ("Transaction.Close", TX), ("multipart form clean-up", RBP)],
 None, ["file system under Config.TmpPath and the system temporary directory", "Transaction.Close"])

prop("C05", "Concurrent transactions on one engine are isolated",
 "Any number of transactions may run in parallel on one engine: under every interleaving of their steps, each transaction's matched rules, verdicts, logs and errors are exactly what it produces when it runs alone on an engine with the same configuration. Transactions running in parallel never make unsynchronised conflicting accesses to shared memory.",
 ["schedules"], "all statement-level interleavings of concurrent transactions sharing an engine and its rules",
 "Every test is single-threaded.",
 [TX, RULE, ENG, M + "operators/", M + "transforms/", M + "variables/", M + "actions/"],
 [("per-transaction state; rules, operators, transforms and variables are read-only after loading", RULE)],
 [{"name": "SecRuleSet, SecRule", "meaning": "shared by all transactions", "where": RULE}],
 ["Transaction.Result", "Intervention.Log", "rule firing order"])

prop("C06", "Outcomes do not depend on unordered iteration",
 "For a fixed rule set, configuration and request, the verdict, its status, the rules that fire, the recorded body error and the absence of crashes do not depend on the order in which unordered collections (arguments, headers, cookies, a rule's variables) happen to be enumerated.",
 ["schedules", "inputs"], "all enumeration orders of every map the engine iterates, for all rule sets and requests, including malformed bodies",
 "Go randomises map order per run, so a test sees one arbitrary order; no test repeats a run under chosen orders or combines variables in one rule with a malformed body.",
 [M + "variables/filter.go", "seclang/variable.go", RBP, RULE], [("map iteration in filter and in variable construction", M + "variables/filter.go"), ("parsed-body cache", RBP)],
 None, ["Transaction.Result", "rule firing"])

prop("C07", "Phases run at most once, in order; allow only skips ahead",
 "For any sequence of lifecycle notifications, including repeated, reordered and missing ones, each phase's rules run at most once per transaction and phases run in increasing order: a notification for a phase that is not later than one already run does nothing. An allow ends its phase at once and then: allow:phase lets every later phase run, including the very next; allow:request resumes at response headers if that is still ahead (otherwise it acts as allow:phase); a plain allow resumes at the logging phase. No allow makes a phase run again or keeps the engine from finishing.",
 ["histories", "configurations"], "all sequences of lifecycle notifications and all placements of allow actions in any phase",
 "Tests call each notification once and call allow directly on a fresh transaction, looking only at the phase counter.",
 [TX, M + "actions/allow.go"], [("ProcessPhase/processPhase/JumpToPhase", TX), ("ActionAllow.Do", M + "actions/allow.go")],
 [{"name": "currentPhase/currentRule/nextRule", "meaning": "progress of the transaction", "where": TX}],
 ["rule firing per notification"])

prop("C08", "Rules fire in order, chains are all-or-nothing, skip skips one",
 "Within a phase, rules are considered in configuration order; a rule fires exactly when at least one of its inspected values satisfies its operator (fails it, if negated) and every rule chained to it matches too, and when it fires its own actions and then those of its chained rules all run exactly once, each list ordered data, non-disruptive, disruptive, flow; when it does not fire none of them run. skip omits exactly the next rule of the phase, deny ends the phase once the rule's actions are done, and a status action decides the code of the denial (403 without a valid one). This holds in every history of notifications, whatever ran before.",
 ["histories", "programs", "schedules"], "all rule programs (variables, transforms, operators, negation, chains, skips, denials) over all transaction histories",
 "Tests run single rules; chains are only counted after parsing, skip is tried on an empty rule set, and no test has a reference to compare a multi-rule history against.",
 [RULE, TX, M + "actions/", "seclang/rule_set.go"], [("SecRule.Match/Do, ActionsExecute", RULE), ("Next/JumpTo", TX), ("chain assembly", "seclang/rule_set.go")],
 None, ["rule firing order", "Transaction.Result"])

prop("C09", "A denial stands until collected; collected verdicts never change",
 "Once a rule has denied, the verdict stays disruptive with that status until the caller collects it: no further rule fires in that phase or any later one, whatever notifications arrive. Collecting returns a snapshot that later processing never alters and leaves a clean verdict behind, except that after an abort every later collection is again disruptive with the same status.",
 ["histories"], "all sequences of notifications and collections around denials, passes and aborts",
 "Every test collects immediately after the denying notification and stops there.",
 [TX, RULE, M + "actions/pass.go", M + "actions/deny.go"], [("Result/Reset/Copy", TX), ("disruptive check in processPhase", TX)],
 [{"name": "Transaction.intervention", "meaning": "pending verdict", "where": TX}],
 ["Transaction.Result", "Transaction.Intervention"])

prop("C10", "Inspection is complete and repeatable",
 "Rules that inspect the request or response body or the body's arguments see every byte acknowledged so far, however it was chunked and wherever it is stored. Every rule that inspects the same body, in any order, any number of times and through any variable, sees the same values, malformed bodies included. Once a body has been inspected, further appends to it are refused with an error, never accepted and left out of later inspection.",
 ["histories", "inputs"], "all chunkings, body types, sizes, truncations, and interleavings of appends with inspections",
 "Tests fetch each body variable once from a small, fully appended body.",
 [RBP, BUF, M + "variables/args_posts.go", M + "variables/args_post_names.go", M + "variables/request_body.go", M + "variables/response_body.go"],
 [("VariableCache", RBP), ("ErrBufferReaded", BUF), ("sequential reads of the buffer by the multipart reader", BUF)],
 [{"name": "VariableCache", "meaning": "parsed body shared by rules", "where": TX}],
 ["values passed to operators", "AppendRequestBody error"])

prop("C11", "Configuration parsing ignores how the stream is fragmented",
 "Parsing a configuration from a stream gives the same directives, or the same failure, however the stream delivers its bytes: in one piece, byte by byte, in arbitrary short reads, with empty reads in between, or with the last bytes arriving together with end-of-file. Line continuations, escapes, quoted arguments and CRLF line ends give the same result wherever the pieces are cut.",
 ["schedules", "inputs"], "all fragmentations of all configuration texts",
 "Tests parse from in-memory strings delivered in one piece.",
 [SC], [("advance/next over bufio.Reader", SC), ("SkipBlank continuation look-ahead", SC)], None, ["Scanner.AllDirective", "Scanner.ReadDirective"])

prop("C12", "A failing configuration source is reported, never truncated",
 "If the source of a configuration fails part-way with a read error, at any byte, loading ends in an error: it never succeeds with only the rules read before the failure. Directives handed out one at a time before the failure are exactly those that lie completely before it.",
 ["fault_sequences", "crash_points"], "a read error after every byte of every configuration, persistent or one-off, alone or together with data",
 "No test uses a reader that fails.",
 [SC], [("advance: read error handling", SC), ("ReadDirective/AllDirective end-of-stream", SC)], None, ["Scanner.AllDirective", "Scanner.ReadDirective"])

prop("C13", "Loading rules into a set is all-or-nothing",
 "If adding a configuration text to a rule set fails, at whichever directive, the rule set is unchanged: applying it to an engine yields exactly the rules and settings of the texts that were added successfully, in order. A text one of whose directives is unknown, or has an argument that cannot be used, is always refused, never loaded in part. Retrying with a corrected text gives the same engine as if the failed attempt had never happened.",
 ["histories", "fault_sequences"], "all sequences of successful and failing additions, failing at any directive",
 "Tests add one valid text to an empty set.",
 ["seclang/rule_set.go"], [("AddSecLangString", "seclang/rule_set.go"), ("Execute", "seclang/rule_set.go")], None, ["DireSet.Execute on an engine"])

prop("C14", "Damaged configurations never hang or crash the loader",
 "For every byte sequence presented as a configuration, including a valid one cut off at any point or with any of its bytes damaged, loading ends within a number of steps proportional to its length, with a result or an error and without panicking. A configuration cut off inside a quoted argument is always rejected.",
 ["crash_points", "inputs"], "all truncation points and all byte damage of all configurations",
 "Tests parse well-formed text only.",
 [SC, "seclang/"], [("ReadString/readString/SkipBlank loops", SC)], None, ["NewDireSetFromSecLangString", "Scanner.AllDirective"])

prop("C15", "Damaged requests never hang or crash the engine",
 "For every request, including bodies cut off at any point, damaged, mislabelled, or of any size and chunking, and for every rule set made of supported features, every notification finishes within a number of steps proportional to the request and the rules, without panicking and without sleeping, whether storage works or fails.",
 ["crash_points", "inputs", "histories"], "all truncations and damage of bodies and headers, all rule sets, all notification orders",
 "Tests use well-formed requests and single variables.",
 [RBP, M + "variables/", BUF, TX], [("multipart reading from the buffer", RBP), ("phase loop", TX)], None, ["ProcessRequestHeader/Body, ProcessResponseHeaders/Body, ProcessLogging"])

prop("C16", "The engine mode is honoured throughout",
 "While the engine is off no rule is evaluated and no verdict is disruptive; in detection-only mode rules are evaluated and log but no disruptive action takes effect: no verdict is disruptive, every status stays 200 and no rule or phase is left out because of deny or allow. The mode in force when a notification is delivered governs it, across any sequence of mode changes between notifications; a new engine is on.",
 ["histories", "configurations"], "all sequences of mode changes interleaved with all notification histories",
 "TestEngine_Enable only reads back the two mode fields; no test runs a rule in another mode.",
 [ENG, TX, RULE, "seclang/rules.go"], [("Engine.Enable", ENG), ("mode check in phase processing and action execution", TX)],
 [{"name": "Engine.Enabled/DetectionOnly", "meaning": "mode", "where": ENG}], ["Transaction.Result", "rule firing"])

prop("C17", "Inspection never alters what it inspects",
 "Processing a transaction never modifies the caller's URL, header maps, header values or body chunks, nor the rules and settings of the engine, and it never keeps a reference to chunk memory that the caller may reuse.",
 ["histories", "schedules"], "all transaction histories, with the caller's objects shared between transactions and chunk memory overwritten after each append",
 "Tests never look at their inputs afterwards.",
 [TX, M + "variables/", BUF], [("read-only variable fetches", M + "variables/"), ("copying of appended chunks", BUF)], None, ["caller-owned url.URL, http.Header, []byte; Engine.RuleSet"])

prop("C18", "Body limits bound memory and disk",
 "Through any sequence of appends, refusals, reads and storage faults, the bytes of a body held in memory never exceed the in-memory limit and its file never holds more than the total limit. Without storage faults an append to a body that has not been read is acknowledged exactly when the acknowledged bytes plus the chunk fit the total limit, and the reported length is always the number of acknowledged bytes.",
 ["histories", "fault_sequences", "configurations"], "all limit settings, chunk sizes, refusals and fault placements",
 "Tests check two in-limit sizes and no refusal.",
 [BUF, ENG], [("limit cases of Write", BUF), ("Limits", ENG)], None, ["file sizes under TmpPath", "Body.Len/Bytes"])

prop("C19", "Engines do not age",
 "After any history of earlier transactions on an engine (denied, allowed, aborted, failed by storage faults, abandoned half-way or never closed), a new transaction gets exactly the matched rules, verdicts, logs and errors that it gets on a freshly built engine with the same configuration.",
 ["histories", "fault_sequences"], "all histories of prior transactions on the same engine and process",
 "Tests build a new engine for nearly every case.",
 [TX, ENG, RULE, RBP], [("fresh per-transaction state in NewTransaction", TX), ("no engine- or process-level mutable state", RULE)], None, ["Transaction.Result", "rule firing"])

prop("C20", "Configurations load correctly in parallel",
 "Configurations may be parsed and loaded in parallel with each other and with transactions on other engines: under every interleaving each load gives the same rules, settings or error as when it runs alone, without unsynchronised conflicting accesses to shared memory.",
 ["schedules"], "all statement-level interleavings of concurrent loads and transactions",
 "Every test is single-threaded.",
 ["seclang/", SC], [("per-scanner state, read-only token and factory tables", SC)], None, ["DireSet.Execute", "Scanner.AllDirective"])

prop("C21", "Engines made from one rule set are independent",
 "A rule set may be applied to any number of engines, any number of times, one after another or in parallel, and before, between or while transactions run on them: each engine has exactly the rules and settings, and each of its transactions exactly the outcome, that it would have with a rule set of its own loaded from the same texts. Whatever is done to one engine (mode, limits, directories, default actions, further rules, transactions) and whatever is added to the rule set later, accepted or rejected, shows on no other engine.",
 ["histories", "schedules", "configurations"], "all histories of several engines sharing a rule set, under all statement-level interleavings",
 "Every test applies a rule set once, to one engine.",
 ["seclang/rule_set.go", "seclang/sec_rule.go", ENG, RULE], [("DireSet.Execute adds rules without changing them", "seclang/rule_set.go"), ("NewDefaultLimits, NewDefaultConfig and NewSecRuleSet make fresh values", ENG), ("SecRuleSet.AddRules", RULE)], None, ["DireSet.Execute", "Engine fields", "Transaction.Result"])

prop("C22", "Reconfiguring a live engine takes effect cleanly",
 "An engine may be reconfigured between notifications while transactions are open. Replacing Engine.RuleSet, or creating a transaction with an explicit rule set, governs transactions started afterwards: open ones finish with the rules and default actions they started with. Rules and default actions added to a set in use (AddSecRule, AddRules, AddDefaultActions, applying a DireSet to the engine) apply to every transaction on that set from its next notification, after the existing rules, and a phase that has run stays run. Size limits and TmpPath apply to transactions started afterwards, body access flags from the next inspection. A rejected text changes nothing.",
 ["histories", "configurations"], "all interleavings of reconfiguration steps and transaction notifications",
 "Tests configure an engine once and run one transaction.",
 [ENG, TX, RULE, "seclang/rule_set.go", "seclang/sec_rule.go"], [("NewTransaction takes the rule set once", ENG), ("Transaction.SecRules, Result, ProcessRequestBody", TX), ("SecRuleSet.AddRules, AddDefaultActions, Process", RULE)], None, ["Transaction.Result", "Transaction.EvalRequestHeaders and the other notifications"])

prop("C23", "No log line is lost, repeated or misattributed",
 "Every line that a rule writes (log, deny and an abort) is delivered exactly once, in the order written, in the next verdict collected from that transaction, naming the client of its own transaction and the phase it was written in, however many transactions are open and whatever storage failures occur. Collecting a verdict with pass discards uncollected lines; after an abort later collections repeat the abort and its lines.",
 ["histories", "schedules", "fault_sequences"], "all histories of notifications and collections on interleaved transactions",
 "Tests look at one line of one transaction at most.",
 [TX, M + "actions/", RULE], [("Transaction.Logf, Result, Abort", TX), ("log and deny actions", M + "actions/")], None, ["Transaction.Result", "Intervention.Log"])

prop("C24", "Files of other processes are left alone",
 "A process that dies at any moment leaves at most files in its temporary directory. The next process on that directory behaves exactly as on an empty one: same outcomes, its own files cleaned up when its transactions close, and it never changes, reads or removes a file it did not create, even when it happens on the same temporary names.",
 ["crash_points", "fault_sequences", "histories"], "all crash points at file operations and between notifications, with short and torn writes, followed by a restart on the same disk",
 "No test ends a process or shares a directory with another.",
 [BUF, TX], [("temporary file creation in the buffer", BUF)], None, ["the temporary directory", "Transaction.Result", "Transaction.Close"])

prop("C25", "Outcomes do not depend on the clock or on chance",
 "The same configuration and the same notifications give the same verdicts, log lines, aborts, errors and body contents whatever the time of day, however fast or slowly time passes, including between notifications, and whatever random numbers, process id and temporary file names the process meets.",
 ["schedules", "configurations", "histories"], "all clocks (offset, speed, standing still, hours between notifications) and random seeds for each history",
 "Tests run once, at one time, in one process.",
 ["modsecurity/", "seclang/", "utils/"], [("no use of time or randomness except for temporary names", BUF)], None, ["Transaction.Result", "return values of the notifications", "Buffer contents"])

prop("C26", "Finished transactions leave nothing behind in memory",
 "An engine serves any number of transactions: once a transaction is closed or dropped, nothing of it stays reachable from the engine, its rules or package state, so the memory held by an engine with no open transactions does not keep growing with the number of transactions, whatever their contents, their storage failures and their aborts.",
 ["histories", "fault_sequences"], "all sequences of transactions, with contents differing from one to the next",
 "Each test runs one transaction and exits.",
 [ENG, TX, BUF, M + "variables/", M + "operators/"], [("Engine keeps no list of transactions", ENG), ("Transaction owns its buffers and collections", TX)], None, ["memory reachable from Engine, SecRuleSet and package variables"])

prop("C27", "Diagnostic logging never influences inspection",
 "The verdicts, log lines, aborts, errors and body contents of a transaction do not depend on the diagnostic logging of the process: they are the same at every level of the logging library, when the level changes between two notifications, and whatever becomes of the messages, also when the place they are written to fails or writes only a part, or when a formatter or a hook fails.",
 ["configurations", "fault_sequences", "histories"], "all levels and failures of the logging library at any moment of a history",
 "Tests run at one level, with a working standard error.",
 [TX, RULE, "modsecurity/", "seclang/"], [("Debug and Debugf in processPhase, SecRule.Do and SecRuleSet.Process", TX)], None, ["Transaction.Result", "return values of the notifications"])

prop("C28", "A component that panics harms only its own transaction",
 "When a component of a rule (a variable, transformation, operator or action, which users may supply) panics and the caller recovers, the harm is confined to that transaction: every other transaction, open or started later, in turn or concurrently, has the outcome it has without the failure. The failed transaction can still be notified and collected without hanging, the phase that failed is not run again, and Close removes its files.",
 ["fault_sequences", "schedules", "histories"], "all calls of a component at which it may panic, in all interleavings with other transactions",
 "No test has a failing component.",
 [TX, RULE, ENG, BUF], [("ProcessPhase marks a phase before running it", TX), ("SecRule.Match, Do and ActionsExecute keep no state outside the transaction", RULE)], None, ["Transaction.Result", "Transaction notifications", "Transaction.Close"])

prop("C29", "Transactions can be run from inside a rule's component",
 "A component of a rule may itself use the module while a transaction is inspected: create, notify, collect and close other transactions on the same engine, or load and use another engine. Neither the inspected transaction nor those run inside it are affected: each has the outcome it has alone, and nothing blocks.",
 ["programs", "histories"], "all points of rule evaluation at which notifications of other transactions are made, nested up to two deep",
 "No test uses the module from inside a component.",
 [TX, RULE, ENG, "seclang/"], [("SecRule.Match, Do, ActionsExecute hold no locks and no shared scratch space", RULE)], None, ["Transaction.Result", "Transaction notifications"])

prop("C30", "Actions that steer a transaction themselves stay within its rules",
 "An action written by a user may call the transaction's own operations: JumpTo a rule of the phase (or beyond its last), JumpToPhase any phase number, AbortWithStatus or AbortWithError, Logf, and read where the transaction is (CurrentPhase, CurrentRule, CurrentSecRule, Intervention). Whatever is called, by any action of any rule or chain and in any history of notifications: no phase runs twice or out of order; jumping to a rule continues there and nowhere else, and has no effect beyond its phase; jumping to a phase ends the present phase once the rule's actions are done, and the phases before the target do not run, with a number of a phase already run standing for the next one and one beyond the last for the end; after an abort nothing fires and the verdict keeps its status, except in detection-only mode, where an abort changes nothing; every line written is collected once; and what is read is true at that moment.",
 ["programs", "histories"], "all placements of such calls in rules, chains and default actions, over all notification histories",
 "The tests call JumpTo and JumpToPhase on transactions without rules and look only at the counters; no rule ever steers a running phase.",
 [TX, RULE], [("JumpTo/Next", TX), ("JumpToPhase/ProcessPhase", TX), ("AbortWithStatus/AbortWithError/Logf", TX), ("CurrentSecRule", TX)], None, ["Transaction.JumpTo", "Transaction.JumpToPhase", "Transaction.AbortWithStatus", "Transaction.Result"])

prop("C31", "Directives a program registers are loaded and applied like the built-in ones",
 "A program may register directives of its own (parser.RegisterDir, RegisterValue, seclang.RegisterDire), one of which may itself load other texts. However they are mixed with rules, chains and settings: each is recognised whatever the case of its name, gets its arguments as written, and runs exactly once whenever the rule set is applied to an engine, in the order of the text, with the rules and settings written before it in place and those after it not. One that fails while it is parsed or made, by an error or by a panic the program recovers from, rejects its text and changes nothing else. One that fails when the set is applied ends the application with its error: what comes before it has been applied, what comes after it has not, and the set can be applied again. All this holds for programs' loads running in parallel.",
 ["programs", "fault_sequences", "schedules"], "all texts mixing the two kinds of directives, all placements of failures in parsing, making and applying, all interleavings of loads",
 "No test registers a directive; every directive that is executed in a test succeeds.",
 ["seclang/rule_set.go", "seclang/parser/seclang_token.go", SC], [("DireSet.AddSecLangString", "seclang/rule_set.go"), ("DireSet.Execute", "seclang/rule_set.go"), ("RegisterDire, direFactory", "seclang/rule_set.go"), ("RegisterDir, DirectiveFromString, RegisterValue", "seclang/parser/seclang_token.go")], None, ["DireSet.AddSecLangString", "DireSet.Execute"])

prop("C32", "User-written components are consulted as configured and shown what was reported",
 "A rule may be made of the user's own variables, transformations, operators and actions. In every history of notifications, and with any number of transactions in turn or in parallel: each component is handed the transaction that is inspected, which shows exactly what was last reported of connection, request and response and how much of the bodies was accepted. The values of a rule's variables pass, in the order configured, through all its transformations in order, and the operator is asked about the results one after the other until one satisfies the rule; chained rules are consulted in order while all before them matched; then each action of the rule and of its chain runs once, and a block runs the default actions. Nothing is consulted besides, nor for a rule of a phase that does not exist. What a component keeps in Transaction.Data is there for every later component of the same transaction, through all phases, and for no other.",
 ["programs", "histories", "schedules"], "all rules made of such components, all notification histories, all interleavings of transactions",
 "The tests run rules of built-in components and look at the verdict, never at what a component is asked or shown.",
 [RULE, TX, ENG], [("FetchAllTransformedVariables, Match, Do, ActionsExecute", RULE), ("AddRules", RULE), ("ProcessConnection, ProcessRequestURL, ProcessRequestHeader, ProcessResponseHeaders", TX)], [{"name": "Transaction.Data", "meaning": "what components keep", "where": TX}], ["Variable.Fetch", "Trans.Trans", "Operator.Match", "Action.Do"])

prop("C33", "Rules inspect what was last reported",
 "What a connector reports may be corrected at any time by reporting it again with other contents: the connection, the URL with method and protocol, the request headers, the status and headers of the response (a rewritten URL, a client address read from a proxy header, a retried response). In every history, in every phase and through every variable and selector, a rule inspects exactly what was reported last before its phase runs, taken whole, never mixed with what was reported before and never remembered from an earlier inspection, of this transaction or another.",
 ["histories", "inputs"], "all sequences of reports with changing contents between and after the phases that inspect them",
 "The tests report everything once.",
 [TX, "modsecurity/variables/"], [("ProcessConnection, ProcessRequestURL, ProcessRequestHeader, ProcessResponseHeaders", TX), ("Fetch methods of the variables", "modsecurity/variables/"), ("VariableCache is for bodies only", "modsecurity/variables/request_body_parser.go")], [{"name": "Transaction.VariableCache", "meaning": "parsed bodies", "where": TX}], ["Transaction notifications", "Transaction.Result"])

prop("C34", "Looking at a transaction does not change it",
 "A connector, an observer or a user-written component may look at a transaction at any time, between its steps and from within its rules: at the verdict so far, the phase, the rule it is at and the one that comes next, the rules of the phase, the names and arguments of their components, the size of the bodies and, once a body is complete, its contents, read in any parts and from any position, also when storage fails during that reading. What is seen is what is so: the bytes that were acknowledged, the rule whose component is running, the verdict that a collection would return now. And everything the rules do afterwards, every verdict, log, error and the clean-up, is the same as if nobody had looked.",
 ["histories", "inputs", "faults"], "all positions, kinds and numbers of looks, in all histories, with read faults during the looks",
 "The tests look at a transaction once, at the end.",
 [TX, BUF], [("CurrentPhaseRules, NextRule, CurrentRule, CurrentSecRule, CurrentPhase, Intervention", TX), ("Len, String, Bytes, Read, WriteTo, Seek", BUF), ("Seek before parsing", "modsecurity/variables/request_body_parser.go")], [{"name": "buffer.memReader, buffer.fileReader", "meaning": "where a reader of the body is", "where": BUF}], ["Transaction.Intervention", "Transaction.CurrentSecRule", "Request.Body", "Response.Body"])

# --- pure functions: listed for breadth, not claimed
prop("N01", "Comparison and regex operators compute their documented predicate",
 "eq, ge, gt, le and lt compare the integer value of the input (0 when it is not an integer) with the argument, and rx reports whether the regular expression matches anywhere in the input.",
 ["inputs"], "all operator arguments and inputs", "Tests sample a few values per operator.",
 [M + "operators/compare.go", M + "operators/rx.go"], [("newOperatorCompare, OperatorRx.Match", M + "operators/")])
prop("N02", "Transformations compute their documented mapping",
 "lowercase, none, compressWhitespace, removeWhitespace, replaceNulls and removeNulls map every input string to the documented output.",
 ["inputs"], "all strings", "Tests sample a few strings.",
 [M + "transforms/"], [("Trans methods", M + "transforms/")])
prop("N03", "URL decoding is exact",
 "urlDecode and urlDecodeUni decode every well-formed escape once and leave malformed escapes in place, counting them.",
 ["inputs"], "all strings", "Tests sample nine strings.",
 ["utils/urlencode.go"], [("urldecode", "utils/urlencode.go")])
prop("N04", "SecLang text maps to the rule it says",
 "Every accepted SecRule yields a rule with exactly the variables, operator, transformations and actions written in it, and unsupported names are rejected.",
 ["inputs", "programs"], "all directive texts", "Tests parse about ten directives.",
 [SC, "seclang/"], [("ReadVariables/ReadOperator/ReadActions and the factories", SC)])
prop("N05", "Variables extract the documented part of the message",
 "Each variable yields the documented part of the request or response, and selectors include and exclude exactly the named or matching keys.",
 ["inputs"], "all messages and selectors", "Tests sample one message per variable.",
 [M + "variables/"], [("Fetch methods and filter", M + "variables/")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
