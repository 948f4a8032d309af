#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IMPL = ["C%02d" % i for i in range(1, 35)]
SIM = "deterministic simulation, seeded search: "
TECH = {
 "C01": SIM + "transaction histories over a simulated disk against a byte-exact reference body",
 "C02": SIM + "injected storage faults at every file operation, against a byte-exact reference body",
 "C03": SIM + "storage faults and oversized bodies; every fetch of a body variable checked against what was sent or a recorded error",
 "C04": SIM + "interleaved transactions on a simulated disk with faults; files and handles accounted after every step",
 "C05": SIM + "statement-level interleavings with happens-before race detection, compared with each transaction alone",
 "C06": SIM + "map iteration order chosen by the simulator; outcomes compared across orders",
 "C07": SIM + "disturbed notification histories against a reference interpreter",
 "C08": SIM + "rule programs and histories against a reference interpreter",
 "C09": SIM + "denials, aborts and collections against a reference interpreter; collected verdicts re-read at the end",
 "C10": SIM + "chunked and damaged bodies; every fetch checked against a reference reading of the acknowledged bytes",
 "C11": SIM + "configuration sources fragmented by the simulator, compared with one piece",
 "C12": SIM + "read errors injected at every byte of configuration sources, against known directive boundaries",
 "C13": SIM + "histories of accepted and rejected texts against the accepted texts loaded one by one",
 "C14": SIM + "cut-off and damaged configurations under a step budget linear in their length",
 "C15": SIM + "damaged, cut-off and mislabelled requests under a step budget linear in message and rules",
 "C16": SIM + "mode changes between notifications against a reference interpreter",
 "C17": SIM + "shared caller objects and reused chunk memory, compared after every step and with private copies",
 "C18": SIM + "size invariants after every operation, with storage faults",
 "C19": SIM + "a transaction after seeded histories with faults, compared with a fresh engine",
 "C21": SIM + "several engines sharing a rule set, in turn and as concurrent tasks with race detection, compared with each alone",
 "C20": SIM + "statement-level interleavings of loads with race detection, compared with each load alone",
 "C22": SIM + "reconfiguration steps between the notifications of open transactions, against a reference interpreter",
 "C23": SIM + "log lines of interleaved transactions followed from the rule that writes them to the verdict that delivers them",
 "C24": SIM + "process crashes at file operations and between steps, then a restart on the same disk with other processes' files",
 "C25": SIM + "clocks, random seeds, process ids and temporary names chosen by the simulator; outcomes compared across them",
 "C27": SIM + "levels, sinks, formatters and hooks of the logging library changed and failing during histories; outcomes compared with the default",
 "C28": SIM + "components of rules that panic at seeded calls in interleaved and concurrent transactions, the others compared with each alone",
 "C29": SIM + "transactions notified from inside the components of other transactions, compared with each alone",
 "C30": SIM + "actions that jump, abort, write and look, in disturbed histories, against a reference interpreter",
 "C31": SIM + "loads and applications with registered directives that fail by errors and panics, against a model of the texts",
 "C32": SIM + "interleaved transactions on rules made of noting components, against a model of what each is asked and shown",
 "C33": SIM + "histories in which everything is reported again with other contents; what operators are asked compared with a reference interpreter",
 "C34": SIM + "every history run twice, left alone and looked at between steps and within rules, with read faults; what can be observed compared",
 "C26": SIM + "cycles of transactions with faults; memory reachable from engine, rules and package state measured",
}
PURE = "%s: a pure function of its input with no schedule, time, I/O, randomness or multi-party behaviour for the simulator to control; simulating it would only be input fuzzing under another name"
NA = {
 "N01": PURE % "an operator",
 "N02": PURE % "a transformation",
 "N03": PURE % "a decoder",
 "N04": PURE % "the translation of one directive text into a rule",
 "N05": PURE % "a variable's extraction from a fixed message (its storage-, order- and history-dependent parts are C06, C10 and C17)",
}
NOTE = ("Seeded search: what it explored held; it is no proof for what it did not. Trusts the Go type checker and the source "
        "instrumenter in sim/instr, the in-memory file system and scheduler in sim/rt, and the reference in sim/h. Every statement of "
        "/repo (and of mime/multipart) runs as written, with os, io/ioutil, sync, time and rand behind the simulator.")
m = {
 "version": 1,
 "setup_cmd": "true",
 "checks": [{
   "property": c,
   "quick_cmd": "./check %s quick" % c,
   "thorough_cmd": "./check %s thorough" % c,
   "technique": TECH[c],
   "level": "exploration",
   "level_note": NOTE,
 } for c in IMPL],
 "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
 "notes": "No hooks are needed in /repo: the checks instrument a copy of its sources. See DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
