#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
def t(ids, technique, note):
    for i in ids.split():
        T[i] = (technique, note)
REF = "runtime monitoring: every observed Parse result is compared online with an executable reference model"
NOTE5 = "Millions of executions of the real machine per run, covering every byte at every position of a corpus, all truncations, small-alphabet enumerations and random grammar-based inputs. Trusts the recursive-descent model in harness/ref5424.go; inputs that were not generated are not covered."
t("C01 C02 C03 C04", REF, NOTE5)
NOTE3 = "Millions of executions of the real machine per run over systematic and random inputs and option sets. Trusts the reference in harness/ref3164.go and Go's time package for zones; inputs that were not generated are not covered."
t("C10 C11 C12 C13", REF, NOTE3)
STREAM = "runtime monitoring: everything the listener receives is checked online against a reference deframer, under faulty and chunking readers"
NOTES = "Each frame content is judged by the real RFC 5424 machine (its own properties are C01-C04), framing by the deframers in harness/stream.go; streams that were not generated are not covered."
t("C14 C15 C16 C17 C18 C19", STREAM, NOTES)
t("C20", "runtime monitoring: histories of streams on one parser against new parsers and the reference deframer", NOTES)
t("C28", "runtime monitoring: metamorphic comparison of the same octets under different reader behaviours", NOTES)
t("C27", "runtime monitoring of the interleaving of reads and deliveries under the Go race detector", "Checks at each read of an instrumented reader that the results due were delivered, and on which goroutine; schedules beyond those seen are not covered.")
t("C05", "runtime monitoring: shape and validity of every result of hostile workloads; panics, faults and hangs caught by the runtime and a watchdog", "Truncations, mutations, enumerations and huge repetitive inputs on new and used machines under every option; inputs that were not generated are not covered.")
t("C06", "runtime monitoring: histories on one machine compared result by result with new machines", "All ordered pairs of a corpus of state-leaving inputs and random longer histories; other histories are not covered.")
t("C07", "runtime monitoring with memory protection: inputs in read-only pages beside inaccessible ones, retained results checked against snapshots", "Writes to and reads beyond the input fault in hardware (byte exact at the page edge only); aliasing is observed by recycling buffers and spoiling results.")
t("C08", "race detector and result monitor on one parser shared by many goroutines", "ThreadSanitizer in happens-before mode plus comparison with sequential results; schedules that did not occur are not covered.")
t("C09", "race detector and result monitor on many instances used at once, also in cold processes", "ThreadSanitizer in happens-before mode plus comparison with sequential results; package initialisation is exercised by re-executing the process; schedules that did not occur are not covered.")
t("C21 C22", "runtime monitoring: every builder call history is checked online against a model of the message", "The validity of a value is decided by the reference model in harness/monbuild.go and ref5424.go; histories that were not generated are not covered.")
t("C23", "runtime monitoring: round trip monitor over everything the parser returns", "Equality is field by field on the two messages; inputs that were not generated are not covered.")
t("C24", "runtime monitoring of all priorities and versions against the documented tables", "The numeric domains are enumerated in full; ways of obtaining a message other than the 17 tried are not covered.")
t("C25", "runtime monitoring of conversions over enumerated and random texts and numbers against an independent definition", "Texts of up to 4 symbols of the relevant alphabet, all single byte edits of the spellings, random texts; others are not covered.")
t("C26", "runtime monitoring: instances alive at once under permuted options and mode switches, judged by the reference models", "Option orders and switches that were not generated are not covered.")
t("C29", "runtime monitoring of the helpers against independent definitions", "Enumerates short texts, all byte pairs, all versions and priorities, and random long texts; others are not covered.")
t("C30", "runtime monitoring of the memory in use along long histories of ever different inputs", "The collector is run at regular points of each history and the live heap compared with the one early in it (1 MB of slack); allocations are measured for announced counts. Slower growth, and histories of other kinds, are not covered.")
t("C31", "runtime monitoring of processor time per octet at growing sizes of many kinds of input", "A violation needs a cost per octet ten times that of the smallest size and over 200 ns, measured again when met; kinds of input other than those listed are not covered.")
t("C32", "runtime monitoring: the error texts of every stream are compared online with those a reference deframer gives", NOTES)
t("C33", "runtime monitoring: histories of direct assignments and setter calls are checked online against a model of the message", "The text is compared with the model's, with the reference grammar, and parsed back; values that are not valid for their field, and histories that were not generated, are not covered.")
t("C34", "runtime monitoring: each token of the scanner is compared online with a reference scanner", "The text of a token is looked at right after its scan; streams that were not generated are not covered.")
t("C35", "runtime monitoring: shape, validity and number of the results of hostile streams; panics and hangs caught by the runtime and a watchdog", "No model: each result is judged by itself; streams and readers that were not generated are not covered.")
t("C36", "runtime monitoring of nested uses: everything done inside callbacks is compared online with the reference models", "Nesting to four levels on one goroutine; nestings that were not generated are not covered.")
claimed = [i for i in os.environ.get("CLAIMED", "").split() if i] or sorted(T)
checks = []
for i in claimed:
    tech, note = T[i]
    if i not in "C08 C09 C24 C30 C31".split():
        tech += "; again on executions guided by the instrumented branches and comparisons of the code"
    checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "exploration", "level_note": note})
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": "machinery in progress"} for i in ids if i not in T]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
