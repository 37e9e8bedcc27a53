#!/usr/bin/env python3
"""Source of MANIFEST.json (run by hand after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GVN = "interprocedural gated value numbering over compiler MIR"
T = {
 "C01": GVN + ": closed form of the token list as a comprehension over sentences and lattice offsets",
 "C02": GVN + ": symbolic emission/correction pairing in the filter loops, plus writer agreement across filters",
 "C03": GVN + " of the analyzer pipeline: order and error dominance of stages",
 "C04": GVN + ": writer/reader layout agreement",
 "C05": GVN + ": row-order agreement between ids, index and details, writer/reader layout agreement",
 "C06": GVN + ": packing/unpacking agreement of trie values",
 "C07": GVN + ": composition of matrix writer and reader to byte offsets",
 "C08": GVN + ": file name to component role maps of writer, path loader and embedded loader",
 "C09": GVN + ": name tables as decision diagrams, printer/parser/serde agreement",
 "C10": GVN + ": dispatch table of the loader against each filter's reported name",
 "C11": GVN + ": codec pairing per algorithm variant",
 "C12": GVN + ": typestate of file writers on success paths",
 "C14": GVN + ": guards of bounds/slice/unwrap sites over input-shaped values",
 "C15": "effect and type analysis over the call graph (receiver mutability, ambient reads, hash iteration)",
 "C16": "auto-trait queries on the type-checked program, unsafe-operation census with guard intervals",
 "C13": "census of all Result values on MIR (def-use of every failure) with " + GVN + " for failures reduced to values: the function above must return an error",
 "C17": GVN + ": provenance of word id and detail source",
 "C18": GVN + ": closed form of the token list each filter leaves, field by field",
 "C19": GVN + ": retention predicates as decision diagrams",
 "C20": GVN + ": closed form of the Viterbi recurrence and of the backtrace",
 "C21": GVN + ": candidate insertions of the lattice and their guards",
 "C22": GVN + ": penalty function as a decision diagram over its thresholds",
 "C23": GVN + ": field map of the configuration visitors and builders",
 "C24": GVN + ": loader choice as a decision diagram over extension and kind",
 "C25": "narrowing-conversion dataflow on values derived from source text",
 "C26": GVN + ": closed form of the longest-match loop step",
 "C27": GVN + ": column index agreement across builders and filters",
 "C28": GVN + ": column to field map of word entries",
 "C29": GVN + ": category id/definition agreement",
 "C30": GVN + ": text printed by the command line per format, options and errors reaching the library",
 "C37": GVN + ": text each rewriting filter leaves, per kind",
 "C38": GVN + ": what is written per mark, evaluated over all characters the decision diagram distinguishes",
 "C39": GVN + ": the guard of every unsigned subtraction against its operands, by linear inequalities",
 "C40": GVN + ": the chain of loops from source rows to index entries, each complete and one for one",
 "C41": "reachability over the call graph (closures and trait objects resolved) to reads of ambient state; " + GVN + ": origin of every path opened, listed, created or written",
 "C36": GVN + ", cut positions derived as character boundaries by induction over the lattice",
 "C35": GVN + ": guards of bounds/slice/unwrap sites, and cut positions derived as character boundaries",
}
NOTE = {}
NA = {
 "C31": "The value a numeral denotes is computed by a decimal big-number state machine over runtime digit strings; equality with the denoted number is a semantic relation over unbounded inputs that no static rule short of executing or solving the program decides.",
 "C32": "The round trip is a property of third-party codecs (flate2, bincode/serde derive) over all values; the pairing part that this code decides is claimed as C11 and C08, the rest is not visible in this code.",
 "C33": "Which segmentation is linguistically intended depends on the contents of real dictionaries, which are data that is not in the tree and cannot be derived from source.",
 "C34": "Running time and memory depend on runtime quantities (matches per position, third-party trie and hash tables) for which no sound static bound is in reach.",
}
todo = [l for l in sorted(T) if not os.path.exists(os.path.join(HERE, "rules", l.lower() + ".py"))]
checks = []
for p in sorted(T):
    if p in todo:
        continue
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py %s --thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": T[p], "level": "other",
                   "level_note": NOTE.get(p, "Decides the obligations listed in the evidence for every input at once, on the MIR the compiler produces from /repo's current source; trusts rustc's MIR, the models of library functions in lintlib/models.py and the assumptions listed in the evidence. An obligation whose value cannot be put in closed form is reported as undecided, not as a violation.")})
m = {"version": 1, "setup_cmd": "python3 -m lintlib.dump", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())] +
                       [{"property": p, "reason": "The rule for this property is not built yet."} for p in todo]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", todo)
