#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("bounded exhaustive exploration of input texts on the real parser", "model_checking",
   "Every text of the stated finite spaces is parsed by the real code in a supervised process; a panic, crash, hang or memory exhaustion is attributed to its path. Says nothing about texts outside the bounds."),
 "C02": ("bounded exhaustive derivation of modules, real parser against reference parser", "model_checking",
   "All modules of the derivation up to the stated number of deviations; trusts the reference parser in the harness, which is cross-checked by C03/C04 in the other direction."),
 "C03": ("bounded exhaustive exploration of token sequences against a reference recogniser", "model_checking",
   "All one-token extensions of viable prefixes and all single-token edits of derived modules within the bounds; trusts the reference parser."),
 "C04": ("bounded exhaustive exploration of layouts and character sequences against a reference lexer", "model_checking",
   "All separators at all gaps, all short character strings in every lexical context; trusts the reference lexer."),
 "C05": ("bounded exhaustive exploration of numeric literals against exact arithmetic", "model_checking",
   "All digit strings up to the stated length and boundary families in every position; oracle is math/big."),
 "C06": ("bounded exhaustive exploration of erroneous texts and line layouts against a reference parser", "model_checking",
   "Line of the first offending item computed by the reference parser; all edits and separators within the bounds."),
 "C07": ("exhaustive enumeration of read splittings and read faults", "fault_enumeration",
   "Every split and every fault position of each text of the set is executed against the real ParseStream; texts outside the set are not."),
 "C08": ("stateless exploration of all interleavings up to a preemption bound on the instrumented real code, plus a free-running race-detector pass", "model_checking",
   "Scheduling points before every statement of the library (inserted by overlay from the current tree); all schedules within the preemption bound for the stated pairs of calls. The race detector pass covers unsynchronised accesses the scheduler cannot see."),
 "C09": ("bounded exhaustive derivation of modules; generated code judged by go/types", "model_checking",
   "All modules of the derivation within the bounds; go/types with the real standard library decides compilation."),
 "C10": ("bounded exhaustive derivation of modules against a reference model of the representation", "model_checking",
   "All modules of the derivation within the bounds; trusts the reference model (cgmodel.go)."),
 "C11": ("bounded exhaustive enumeration of component forms against a reference DER encoder", "model_checking",
   "All component forms alone, in pairs and triples within the bounds, with present/absent/default values; generated types are executed through reflection, trusting the reference encoder and encoding/asn1."),
 "C12": ("exhaustive enumeration of small reference graphs and declaration orders", "model_checking",
   "All graphs up to the stated number of definitions, all orders; trusts the reference model."),
 "C13": ("bounded exhaustive enumeration of literal and named-number modules, evaluated by go/constant", "model_checking",
   "All literal forms and lists in the bounds; generated expressions are evaluated exactly."),
 "C14": ("bounded exhaustive placement of unsupported constructs", "model_checking",
   "Every unsupported construct at every position of the derived modules within the bounds."),
 "C15": ("breadth-first exploration of call histories against single-call results", "model_checking",
   "All histories up to the stated depth over the stated operations, in one process, with reference results from fresh processes."),
 "C16": ("exhaustive enumeration of writer faults", "fault_enumeration",
   "Every write call and every byte offset for every module of the set is failed or shortened."),
 "C17": ("exhaustive enumeration of command invocations and file-system faults against the library's own output", "fault_enumeration",
   "All combinations of the stated argument, file-state and fault menus are executed with the built binary."),
 "C18": ("exhaustive enumeration of values, target states and modes", "fault_enumeration",
   "All combinations of the stated menus are executed against the real file system in a scratch directory."),
 "C19": ("bounded exhaustive enumeration of dumps and damaged items", "model_checking",
   "All byte sequences, groupings and spacings within the bounds; the ws2bin binary is executed for a subset of them."),
 "C20": ("bounded exhaustive enumeration of constraint expressions against a reference parser", "model_checking",
   "All expressions up to the stated number of operators; trusts the reference parser."),
 "C21": ("exhaustive enumeration of assignment lists and look-ups", "model_checking",
   "All lists up to the stated length over the stated names."),
 "C23": ("bounded exhaustive derivation of modules and reference graphs, real generator in a supervised process", "model_checking",
   "Every module and reference graph of the stated spaces (cycles and unsupported constructs included) is generated under every configuration; a panic, hang, stack overflow or incomplete output is attributed to its path."),
 "C22": ("exhaustive enumeration of CHOICE alternatives and positions against a reference model", "model_checking",
   "All lists of alternatives up to the stated length and nesting; trusts the reference model."),
}
import sys
only = set(sys.argv[1].split(",")) if len(sys.argv) > 1 else set(T)
m = {"version": 1, "setup_cmd": "./run.sh setup",
 "checks": [{"property": k, "quick_cmd": f"./run.sh {k} quick", "thorough_cmd": f"./run.sh {k} thorough",
   "technique": v[0], "level": v[1], "level_note": v[2]} for k, v in sorted(T.items()) if k in only],
 "not_applicable": [{"property": k, "reason": "check under construction"} for k in sorted(T) if k not in only],
 "notes": "No hooks in /repo: instrumentation is generated from the current tree into an overlay. Known and fixed findings: known_findings.json. Replay of a violation: ./run.sh replay ID TIER SPACE CHOICES."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
