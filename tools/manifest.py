#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below and the rule modules present."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "value-flow extraction of the declared commutation table, compared with gate matrices",
    "C02": "value-flow extraction of the decomposition circuits from the lowering pass, unitary comparison with oracle matrices",
    "C03": "abstract execution of the gate modifier on an uninterpreted graph under construction; extracted circuits compared with oracle matrices",
    "C04": "abstract execution of the emitters and decoders on symbolic gates; extracted gate tables compared as matrices in both directions",
    "C05": "parsing-grammar interpretation and abstract execution of both classical/parameter expression codecs; the expression written is compared with the one read and with the operation's meaning over all small operand values",
    "C06": "unit-typed symbolic evaluation of every parameter conversion path (scale factor as a term over pi)",
    "C07": "abstract execution of the replacement builders and code generators; extracted circuits evaluated over all operand representations",
    "C08": "abstract execution of the code generators on an uninterpreted LLVM emission model; extracted call sequences compared with the runtime table on every path",
    "C09": "reference-count accounting over all paths of the extracted future code and replacement circuits",
    "C10": "abstract execution of the result code generators; routine, tag, type and length taken from the extracted emission",
    "C11": "abstract execution of the extension builders; the definitions they construct compared with the published JSON in both directions",
    "C12": "abstract execution of the generic-form writer and reader of each operation with symbolic arguments; inverse and signature-selection rules",
    "C13": "set inclusion between loader registries, extension definitions and code generator registrations, all extracted from the source",
    "C14": "path-sensitive extraction of the stage sequence for every switch setting; order and guard rules",
    "C15": "path-sensitive extraction of the stage sequence for every option setting; order and guard rules",
    "C16": "path-sensitive typestate of the entry point over every function that can move it on a borrowed program",
    "C17": "extraction of the rank function handed to the ordering routine, evaluated for every operation; order rules on the ranks",
    "C18": "abstract execution of the array clean-up on an uninterpreted graph for every bounded chain of array operations; element and array values before and after compared symbolically",
    "C19": "abstract interpretation of the pack/unpack builders over a family of concrete types; emitted operation graphs composed symbolically and compared with the identity",
    "C20": "component-wise value-flow extraction of every cost operation, evaluated as terms; extraction of the cost functions for every operation and of the cost change of a rewrite on uninterpreted circuits",
    "C21": "abstract interpretation of each strategy on uninterpreted circuits and rewrites; the set of rewrites applied and the change reported compared with the admissible ones",
    "C22": "abstract interpretation of the search loops (single- and multi-threaded, and the worker and queue processes) under every schedule of a bounded set of candidate circuits and costs; returned and best-so-far values compared symbolically",
    "C23": "call-site query over the compiled program for region constructions; abstract execution of every function that makes a convexity checker or a match (same graph, same checker, errors kept); reachability inside a scope abstractly executed on concrete circuits and compared with the definition",
    "C29": "abstract execution of the whole pytket encoder on families of concrete regions; the emitted commands run on symbolic registers and compared with the region, values, outputs and final permutation",
    "C30": "abstract execution of every writer and reader of metadata on all values; keys of all other uses in the compiled program resolved and matched; values read compared with the values written",
    "C28": "abstract execution of the construction of the resource view and of its queries on families of concrete regions; the table it builds compared port by port with the definition",
    "C39": "abstract execution of the construction of copyable expressions on families of concrete circuits and requests; operations, inputs, outputs, convexity verdict and grouping compared with the definition",
    "C41": "abstract execution of the command iterator and of every accessor of a command on families of concrete circuits and topological orders, compared with the definition",
    "C35": "abstract execution of the prelude's code generators; the emitted instructions interpreted for many codes and texts, calls and constant bytes compared",
    "C38": "abstract execution of chunk splitting, extraction, insertion and reassembly on families of concrete circuits; the result compared with the composition of the chunks",
    "C42": "abstract execution of the pytket decoder (set-up, every command, outputs) on families of concrete circuits and signatures; the dataflow of the built graph compared with the register semantics of the command list",
    "C37": "abstract execution of the modifier resolver on families of concrete functions with nested regions and calls; the modified graph evaluated symbolically (backwards for inverses) and compared with the original",
    "C43": "abstract execution of the class rewriter on families of concrete classes; every pattern/target/rewrite compared with the class member it stands for",
    "C44": "abstract execution of the pack/unpack elimination on families of concrete regions; every replacement circuit evaluated and compared with the values at the boundary",
 "C24": "abstract execution of the commutation pass on families of concrete circuits; the resulting circuit compared with the given one: same operations and ports, order along a qubit changed only between gates diagonal in the same basis",
 "C25": "abstract execution of every loading function with readers, validator and entry check as free decisions: every successful path passed validation; all callers of raw readers enumerated",
 "C26": "abstract interpretation of saving and loading against a symbolic file system whose operations may fail (encodings as invertible terms), and of the derived encoders and decoders field by field",
 "C27": "type-driven order-taint analysis over the compiled program: every consumer of an iterator over a randomly ordered container, and every random source, judged for whether the order can reach a result",
 "C40": "abstract execution of the pattern construction and of the match construction on families of concrete pattern and host circuits; every reported region compared with the definition of an occurrence, the comparison key of operations checked to tell them apart",
}
NOTE = {}
NA = {
    "C31": "semantic equivalence of whole optimised programs quantifies over all input graphs and all runs of a rewriting engine whose rules are data (ECC files); no sound static argument in reach bounds it. Its static ingredients are claimed separately (C01-C04, C21, C23, C24).",
    "C32": "panic-freedom over all malformed inputs needs bounds on runtime graph shapes and on the external hugr, serde and pest crates; a syntactic ban on unwrap/index would flag hundreds of sites that are unreachable by invariants established elsewhere.",
    "C33": "completeness of the matcher is a property of the portmatching automaton (an external crate) over all patterns and circuits; the source of this repository contains no local construct that decides it.",
    "C34": "termination and deadlines depend on wall-clock time, thread scheduling and the size of the runtime search space.",
}
NYI = "no check built yet"
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if os.path.exists(f"{here}/sa/rules/{i.lower()}.py") and i in TECH:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick",
                       "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "technique": "static analysis: " + TECH[i], "level": "other",
                       "level_note": NOTE.get(i, "static analysis over the MIR of the current tree; every obligation is decided on the source, none by running it")})
    else:
        na.append({"property": i, "reason": NA.get(i, NYI)})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
