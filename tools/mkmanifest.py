#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. NOTES: what each check's level rests on."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
NOTES = {
 "C01": "every case in the stated bounds is run on the real crate and compared with a hide-set / context-stack preprocessor written from the standard",
 "C02": "every operand pair, chain and argument position in the bounds, against the same preprocessor model",
 "C03": "every argument and nesting in the bounds, against the same preprocessor model",
 "C04": "every parameter list / argument shape in the bounds, against the same preprocessor model",
 "C05": "every operation history in the bounds, against an explicit map model checked after each step",
 "C06": "every body in the bounds; the symbolic result is instantiated with arguments and compared with the model's call",
 "C07": "every spelling over the alphabet up to the length bound and every suffix/boundary combination, against an independent literal grammar",
 "C08": "every character/escape sequence up to the bound per prefix, against an independent C literal decoder",
 "C09": "every literal, run of adjacent literals, embedding and character in the bounds; the strings in the generated Rust are read back (type, length, units) and compared with an independent C literal decoder",
 "C10": "every literal text, operator pair, chain and cast in the bounds; the generated Rust constant is evaluated by a typed Rust evaluator and compared bit for bit with a C evaluator",
 "C11": "every constant expression in the bounds; the generated Rust constant is evaluated by a typed Rust evaluator (overflow and type checks as rustc's) and compared with a C evaluator",
 "C12": "every expression over the operator alphabet up to the bound; the generated Rust is parsed and executed symbolically and compared with the C execution of the macro",
 "C13": "every expression, statement, name and declaration shape in the bounds; all generated Rust is parsed as Rust (expression, block, item) and macro-only constructs are checked for their arguments",
 "C14": "every token sequence over the stated alphabets up to the bound, every nesting depth and chain length in the bounds, run to completion on the real crate (no panic, abort or hang) with every entry point",
 "C15": "every body in the bounds under every combination of known parameter types, functions and members; kind, signature, type and parameter order of the generated code against a model of C's types, and its body's Rust types are checked",
 "C24": "every choice of known names and of answers in the bounds; the code has to be that for a plain name with the answer in its place, and what is reported or macro-like follows from what is unknown",
 "C16": "every sequence and order of specifiers, qualifiers and pointers in the bounds, in every place a type can be written, and every type of the context, against a table of C types",
 "C17": "every statement list in the bounds; C and generated Rust are executed symbolically along every path and their side-effect traces compared",
 "C18": "every qualifier placement, pointer, place and access form in the bounds; the logged volatile reads and writes of both executions must be the same",
 "C19": "every template, operand list, clobber list and spelling in the bounds; GCC's reading of the statement and rustc's reading of the generated asm! are executed over one machine and their effects compared",
 "C20": "every construct that names a C type or library item, every pair of prefixes and every target version in the bounds; the generated code has to be the code without configuration, rewritten by the stated rule",
 "C21": "every history of generations of one parsed macro under the contexts in the bounds, compared step by step with a freshly parsed macro",
 "C22": "every choice of gaps in the bounds, expansion and generated code compared with those without comments",
 "C23": "every character sequence up to the bound, against an independent C lexer",
}
NA = {}
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES:
        checks.append({"property": i, "quick_cmd": f"/verif/check {i} quick", "thorough_cmd": f"/verif/check {i} thorough",
          "technique": "explicit-state model checking: exhaustive bounded exploration of the real crate against a reference model",
          "level": "model_checking", "level_note": NOTES[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "/verif/check build", "checks": checks, "not_applicable": na}, open(root + "/MANIFEST.json", "w"), indent=1)
