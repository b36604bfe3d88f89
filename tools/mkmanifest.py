#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
NOTE = {
 "C01": "every generated query, against a reference parser written from the SPARQL 1.1 grammar: accepted whole, identical tree",
 "C02": "generated group graph patterns of every kind, nested and in every order, against the reference parser",
 "C03": "generated triples groups in patterns, templates and quads, against the reference parser",
 "C04": "generated property paths before every kind of object, against the reference parser",
 "C05": "generated expressions in nine contexts, against the reference parser",
 "C06": "every built-in, aggregate, EXISTS and IRI call with generated arguments, right and wrong arities, against the reference parser",
 "C07": "names with generated characters, plus a sweep of all Unicode scalar values at each kind of position, against the reference lexer",
 "C08": "string literals of all quote kinds with generated content, tags and datatypes, against the reference lexer and parser",
 "C09": "numerals of all kinds, values computed independently from their text, against the reference parser",
 "C10": "generated modifiers with boundary values, against the reference parser",
 "C11": "generated VALUES blocks in all three positions, against the reference parser",
 "C12": "every graph management operation with every target and SILENT, against the reference parser (update parser reached through the guarded hook)",
 "C13": "generated data updates and sequences, against the reference parser (update parser reached through the guarded hook)",
 "C14": "generated prologues before queries and updates, against the reference parser and against the query parsed alone",
 "C15": "metamorphic: one token sequence in several layouts must give one tree",
 "C16": "metamorphic: one token sequence in several letter cases must give one tree; changed case elsewhere must change the tree",
 "C17": "arbitrary, damaged and well-formed texts, all prefixes, all parsers, repeated and in other threads; panics, Incomplete, dead processes and runaway work are failures",
 "C18": "texts damaged by token and character mutation; the reference parser decides membership and the first offending token",
 "C19": "texts with generated tails; suffix law, re-parse law, exact remainder",
 "C20": "nested and repeated families at growing sizes, whole, cut and damaged; allocation work metered, absolute and growth bounds",
 "C21": "differential between the entry points, and one pattern in every query form",
 "C22": "generated arguments against the stated rules",
 "C23": "generated requests, each paired with itself in another layout and letter case and with variants that differ in one place (a name, string, number, operator, keyword, the order of two terms, any small change); equality, inequality, clones and debug texts must agree with the difference of the texts",
}
TECH = {
 "C15": "property-based testing: metamorphic relation over generated layouts",
 "C16": "property-based testing: metamorphic relation over generated letter cases",
 "C17": "fuzzing: grammar-aware and arbitrary inputs, totality and determinism oracle",
 "C18": "grammar-mutation fuzzing against a reference recogniser",
 "C19": "property-based testing: suffix and re-parse laws over generated tails",
 "C20": "property-based testing: metered work over generated size families",
 "C21": "differential property-based testing between entry points",
 "C22": "property-based testing against the stated rules",
 "C23": "property-based testing: metamorphic relation over pairs of texts that differ in one place",
}
checks = []
for k in sorted(NOTE):
    checks.append({
        "property": k,
        "quick_cmd": "./check.sh " + k,
        "thorough_cmd": "./check.sh " + k,
        "evidence_file": "evidence/%s.json" % k,
        "technique": TECH.get(k, "property-based testing: grammar-based generation against a reference parser (differential oracle)"),
        "level": "exploration",
        "level_note": NOTE[k] + ". Fixed seeded case count, no absence claim; trusts the reference lexer/parser in /verif/harness and the derived Debug output as the tree's identity.",
    })
m = {
    "version": 1,
    "setup_cmd": "cd harness && cargo build --release --offline && { CARGO_TARGET_DIR=target/cov RUSTC_WRAPPER=$PWD/cov-wrapper.sh cargo build --release --offline || true; }",
    "hooks": {
        "guard": "cfg(nom_sparql_verif)",
        "enable": "RUSTFLAGS --cfg nom_sparql_verif, set in harness/.cargo/config.toml",
        "source_commits": ["a1d26d3be37beae53eb8e0a1c96dc956730f1923"],
    },
    "checks": checks,
    "not_applicable": [],
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
