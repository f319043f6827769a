#!/usr/bin/env python3
"""Writes bin/claims.json and MANIFEST.json from this table (run by hand when a claim changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ["the user's token and node types have lawful Eq/Ord/Hash and a faithful Clone",
          "user-supplied closures (validators, thunks, middleware) are deterministic and do not panic",
          "no allocation exceeds isize::MAX bytes (usize is 64 bits)",
          "the contracts of std, once_cell and regex listed in the trusted base",
          "verified configuration: cfg(not(debug_assertions)); the debug-only logging runs in the bounded engine only"]
G = "grammars are random trees of the built-in productions over small alphabets (seeded), positions and inputs random or enumerated; a case is distinct when the grammar, input and position differ; "
C = {
 "C01": dict(bounded="tokenizers", rule="random lexeme lists (built-in and user-written) over random texts of up to ~12 bytes; distinct by (lexer, text)"),
 "C02": dict(bounded="tokenizers and state lexemes", rule="random multi-state lexers with push/pop/replace/discard actions over random texts; distinct by (lexer, text)"),
 "C03": dict(bounded="punctuation lexeme and production (constructors, match)", rule="random punctuation sets over a 3 letter alphabet, all registration orders sampled, all positions; distinct by (set, text)"),
 "C04": dict(bounded="lexeme building blocks", rule="random stacks of lexeme building blocks over random texts and pointers; distinct by (lexeme, text, pointer)"),
 "C05": dict(bounded="terminal productions", rule="every terminal at every position of token streams of up to 4 tokens and texts of up to 5 bytes, in each mode; distinct by (terminal, input, position)"),
 "C06": dict(bounded="sequences, lists, separated lists, optionals", rule=G + "compared with a reference interpreter written from the property"),
 "C07": dict(bounded="choices and suffixes", rule=G + "compared with a reference interpreter written from the property"),
 "C08": dict(bounded="wrappers", rule=G + "compared with a reference interpreter written from the property"),
 "C09": dict(bounded="all combinators", rule=G + "with rejecting validations; the parser's error is compared with the reference"),
 "C10": dict(bounded="error reports", rule=G + "full parses whose error pointer and message are compared with the reference's furthest match"),
 "C11": dict(bounded="", rule="random byte texts with many line feeds, all positions, repeated and shuffled queries; distinct by (text, position)"),
 "C12": dict(bounded="memoisation", rule=G + "the same grammar with and without its memoising wrappers"),
 "C13": dict(bounded="stream navigation and structural switches", rule="all token streams of up to ~6 tokens over structural/non-structural kinds, all indices and pointers; plus switched productions against the reference"),
 "C14": dict(bounded="", rule="random trees of up to ~30 nodes; distinct by (tree, query)"),
 "C15": dict(bounded="node spans", rule=G + "span predicate evaluated on every produced node"),
 "C16": dict(bounded="grammar validation", rule="random rule systems (up to 5 rules, unassigned ones included); acceptance compared with a reachability oracle over the grammar, accepted ones are also parsed with"),
 "C17": dict(bounded="nullability and first sets", rule=G + "nullability, hidden nullability and first sets compared with the least fixed point; and with observed matches"),
 "C18": dict(bounded="repetitions", rule=G + "elements and separators that can match nothing, iteration counts observed through counting productions, watchdog for divergence"),
 "C19": dict(bounded="parser entry points", rule="random grammars and texts through every parser entry point, repeated on one parser object; distinct by (grammar, text)"),
}
LEVEL = {}
NOTE = {}
exec(open(os.path.join(V, "bin/levels.py")).read())
claims, checks = {}, []
for p, d in sorted(C.items()):
    lv = LEVEL.get(p, "exploration")
    note = NOTE.get(p, "No function of this property is under contract yet; the bounded stand-in decides.")
    if d["bounded"] and lv != "proof":
        note += " Bounded, not proved: " + d["bounded"] + "."
    claims[p] = dict(level=lv, note=note, rule=d["rule"], bounded=d["bounded"] if lv != "proof" else "", assumptions=COMMON)
    checks.append(dict(property=p, quick_cmd="python3 bin/check.py " + p, thorough_cmd="python3 bin/check.py %s --tier thorough" % p,
                       evidence_file="evidence/%s.json" % p,
                       technique=TECH.get(p, "contracts on the real functions (Verus) where reached; bounded reference comparison for the rest"),
                       level=lv, level_note=note))
json.dump(claims, open(os.path.join(V, "bin/claims.json"), "w"), indent=1)
m = dict(version=1, setup_cmd="bash bin/setup.sh",
         hooks=dict(guard="cfg(vf_hooks)", enable="RUSTFLAGS='--cfg vf_hooks' (set by bin/check.py when it builds harness/)", source_commits=["a752f9673a5a2642973ce6a67e0bba4fd2cb2fab"]),
         checks=checks, not_applicable=[])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
