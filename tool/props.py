#!/usr/bin/env python3
"""The list of properties; writes /verif/properties.jsonl and /verif/MANIFEST.json.
Run after editing: python3 tool/props.py"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mechanism, observe, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mechanism=mechanism,
                  observe=observe, technique=technique, note=note, na=na))


NOTE = ("Sound up to the stated abstraction for the current source: every instance of the rule in the code is enumerated on every run and each is "
        "decided from the type-checked AST (or grammar/scanner automaton); stand-in headers replace takatori/yugawara, of which only types, "
        "signatures and names are used. ")

# ------------------------------------------------------------------------------------------------ syntax tree

prop("C01", "A copy of a syntax tree equals the original in every part, positions included",
     "Cloning or copying any syntax tree element (by clone, by copy or move, from an lvalue or an rvalue) yields a new element of the same class in which "
     "every attribute, every child and the source region equal those of the source, and nothing else is taken from anywhere. "
     "Likewise an element constructed with a source region keeps exactly that region.",
     ["programs", "inputs"], "for every class of syntax tree element, every attribute of it, and every tree of any shape",
     "Unit tests clone one or two sample objects of each class and compare with operator==, which ignores regions; optional, nested and rarely used members keep their defaults in those samples.",
     ["src/mizugaki/ast", "include/mizugaki/ast"],
     [("clone constructors (clone_tag_t)", "src/mizugaki/ast/**/*.cpp"), ("clone helpers", "src/mizugaki/ast/common/clone*.h, vector.h"), ("clone_wrapper", "include/mizugaki/ast/common/clone_wrapper.h")],
     ["X::clone()", "copy/move construction and assignment of value-like elements"],
     "interprocedural origin (dataflow) analysis of constructors over the type-checked AST",
     "Origins are flow-insensitive: a member is accepted if its only source is the same member of the copied object.")

prop("C02", "Two syntax trees compare equal exactly if every attribute and child is equal",
     "Comparing two syntax tree elements yields 'equal' if and only if they are of the same kind and every attribute and child (source positions excepted) is equal; "
     "comparison is reflexive, and 'not equal' is its exact negation.",
     ["programs", "inputs"], "for every class of element, every pair of elements, every subset of attributes that differ",
     "Tests compare a handful of pairs which mostly differ everywhere or nowhere; an attribute left out of a comparison is invisible to them (and makes every other parser test weaker).",
     ["src/mizugaki/ast", "src/mizugaki/ast/compare_utils.h"],
     [("operator== / equals", "src/mizugaki/ast/**/*.cpp"), ("eq helpers", "src/mizugaki/ast/compare_utils.h")],
     ["operator==", "operator!=", "equals()"],
     "path enumeration of boolean functions into cubes of atomic comparisons, over the type-checked AST",
     "Paths of each comparison are enumerated completely (loop-free code; helpers inlined).")

prop("C03", "The serialized form of a syntax tree shows every attribute under its name",
     "Serializing any syntax tree element emits its kind, its source region and every one of its attributes and children, each exactly under the name of the attribute, "
     "whatever the values of the other attributes; streaming an element or enumeration prints that very value.",
     ["programs", "inputs"], "for every class of element and every member of it",
     "Tests print elements only to see that printing does not crash; no expected text is compared.",
     ["src/mizugaki/ast", "src/mizugaki/ast/common/serializers.h"],
     [("serialize()", "src/mizugaki/ast/**/*.cpp"), ("serializer helpers", "src/mizugaki/ast/common/serializers.h")],
     ["operator<<(ostream, element)", "object_acceptor events"],
     "dataflow from members to acceptor calls over the type-checked AST",
     "The acceptor's own behaviour (takatori) is outside.")

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")).read())


def main():
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids))
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            j = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["tests"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                             "observe_at": p["observe"], "hook_needed": None}}
            f.write(json.dumps(j) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        c = "python3 checks/run.py " + p["id"]
        checks.append({"property": p["id"], "quick_cmd": c, "thorough_cmd": c, "technique": "static analysis: " + p["technique"],
                       "level": "other", "level_note": NOTE + (p["note"] or "")})
    m = {"version": 1, "setup_cmd": "sh tool/build.sh && python3 checks/run.py warm", "checks": checks, "not_applicable": na,
         "notes": "No hooks are needed in /repo. Every check re-extracts facts from /repo's current source (about 20 s with 8 cores)."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
