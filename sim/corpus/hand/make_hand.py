#!/usr/bin/env python3
"""Writes the hand-made models h002.. (sizes the random generator rarely reaches)."""
import json
from pathlib import Path

HERE = Path(__file__).resolve().parent
ONE = {"N": 1}
LITS = ["String", "Boolean", "Integer", "Long", "NonNeg", "Positive", "Int", "Decimal", "Float", "Date"]

def elem(name, ty, lo=1, hi=ONE, refers=None):
    return {"name": name, "refers": refers, "ty": ty, "min": lo, "max": hi, "default": None, "docs": None}
def lit(l):
    return {"Lit": l}
def named(f, n):
    return {"Named": {"file": f, "name": n}}
def attr(name, ty, usage):
    return {"name": name, "ty": ty, "usage": usage}
def cplx(attrs, body):
    return {"attrs": attrs, "body": body}
def seq(parts, lo=1, hi=ONE):
    return {"Seq": {"min": lo, "max": hi, "parts": parts}}
def decl(name, kind):
    return {"name": name, "docs": None, "kind": kind}
def file(path, tns, refs, decls, qualified=True, style=0):
    return {"path": path, "tns": tns, "qualified": qualified, "style": style, "refs": refs, "refs_last": False, "decls": decls}
def save(name, files):
    (HERE / f"{name}.json").write_text(json.dumps({"files": files}))

# h002: more than ten namespaces, each file qualified, each type used by the root element
n = 13
letters = "Alpha Bravo Charlie Delta Echo Foxtrot Golf Hotel India Juliett Kilo Lima".split()
files = [file("main.xsd", "urn:n0", list(range(1, n)), [
    decl("Root", {"Element": {"Complex": cplx([], seq(
        [{"Elem": elem(letters[i - 1], named(i, letters[i - 1]), 0 if i % 3 == 0 else 1, "Unbounded" if i % 4 == 0 else ONE)} for i in range(1, n)]))}})])]
for i in range(1, n):
    files.append(file(f"part{i}.xsd", f"urn:n{i}", [], [decl(letters[i - 1], {"Complex": cplx(
        [attr("no", lit("Int"), "Required")], seq([{"Elem": elem("first", lit(LITS[i % len(LITS)]))}, {"Elem": elem("second", lit("String"), 0)}]))})]))
save("h002", files)

# h003: wide declarations
words = "ant bee cat dog elk fox gnu hen ibis jay kite lark mole newt owl pig quail ram seal toad urchin vole wolf yak zebu".split()
two = [a + b for a in ("big", "tiny") for b in words]
wide = seq([{"Elem": elem(w, lit(LITS[i % len(LITS)]), [1, 0, 0, 1, 0][i % 5], "Unbounded" if i % 7 == 0 else ONE)} for i, w in enumerate(two)])
save("h003", [file("main.xsd", "urn:wide", [], [
    decl("Wide", {"Element": {"Complex": cplx([attr("a" + w, lit(LITS[i % len(LITS)]), ["Optional", "Required"][i % 2]) for i, w in enumerate(words)], wide)}}),
    decl("Pick", {"Element": {"Complex": cplx([], {"Choice": [{"Elem": elem(w, lit(LITS[i % len(LITS)]), 1, "Unbounded" if i % 9 == 4 else ONE)} for i, w in enumerate(words)]})}}),
    decl("Every", {"Element": {"Complex": cplx([], {"All": [elem(w, lit(LITS[i % len(LITS)]), i % 2) for i, w in enumerate(words)]})}}),
    decl("Mode", {"Simple": {"base": "String", "enums": [w.upper() + x for w in words for x in ("", "-one", "-two")], "facets": []}}),
    decl("Modes", {"Element": {"Complex": cplx([attr("kind", named(0, "Mode"), "Required")], seq([{"Elem": elem("mode", named(0, "Mode"), 1, "Unbounded")}]))}}),
    decl("Loose", {"Element": {"Complex": cplx([], seq([{"Seq": {"min": 0, "parts": [{"Elem": elem(w, lit("String"), 0 if i < 8 else 1)} for i, w in enumerate(words[:9])]}},
                                                       {"Elem": elem("tail", lit("Int"))}]))}}),
])])

# h004: a chain of extensions, each level with attributes and elements, and one of simple content
chain = [decl("Level0", {"Complex": cplx([attr("at0", lit("String"), "Required")], seq([{"Elem": elem("el0", lit("Int"))}]))})]
for i in range(1, 7):
    chain.append(decl(f"Level{i}", {"Complex": cplx([attr(f"at{i}", lit(LITS[i]), "Optional" if i % 2 else "Required")],
        {"Extension": {"base": {"file": 0, "name": f"Level{i - 1}"}, "seq": [1, [{"Elem": elem(f"el{i}", lit(LITS[i]), 0 if i == 3 else 1)}]] if i != 5 else None}})}))
text = [decl("Text0", {"Complex": cplx([attr("k0", lit("String"), "Required")], {"SimpleContent": lit("Decimal")})})]
for i in range(1, 5):
    text.append(decl(f"Text{i}", {"Complex": cplx([attr(f"k{i}", lit(LITS[i]), "Optional")], {"SimpleContent": named(0, f"Text{i - 1}")})}))
save("h004", [file("main.xsd", "urn:chain", [], chain + text + [
    decl("Top", {"Element": {"Complex": cplx([], seq([{"Elem": elem("deep", named(0, "Level6"))}, {"Elem": elem("less", named(0, "Level4"), 0, "Unbounded")}, {"Elem": elem("text", named(0, "Text4"), 1)}]))}}),
    decl("Deepest", {"Element": named(0, "Level6")}),
    decl("Worded", {"Element": named(0, "Text4")}),
])])

# h005: deep nesting and recursion
def nest(d):
    parts = [{"Elem": elem(f"in{d}", lit("String") if d else lit("Int"), 1)}]
    if d < 9:
        parts.append({"Elem": elem(f"sub{d}", {"Complex": cplx([], seq(nest(d + 1)))}, 0 if d % 2 else 1)})
    return parts
def groups(d):
    parts = [{"Elem": elem(f"g{d}", lit("Int"), 1)}]
    if d < 6:
        parts.append({"Seq": {"min": d % 2, "parts": groups(d + 1)}})
    return parts
save("h005", [file("main.xsd", "urn:deep", [], [
    decl("Deep", {"Element": {"Complex": cplx([], seq(nest(0)))}}),
    decl("Groups", {"Element": {"Complex": cplx([], seq(groups(0)))}}),
    decl("Tree", {"Complex": cplx([attr("id", lit("Int"), "Required")], seq([{"Elem": elem("leaf", lit("String"), 0)}, {"Elem": elem("branch", named(0, "Tree"), 0, "Unbounded")}]))}),
    decl("Forest", {"Element": {"Complex": cplx([], seq([{"Elem": elem("tree", named(0, "Tree"), 1, "Unbounded")}]))}}),
], qualified=False)])

# h006/h007: files of different qualification; the one that differs declares only choices, only attributes, or only text
def mixed(name, main_q):
    save(name, [
        file("main.xsd", "urn:m0", [1, 2, 3], [
            decl("Order", {"Element": {"Complex": cplx([], seq([
                {"Elem": elem("way", named(1, "Way"))}, {"Elem": elem("tag", named(2, "Tag"), 0, "Unbounded")},
                {"Elem": elem("note", named(3, "Note"), 0)}]))}}),
        ], qualified=main_q),
        file("choices.xsd", "urn:m1", [], [
            decl("Way", {"Complex": cplx([], {"Choice": [{"Elem": elem("left", lit("Int"))}, {"Elem": elem("right", lit("String"), 1, "Unbounded")}, {"Elem": elem("on", lit("Boolean"))}]})}),
            decl("Turn", {"Element": named(1, "Way")}),
        ], qualified=not main_q),
        file("attrs.xsd", "urn:m2", [], [
            decl("Tag", {"Complex": cplx([attr("key", lit("String"), "Required"), attr("weight", lit("Decimal"), "Optional")], seq([]))}),
        ], qualified=not main_q),
        file("text.xsd", "urn:m0", [], [
            decl("Note", {"Complex": cplx([attr("lang", lit("String"), "Optional")], {"SimpleContent": lit("String")})}),
        ], qualified=main_q),
    ])
mixed("h006", True)
mixed("h007", False)

# h008/h009: elements that are qualified by their form and not by the default of their file
def formed(e, q):
    return dict(e, form=q)
def forms(name, main_q):
    save(name, [
        file("main.xsd", "urn:f0", [1], [
            decl("Parcel", {"Element": {"Complex": cplx([attr("id", lit("String"), "Required")], seq([
                {"Elem": elem("from", lit("String"))}, {"Elem": formed(elem("to", lit("String")), not main_q)},
                {"Elem": formed(elem("stamp", lit("Int"), 0, "Unbounded"), not main_q)},
                {"Choice": {"min": 0, "max": "Unbounded", "variants": [{"Elem": formed(elem("air", lit("Int")), not main_q)}, {"Elem": elem("sea", lit("Boolean"))}]}},
                {"Elem": formed(elem("label", named(1, "Label"), 0), True)}, {"Elem": formed(elem("other", named(1, "Label"), 0), False)}]))}}),
            decl("Crate", {"Element": {"Complex": cplx([], {"All": [elem("wide", lit("Int")), formed(elem("high", lit("Int"), 0), not main_q), formed(elem("deep", lit("Decimal")), main_q)]})}}),
            decl("Route", {"Element": {"Complex": cplx([], {"Choice": [{"Elem": formed(elem("north", lit("String")), not main_q)}, {"Elem": elem("south", lit("String"))}]})}}),
            decl("Case", {"Complex": cplx([], seq([{"Elem": formed(elem("lid", lit("String")), not main_q)}]))}),
            decl("Chest", {"Element": {"Complex": cplx([], {"Extension": {"base": {"file": 0, "name": "Case"}, "seq": [1, [{"Elem": formed(elem("lock", lit("Int"), 0), not main_q)}]]}})}}),
        ], qualified=main_q),
        file("label.xsd", "urn:f1", [], [
            decl("Label", {"Complex": cplx([], seq([{"Elem": formed(elem("line", lit("String"), 1, "Unbounded"), True)}, {"Elem": formed(elem("code", lit("Int"), 0), False)}]))}),
        ], qualified=main_q),
    ])
forms("h008", True)
forms("h009", False)

# h010: types that contain themselves, directly and through others
save("h010", [file("main.xsd", "urn:tree", [], [
    decl("Tree", {"Complex": cplx([attr("id", lit("Int"), "Required"), attr("note", lit("String"), "Optional")], seq(
        [{"Elem": elem("label", lit("String"), 0)}, {"Elem": elem("twig", named(0, "Tree"), 0, "Unbounded")}]))}),
    decl("Forest", {"Element": {"Complex": cplx([], seq([{"Elem": elem("trunk", named(0, "Tree"), 1, "Unbounded")}]))}}),
    decl("Ping", {"Complex": cplx([], seq([{"Elem": elem("pong", named(0, "Pong"), 0, "Unbounded")}, {"Elem": elem("end", lit("Boolean"))}]))}),
    decl("Pong", {"Complex": cplx([attr("no", lit("Decimal"), "Optional")], {"Choice": [
        {"Elem": elem("ping", named(0, "Ping"), 1, "Unbounded")}, {"Elem": elem("stop", lit("String"))}]})}),
    decl("Game", {"Element": named(0, "Ping")}),
])])
