"""C23: generated JSON Schemas keep exactly the definitions in use."""

import copy
import itertools
import json
import os
import tempfile

from mc.grammar import VERSIONS
from mc.tree import fresh

PID = "C23"
LEVEL = "model_checked_code"
RULE = ("one state per reference graph: every set of references between the definitions (self references and cycles included) x every "
        "set of references from the properties, for every number of definitions up to the bound x the place of the references inside "
        "their owner x naming; the definitions kept are compared with the transitive closure computed on the graph itself")
ASSUMPTIONS = ["every reference of a definition or property is to an existing definition"]
REQUIRED_OUTCOMES = ("none", "some", "all", "cyclic", "document", "chain")
ITEM_TIMEOUT = 800
EX = {}
PLACES = ("field", "items", "anyOf", "oneOf", "nested", "map", "mixed")
NAMES = {"letters": ["A", "B", "C", "D", "E"], "prefixes": ["A", "AA", "AAB", "B", "BA"],
         "cwl": ["File", "Directory", "MyRec", "MyRec2", "Any"], "words": ["properties", "definitions", "items", "type", "required"]}


def setup(tier):
    from cwl_utils import inputs_schema_gen
    from cwl_utils.parser import load_document_by_uri

    EX.update(slim=inputs_schema_gen.slim_definitions, deps=inputs_schema_gen.get_property_dependencies, gen=inputs_schema_gen.cwl_to_jsonschema, uri=load_document_by_uri,
              dir=os.path.realpath(tempfile.mkdtemp()))


def run_item(item, rec):
    globals()["run_" + item[0]](rec, *item[1:])


def owner(refs, place, extra):
    """A schema with references to some definitions."""
    rs = [{"$ref": "#/definitions/" + r} for r in refs]
    if place == "field":
        d = {"type": "object", "properties": {"f%d" % i: r for i, r in enumerate(rs)}, "required": ["f%d" % i for i in range(len(rs))]}
    elif place == "items":
        d = {"type": "object", "properties": {"f%d" % i: {"type": "array", "items": r} for i, r in enumerate(rs)}}
    elif place in ("anyOf", "oneOf"):
        d = {place: [{"type": "null"}] + rs + [{"type": "string", "description": extra}]}
    elif place == "map":
        d = {"type": "object", "additionalProperties": {"anyOf": rs or [{"type": "null"}]}}
    elif place == "nested":
        d = {"type": "object", "properties": {"a": {"type": "object", "properties": {"b": {"type": "array", "items": {"type": "array", "items": {"oneOf": rs + [{"type": "null"}]}}}}}}}
    else:
        d = {"type": "object", "properties": {"f%d" % i: (r, {"type": "array", "items": r}, {"anyOf": [{"type": "null"}, r]})[i % 3] for i, r in enumerate(rs)},
             "description": extra}
    return d


def schema_of(n, roots, edges, place, names):
    props = {}
    for i, k in enumerate(roots):
        inner = {"$ref": "#/definitions/" + names[k]}
        props["p%d" % i] = inner if place == "field" else owner([names[k]], place, "#/definitions/none")
    props["plain"] = {"type": "string", "description": "see #/definitions/" + names[0]}
    return {
        "$schema": "http://json-schema.org/draft-07/schema#",
        "definitions": {names[k]: owner([names[m] for m in range(n) if edges >> (k * n + m) & 1], place, names[(k + 1) % n]) for k in range(n)},
        "type": "object", "properties": props, "required": ["p%d" % i for i in range(len(roots))], "title": "t",
    }


def closure(n, roots, edges):
    seen = set(roots)
    todo = list(roots)
    while todo:
        k = todo.pop()
        for m in range(n):
            if edges >> (k * n + m) & 1 and m not in seen:
                seen.add(m)
                todo.append(m)
    return seen


def check_one(rec, n, roots, edges, place, naming):
    names = NAMES[naming]
    schema = schema_of(n, roots, edges, place, names)
    before = copy.deepcopy(schema)
    rec.plain_states += 1
    rec.step(1)
    rec.trace(1)
    where = "%d definitions, properties refer to %s, edges %s, %s, %s" % (
        n, [names[k] for k in roots], [names[k] + ">" + names[m] for k in range(n) for m in range(n) if edges >> (k * n + m) & 1], place, naming)
    try:
        out = EX["slim"](schema)
    except Exception as exc:
        rec.fail("%s: %s: %s" % (where, type(exc).__name__, str(exc)[-200:]))
        return False
    keep = closure(n, roots, edges)
    want = dict(before, definitions={k: v for i, (k, v) in enumerate(before["definitions"].items()) if i in keep})
    if out != want:
        got = sorted(out.get("definitions", {}))
        rec.fail("%s: kept %s instead of %s" % (where, got, sorted(want["definitions"])) if got != sorted(want["definitions"]) else where + ": other parts changed: " + json.dumps(out)[:400])
        return False
    if schema != before:
        rec.fail("%s: the given schema is changed" % where)
        return False
    # what is returned does not share parts with what was given
    for d in out["definitions"].values():
        d["changed"] = 1
    for p in out["properties"].values():
        p["changed"] = 1
    if schema != before:
        rec.fail("%s: the result shares parts with the given schema" % where)
        return False
    if any(edges >> (k * n + m) & 1 and edges >> (m * n + k) & 1 for k in range(n) for m in range(k)):
        rec.outcome("cyclic")
    rec.outcome("none" if not keep else "all" if len(keep) == n else "some")
    return True


def run_graphs(rec, n, place, naming, lo, hi):
    for edges in range(lo, hi):
        for r in range(n + 1):
            for roots in itertools.combinations(range(n), r):
                if not check_one(rec, n, roots, edges, place, naming):
                    return


def run_orders(rec, place):
    """Every order (and repetition) of up to three references from the properties."""
    for r in range(4):
        for roots in itertools.product(range(3), repeat=r):
            for edges in range(512):
                if not check_one(rec, 3, roots, edges, place, "letters"):
                    return


def run_chain(rec, place):
    """Long chains: as many definitions as there are in real schemas."""
    for n in range(1, 23):
        names = ["D%d" % i for i in range(n)]
        for back in (None, 0, n // 2):
            schema = {"definitions": {names[i]: owner([names[i + 1]] if i + 1 < n else [names[back]] if back is not None else [], place, "x") for i in range(n)},
                      "properties": {"p": {"$ref": "#/definitions/D0"}}, "type": "object"}
            schema["definitions"]["Lost"] = owner(names, place, "x")
            before = copy.deepcopy(schema)
            out = EX["slim"](schema)
            rec.plain_states += 1
            rec.step(2)
            rec.trace(1)
            del before["definitions"]["Lost"]
            if out != before:
                rec.fail("chain of %d: wrong definitions kept: %s" % (n, sorted(out["definitions"])))
                return
            deps = EX["deps"](schema["properties"], schema)
            if sorted(deps) != sorted(names):
                rec.fail("chain of %d: %d dependencies reported for %d definitions" % (n, len(deps), n), key=["dependencies"])
                return
    rec.outcome("chain")


def run_document(rec, v, n):
    """The same seen from documents: record types that refer to each other."""
    slots = [(k, m) for k in range(n) for m in range(k)]
    root = fresh(os.path.join(EX["dir"], "case"))
    for bits in range(1 << len(slots)):
        refs = {k: [m for i, (a, m) in enumerate(slots) if a == k and bits >> i & 1] for k in range(n)}
        types = [{"type": "record", "name": "t%d" % k, "fields": [{"name": "x", "type": ("int", "File", "Directory?", "Any")[k % 4]}] +
                  [{"name": "f%d" % m, "type": ["null", "#t%d" % m] if (k + m) % 2 else {"type": "array", "items": "#t%d" % m}} for m in refs[k]]} for k in range(n)]
        edges = sum(1 << (k * n + m) for k in range(n) for m in refs[k])
        for r in range(n + 1):
            for roots in itertools.combinations(range(n), r):
                doc = {"cwlVersion": v, "class": "Workflow", "inputs": [{"id": "i%d" % k, "type": "#t%d" % k} for k in roots], "outputs": [], "steps": [],
                       "requirements": [{"class": "SchemaDefRequirement", "types": types}]}
                path = os.path.join(root, "w.cwl")
                with open(path, "w") as h:
                    json.dump(doc, h)
                schema = EX["gen"](EX["uri"](path))
                rec.plain_states += 1
                rec.step(2)
                rec.trace(1)
                keep = closure(n, roots, edges)
                used = {("", "File", "Directory", "Any")[k % 4] for k in keep}
                want = {"T%d" % k for k in keep}
                have = {k for k in schema["definitions"] if k[:1] == "T" and k[1:].isdigit()}
                prob = []
                if have != want:
                    prob.append("kept %s instead of %s" % (sorted(have), sorted(want)))
                for name in ("File", "Directory", "Any"):
                    if name in used and name not in schema["definitions"]:
                        prob.append("no definition of " + name)
                if not used - {""} and set(schema["definitions"]) - want:
                    prob.append("unused definitions %s" % sorted(set(schema["definitions"]) - want))
                if prob:
                    rec.fail("%s record types %s, inputs of types %s: %s" % (v, refs, roots, "; ".join(prob)))
                    return
                rec.outcome("document")



def items(tier):
    for place in PLACES:
        for naming in NAMES:
            for n in range(1, 4):
                size = 1 << (n * n)
                for lo in range(0, size, 256):
                    yield ["graphs", n, place, naming, lo, min(lo + 256, size)]
        yield ["orders", place]
        yield ["chain", place]
    for place in PLACES if tier == "thorough" else ("mixed",):
        for lo in range(0, 1 << 16, 2048):
            yield ["graphs", 4, place, "cwl", lo, lo + 2048]
    for v in VERSIONS:
        for n in (1, 2, 3) if tier != "thorough" else (1, 2, 3, 4):
            yield ["document", v, n]


def BOUNDS(tier):
    return {"definitions": 4, "places": PLACES, "namings": sorted(NAMES), "chain": 22, "record types in documents": 4 if tier == "thorough" else 3}
