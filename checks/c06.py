"""C06: compatibility of source and sink types."""

import itertools

from mc.types import Builder, arr, assignable, describe, enum, flatten, normal, rec, union, verdict

PID = "C06"
LEVEL = "model_checking"
RULE = (
    "every ordered pair of type terms up to the nesting bound (primitives, Any, enums, "
    "unions, arrays and records over them), built with the type classes of every CWL "
    "version, under every merge method, judged against a reference relation; flattening "
    "of every term; every link with valueFrom; unknown merge methods"
)
ASSUMPTIONS = ["record fields and enum symbols are compared by their short names"]
REQUIRED_OUTCOMES = ("pass", "warning", "exception", "rejected-merge")
FAMILIES = [
    ("schema_salad.metaschema", "", "schema_salad.metaschema", ""),
    ("cwl_utils.parser.cwl_v1_0", "CommandOutput", "cwl_utils.parser.cwl_v1_0", "CommandInput"),
    ("cwl_utils.parser.cwl_v1_1", "CommandOutput", "cwl_utils.parser.cwl_v1_1", "CommandInput"),
    ("cwl_utils.parser.cwl_v1_2", "CommandOutput", "cwl_utils.parser.cwl_v1_2", "CommandInput"),
    ("cwl_utils.parser.cwl_v1_2", "Input", "cwl_utils.parser.cwl_v1_2", "Output"),
]


def terms(tier):
    p = ["null", "int", "string", "File", "Any"]
    e = [enum("a"), enum("a", "b"), enum("b", "c")]
    out = list(p) + e
    lvl1 = [arr(x) for x in p + e]
    lvl1 += [union(a, b) for a, b in itertools.permutations(p, 2)]
    lvl1 += [union("null", "int", "string"), union("int", "string", "File"), union("null", enum("a"), "int")]
    lvl1 += [rec(f=x) for x in p + e[:1]]
    lvl1 += [rec(f=a, g=b) for a, b in (("int", "string"), ("int", "int"), ("null", "string"), ("Any", "int"))]
    lvl1 += [rec(g="int"), rec()]
    out += lvl1
    core = [arr("int"), arr("string"), union("null", "int"), union("int", "string"), union("null", "string"),
            rec(f="int"), rec(f="string"), rec(f="int", g="string"), enum("a", "b"), union("null", "Any")]
    lvl2 = [arr(x) for x in core if x not in e]
    lvl2 += [union(a, b) for a, b in itertools.permutations(core[:8] + ["null", "int"], 2)]
    lvl2 += [rec(f=x) for x in core] + [rec(f=x, g="int") for x in core[:6]]
    out += lvl2
    core2 = [arr(union("int", "string")), arr(union("null", "int")), arr(arr("int")), rec(f=union("int", "string")),
             rec(f=union("null", "int")), rec(f=arr("int")), arr(rec(f="int"))]
    lvl3 = [arr(x) for x in core2] + [union("null", x) for x in core2] + [rec(f=x) for x in core2]
    lvl3 += [union(x, "int") for x in core2]
    out += lvl3
    if tier == "thorough":
        lvl4 = [arr(x) for x in lvl3] + [rec(f=x) for x in lvl3] + [union("null", x, "string") for x in lvl3]
        lvl4 += [union(a, b) for a, b in itertools.combinations(core2, 2)]
        lvl4 += [rec(f=a, g=b) for a, b in itertools.product(core2, core2)]
        out += lvl4
    seen = set()
    res = []
    for t in out:
        if t not in seen:
            seen.add(t)
            res.append(t)
    return res


def BOUNDS(tier):
    return {"type_terms": len(terms(tier)), "nesting": 5 if tier == "thorough" else 4,
            "families": len(FAMILIES), "merge_methods": 4}


def items(tier):
    n = len(terms(tier))
    fams = range(len(FAMILIES)) if tier == "thorough" else (0, 3)
    for f in range(len(FAMILIES)):
        for i in range(n):
            if f in fams or i % 3 == f % 3:
                yield {"fam": f, "src": i, "tier": tier}


def run_item(item, rec_):
    from cwl_utils.parser.utils import can_assign_src_to_sink, check_types, merge_flatten_type
    from schema_salad.exceptions import ValidationException

    ts = terms(item["tier"])
    sm, sp, km, kp = FAMILIES[item["fam"]]
    src = ts[item["src"]]
    build_s = Builder(sm, sp, "file:///wf.cwl#step/run")
    build_k = Builder(km, kp, "file:///tool.cwl#in")
    s = build_s(src)
    got = normal(describe(merge_flatten_type(s)))
    rec_.step()
    rec_.check(got == normal(flatten(src)), "flattening %r gave %r" % (src, got))
    for sink in ts:
        rec_.plain_states += 1
        k = build_k(sink)
        for strict in (True, False):
            rec_.step()
            g = can_assign_src_to_sink(s, k, strict)
            rec_.check(bool(g) == assignable(src, sink, strict),
                       "assigning %r to %r (strict=%s) judged %s" % (src, sink, strict, g))
        for merge in (None, "merge_nested", "merge_flattened"):
            rec_.step()
            want = verdict(src, sink, merge)
            g = check_types(s, k, merge)
            rec_.outcome(want)
            rec_.sample("%s-%s" % (merge, want), {"src": src, "sink": sink})
            rec_.check(g == want, "link %r -> %r, merge %s judged %s instead of %s" % (src, sink, merge, g, want))
            rec_.step()
            g = check_types(s, k, merge, "$(1)")
            rec_.check(g == "pass", "link %r -> %r with valueFrom judged %s" % (src, sink, g))
        rec_.step()
        rec_.trace()
        for bad in ("merge_bogus", ""):
            try:
                g = check_types(s, k, bad)
            except ValidationException:
                rec_.outcome("rejected-merge")
                continue
            rec_.fail("merge method %r of %r -> %r judged %s" % (bad, src, sink, g))
        # judging must not change the types
        rec_.check(describe(k) == sink, "sink %r changed" % (sink,))
    rec_.check(describe(s) == src, "source %r changed" % (src,))
