"""C08: the type of one or several sources."""

import itertools

from mc.types import arr, describe, enum, kind, normal, rec, union
from mc.wf import SOURCES, Doc, flatten, lift_scatter, scratch, tool

PID = "C08"
LEVEL = "model_checking"
RULE = (
    "every list of up to two sources (three in a reduced alphabet) over producing construct "
    "x declared type, as string or list, with every merge and pick method and CWL version; "
    "lookups through the process, its parent and same-named parameters of another document; "
    "every unknown source at every position; every step input and output type; judged "
    "against a reference"
)
ASSUMPTIONS = [
    "conditional and looping steps contribute their declared type (only scatter and merges lift)",
    "pick methods other than first_non_null and the_only_non_null leave the array type",
]
REQUIRED_OUTCOMES = ("one", "several", "unknown", "step-input", "step-output")
VERSIONS = ("v1.0", "v1.1", "v1.2")
TYPES = ["int", "string", "File", arr("int"), union("null", "int"), arr("string"), rec(f="int"), rec(f="string"),
         union("int", "string"), enum("a", "b"), arr(arr("int")), arr(rec(f="int")), rec(f="int", g="int"),
         arr(union("null", "int"))]
KINDS = ("in", "out", "sc1", "sc1l", "nest1", "dot2", "flat2", "nest2", "nest3", "sub", "expr", "when")
MERGES = (None, "merge_nested", "merge_flattened")
PICKS = (None, "first_non_null", "the_only_non_null", "all_non_null")


def BOUNDS(tier):
    return {"types": len(TYPES), "source_kinds": len(KINDS), "sources": 3, "versions": list(VERSIONS)}


def items(tier):
    th = tier == "thorough"
    for v in VERSIONS:
        kinds = [k for k in KINDS if v in SOURCES[k]]
        for k in kinds:
            yield {"kind": "one", "v": v, "k": k}
        two = kinds if th else ("in", "out", "sc1", "nest2")
        for k1 in two:
            for t1 in range(len(TYPES) if th else 8):
                yield {"kind": "two", "v": v, "a": [k1, t1], "two": list(two), "nt": len(TYPES) if th else 8}
        for t in itertools.product(range(4), repeat=2):
            yield {"kind": "three", "v": v, "t": list(t)}
        yield {"kind": "unknown", "v": v}
        yield {"kind": "parent", "v": v}
        yield {"kind": "steps", "v": v}
        yield {"kind": "version", "v": v}


def want_type(types, merge, pick, n, version):
    alts = []
    for t in types:
        if normal(t) not in [normal(x) for x in alts]:
            alts.append(t)
    t = alts[0] if len(alts) == 1 else union(*alts)
    if merge == "merge_nested":
        t = arr(t)
    elif merge == "merge_flattened":
        if n == 1:
            t = flatten(t)
        else:
            elems = []
            for x in alts:
                for y in (x[1:] if kind(x) == "union" else (x,)):
                    elems.append(y[1] if kind(y) == "array" else y)
            t = arr(union(*elems))
    elif n > 1:
        t = arr(t)
    if version == "v1.2" and pick in ("first_non_null", "the_only_non_null") and kind(t) == "array":
        t = t[1]
    return normal(t)


def got_type(process, version, sources, parent, merge, pick):
    from cwl_utils.parser.utils import type_for_source

    return normal(describe(type_for_source(process, version, sources, parent, linkMerge=merge, pickValue=pick)))


def compare(rec_, process, version, sources, types, parent=None, what="", merges=MERGES):
    n = len(types)
    for merge in merges:
        for pick in PICKS if version == "v1.2" else PICKS[:2]:
            if n == 1 and merge == "merge_flattened" and kind(types[0]) == "union" and pick in PICKS[1:3]:
                continue
            rec_.step()
            rec_.trace()
            rec_.plain_states += 1
            want = want_type(types, merge, pick, n, version)
            got = got_type(process, version, sources, parent, merge, pick)
            rec_.outcome("one" if n == 1 else "several")
            rec_.check(got == want, "%s: sources %r of types %r, merge %s, pick %s: type %r instead of %r"
                       % (what, sources, types, merge, pick, got, want))


def run_item(item, rec_):
    globals()["run_" + item["kind"]](item, rec_)


def run_one(item, rec_):
    for i, t in enumerate(TYPES):
        doc = Doc(item["v"])
        ref = doc.producer(item["k"], "o0", t)
        sc = scratch()
        wf = sc.load(doc.d)
        full = sc.uri + "#" + ref
        want = lift_scatter(item["k"], t)
        rec_.sample("one", {"item": item, "type": want})
        for src in (full, [full]):
            compare(rec_, wf, item["v"], src, [want], what=repr((item, t)))
        got = got_type(wf, item["v"], ref, None, None, None)
        rec_.step()
        rec_.check(got == normal(want), "%r: source %r has type %r" % (item, ref, got))


def run_two(item, rec_):
    k1, t1 = item["a"]
    sc = scratch()
    for k2 in item["two"]:
        for t2 in range(item["nt"]):
            doc = Doc(item["v"])
            refs = [sc.uri + "#" + doc.producer(k1, "o0", TYPES[t1]), sc.uri + "#" + doc.producer(k2, "o1", TYPES[t2])]
            wf = sc.load(doc.d)
            types = [lift_scatter(k1, TYPES[t1]), lift_scatter(k2, TYPES[t2])]
            compare(rec_, wf, item["v"], refs, types, what=repr((item["v"], k1, k2)),
                    merges=MERGES)


def run_three(item, rec_):
    sc = scratch()
    t1, t2 = item["t"]
    for t3 in range(4):
        for ks in (("in", "in", "sc1"), ("sc1", "in", "in"), ("in", "sc1", "nest2")):
            doc = Doc(item["v"])
            refs, types = [], []
            for i, (k, t) in enumerate(zip(ks, (t1, t2, t3))):
                refs.append(sc.uri + "#" + doc.producer(k, "o%d" % i, TYPES[t]))
                types.append(lift_scatter(k, TYPES[t]))
            wf = sc.load(doc.d)
            compare(rec_, wf, item["v"], refs, types, what=repr((item["v"], ks)))
    # the same source named twice
    doc = Doc(item["v"])
    ref = sc.uri + "#" + doc.producer("sc1", "o0", TYPES[t1])
    compare(rec_, sc.load(doc.d), item["v"], [ref, ref], [lift_scatter("sc1", TYPES[t1])] * 2, what="twice")


def run_unknown(item, rec_):
    from schema_salad.exceptions import SchemaSaladException

    from cwl_utils.errors import WorkflowException
    from cwl_utils.parser.utils import param_for_source_id, type_for_step_output

    sc = scratch()
    doc = Doc(item["v"])
    good = [sc.uri + "#" + doc.producer(k, "g%d" % i, "int") for i, k in enumerate(("in", "out", "sc1"))]
    wf = sc.load(doc.d)
    bad = [sc.uri + "#nope", sc.uri + "#s_g1/nope", sc.uri + "#nope/g1", sc.uri + "#s_g1", "nope"]
    for b in bad:
        for g in [[]] + [[x] for x in good] + [good]:
            for pos in range(len(g) + 1):
                for form in ("list", "str"):
                    if form == "str" and g:
                        continue
                    src = b if form == "str" else g[:pos] + [b] + g[pos:]
                    for merge in MERGES:
                        rec_.step()
                        rec_.trace()
                        rec_.plain_states += 1
                        for call in (lambda: got_type(wf, item["v"], src, None, merge, None),
                                     lambda: param_for_source_id(wf, src)):
                            try:
                                r = call()
                            except (WorkflowException, SchemaSaladException):
                                rec_.outcome("unknown")
                                continue
                            rec_.fail("unknown source in %r gave %r" % (src, r))
    try:
        type_for_step_output(wf.steps[0], sc.uri + "#%s/nope" % wf.steps[0].id.split("#")[1], item["v"])
        rec_.fail("unknown step output got a type")
    except (WorkflowException, SchemaSaladException):
        rec_.outcome("unknown")


def run_parent(item, rec_):
    """Lookups with a parent workflow, including a clash of names between documents."""
    sc = scratch()
    v = item["v"]
    for wt, tt in itertools.product(range(5), range(5)):
        for where in ("t.cwl", "sub/t.cwl"):
            t = tool({"a": TYPES[tt], "only": "File"}, {"o": TYPES[tt]})
            t["cwlVersion"] = v
            sc.write(where, t)
            doc = Doc(v)
            doc.inp("a", TYPES[wt])
            doc.d["steps"]["st"] = {"run": where, "in": {"a": "a", "only": {"default": None}}, "out": ["o"]}
            wf = sc.load(doc.d)
            from cwl_utils.parser.utils import load_step

            run = load_step(wf.steps[0])
            turi = "file://" + sc.dir + "/" + where
            what = repr((v, where, TYPES[wt], TYPES[tt]))
            compare(rec_, run, v, sc.uri + "#a", [TYPES[wt]], parent=wf, what=what + " workflow's", merges=MERGES[:2])
            compare(rec_, run, v, turi + "#a", [TYPES[tt]], parent=wf, what=what + " tool's", merges=MERGES[:1])
            compare(rec_, run, v, turi + "#only", ["File"], parent=wf, what=what, merges=MERGES[:1])
            compare(rec_, run, v, sc.uri + "#st/o", [TYPES[tt]], parent=wf, what=what, merges=MERGES[:2])
            compare(rec_, wf, v, sc.uri + "#st/o", [TYPES[tt]], what=what, merges=MERGES[:1])
            compare(rec_, run, v, [sc.uri + "#a", turi + "#a"], [TYPES[wt], TYPES[tt]], parent=wf, what=what,
                    merges=MERGES[:2])


def run_steps(item, rec_):
    from cwl_utils.parser.utils import type_for_step_input, type_for_step_output

    v = item["v"]
    sc = scratch()
    for k in KINDS:
        if v not in SOURCES[k] or k == "in":
            continue
        for t in TYPES:
            doc = Doc(v)
            ref = doc.producer(k, "o0", t)
            wf = sc.load(doc.d)
            rec_.step()
            rec_.trace()
            rec_.plain_states += 1
            got = normal(describe(type_for_step_output(wf.steps[0], sc.uri + "#" + ref, v)))
            rec_.outcome("step-output")
            rec_.check(got == normal(lift_scatter(k, t)), "%r: output of %s step with %r has type %r" % (item, k, t, got))
    for t in TYPES:
        for scatter in (None, "x", ["x"], ["y"], ["y", "x"], "y"):
            for vf in (False, True):
                for where in ("inline", "t.cwl", "sub/t.cwl"):
                    doc = Doc(v)
                    run = tool({"w": "File", "x": t, "y": "string"}, {})
                    if where != "inline":
                        sc.write(where, dict(run, cwlVersion=v))
                        run = where
                    doc.inp("i", "Any")
                    step = {"run": run, "in": {"x": {"source": "i"}, "y": "i", "z": "i"}, "out": []}
                    if vf:
                        step["in"]["x"]["valueFrom"] = "$(1)"
                    if scatter:
                        step["scatter"] = scatter
                        if isinstance(scatter, list):
                            step["scatterMethod"] = "nested_crossproduct"
                    doc.d["steps"]["s"] = step
                    wf = sc.load(doc.d)
                    rec_.plain_states += 1
                    for in_ in wf.steps[0].in_:
                        name = in_.id.split("/")[-1]
                        want = {"x": t, "y": "string", "z": "Any"}[name]
                        if scatter and name in scatter:
                            want = arr(want)
                        if name == "x" and vf:
                            want = "Any"
                        rec_.step()
                        rec_.trace()
                        rec_.outcome("step-input")
                        got = normal(describe(type_for_step_input(wf.steps[0], in_, v)))
                        rec_.check(got == normal(want), "%r: input %s of type %r scattered over %r, valueFrom %s, run %s "
                                   "has type %r" % (item, name, t, scatter, vf, where, got))


def run_version(item, rec_):
    """The document's own version decides; an unknown one is an error."""
    from schema_salad.exceptions import ValidationException

    from cwl_utils.parser.utils import type_for_source

    sc = scratch()
    doc = Doc(item["v"])
    ref = sc.uri + "#" + doc.producer("sc1", "o0", "int")
    wf = sc.load(doc.d)
    for v in VERSIONS + ("v9",):
        rec_.step()
        got = normal(describe(type_for_source(wf, v, ref)))
        rec_.check(got == normal(arr("int")), "declared %s asked %s: %r" % (item["v"], v, got))
    wf.cwlVersion = None
    rec_.trace()
    rec_.state(repr(item))
    try:
        type_for_source(wf, "v9", ref)
        rec_.fail("unknown version accepted")
    except ValidationException:
        pass
    rec_.check(normal(describe(type_for_source(wf, item["v"], ref))) == arr("int"), "fallback version not used")
