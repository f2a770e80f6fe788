"""C07: the static checker accepts exactly the well-typed workflows."""

import itertools
import re

from mc.types import arr, enum, kind, rec, to_yaml, union, verdict
from mc.wf import SOURCES, Doc, lift, scratch, tool

PID = "C07"
LEVEL = "model_checking"
RULE = (
    "every link over source construct (workflow input, plain, scattered in every way, "
    "conditional, looping, sub-workflow and expression steps) x source type x sink "
    "(step input, scattered step input, workflow output) x sink type x link form x merge "
    "method x pick method x CWL version; every ordered pair of sources of one link; every "
    "pair of links sharing one source; every presence or absence of source, default, "
    "valueFrom and tool default; every dangling source; judged against a reference"
)
ASSUMPTIONS = [
    "links that are only doubtful (warning) are accepted, as documented",
    "pickValue of a single source does not change the type of the link (settled by the project's tests)",
]
REQUIRED_OUTCOMES = ("accepted", "rejected", "unconnected", "dangling")
VERSIONS = ("v1.0", "v1.1", "v1.2")
TYPES = ["int", "string", "Any", union("null", "int"), arr("int"), union("int", "string"),
         arr(arr("int")), enum("a", "b"), rec(f="int")]
SINKS = TYPES + [arr("string"), union("null", arr("int")), arr(union("null", "int")), arr("Any"),
                 enum("b", "c"), enum("a", "b", "c"), rec(f="string"), arr(enum("a", "b")), arr(rec(f="int"))]
MERGES = (None, "merge_nested", "merge_flattened")
PICKS = (None, "first_non_null", "the_only_non_null", "all_non_null")
PAIR_KINDS = ("in", "out", "sc1", "when", "loopall", "nest2")
PAIR_TYPES = ["int", union("null", "int"), arr("int"), "string"]


def BOUNDS(tier):
    return {"versions": list(VERSIONS), "source_kinds": len(SOURCES), "source_types": len(TYPES),
            "sink_types": len(SINKS), "sources_per_link": 2, "sinks_per_source": 2}


def items(tier):
    th = tier == "thorough"
    for v in VERSIONS:
        picks = PICKS if v == "v1.2" else (None,)
        for k in sorted(SOURCES):
            if v not in SOURCES[k]:
                continue
            for t in range(len(TYPES)):
                for form in ("str", "list1"):
                    for m in MERGES:
                        for p in picks:
                            if not th and v != "v1.2" and (t not in (0, 3, 4, 7) or (form == "list1" and m is None)):
                                continue
                            if not th and form == "list1" and m is None and t > 4:
                                continue
                            if p and not th and (k not in ("out", "when", "sc1") or form == "list1" and m):
                                continue
                            yield {"kind": "single", "v": v, "src": k, "t": t, "form": form, "m": m, "p": p}
        kinds = [k for k in PAIR_KINDS if v in SOURCES[k]]
        if not th:
            kinds = [k for k in kinds if k != "nest2" and (v == "v1.2" or k != "sc1")]
        full = list(itertools.product(kinds, range(len(PAIR_TYPES) - (0 if th else 1))))
        for a, b in itertools.product(full, full):
            if not th and (a[0] == b[0] == "in" or (a[0] == "in" and b[0] == "out")) and v == "v1.2":
                continue
            yield {"kind": "pair", "v": v, "a": list(a), "b": list(b),
                   "ps": list(picks if th or a[0] == "when" else picks[:1] + picks[1 + a[1]:2 + a[1]])}
        for k in sorted(SOURCES):
            if v in SOURCES[k]:
                yield {"kind": "alone", "v": v, "src": k}
                yield {"kind": "shared", "v": v, "src": k}
        yield {"kind": "unconnected", "v": v}
        yield {"kind": "dangling", "v": v}
        yield {"kind": "files", "v": v}


def check(d, rec_, bad, required=(), dangling=False, what=""):
    """Run the static checker; bad: set of (source, sink) names that must be reported."""
    from cwl_utils.parser.utils import static_checker
    from schema_salad.exceptions import ValidationException

    from cwl_utils.errors import WorkflowException

    wf = scratch().load(d)
    rec_.step()
    rec_.trace()
    try:
        static_checker(wf)
        msg = None
    except (ValidationException, WorkflowException) as exc:
        msg = str(exc)
    if dangling:
        rec_.outcome("dangling")
        rec_.check(msg is not None, "accepted although a source does not exist: %s" % what)
        return
    want = bool(bad or required)
    rec_.outcome("rejected" if want else "accepted")
    if not rec_.check((msg is not None) == want, "%s although %s: %s" % (
            "accepted" if msg is None else "rejected", "it has bad links %s" % (sorted(bad) or required) if want
            else "all links are compatible", what + (" :: " + msg[:400] if msg else ""))):
        return
    if msg:
        flat = re.sub(r"\s+", " ", msg)
        flat = re.sub(r'\{.*?\}', "", flat)
        names = re.findall(r"'([A-Za-z0-9_]+)'", flat)
        srcs = {a for a, _ in bad}
        got = {(a, b) for a, b in zip(names, names[1:]) if a in srcs or not b.startswith(("x", "z"))}
        got = {(a, b) for a, b in got if b[0] in "xz" and a[0] not in "xz"}
        missing = set(bad) - got
        rec_.check(not missing, "bad links %s not named: %s" % (sorted(missing), what), message=msg[:800])
        rec_.check(not got - set(bad), "good links %s named: %s" % (sorted(got - set(bad)), what), message=msg[:800])
        for r in required:
            rec_.check(r in names, "unconnected input %s not named: %s" % (r, what), message=msg[:800])


def add_sinks(doc, refs, names, types, version, form, m, p, bad, which=None):
    """Adds one step input, one scattered step input and one workflow output per sink type."""
    for i, t in enumerate(SINKS):
        if which is not None and i not in which:
            continue
        source = refs[0] if form == "str" else list(refs)
        extra = {}
        if m:
            extra["linkMerge"] = m
        if p:
            extra["pickValue"] = p
        n = len(refs)
        eff = m if n == 1 else (None if p in ("first_non_null", "the_only_non_null") else (m or "merge_nested"))
        for place in ("step", "scatter", "output"):
            sink_t = arr(t) if place == "scatter" else t
            name = {"step": "x%d", "scatter": "xs%d", "output": "z%d"}[place] % i
            if place == "output":
                doc.d["outputs"][name] = dict({"type": to_yaml(t), "outputSource": source}, **extra)
            else:
                step = {"run": tool({name: t}, {}), "in": {name: dict({"source": source}, **extra)}, "out": []}
                if place == "scatter":
                    step["scatter"] = name
                doc.d["steps"]["c_" + name] = step
            for s, st in zip(names, types):
                if verdict(st, sink_t, eff) == "exception":
                    bad.add((s, name))


def run_item(item, rec_):
    globals()["run_" + item["kind"]](item, rec_)


def run_single(item, rec_):
    t = TYPES[item["t"]]
    for start in range(0, len(SINKS), 3):
        which = range(start, start + 3)
        doc = Doc(item["v"])
        ref = doc.producer(item["src"], "o0", t)
        bad = set()
        add_sinks(doc, [ref], ["o0"], [lift(item["src"], t)], item["v"], item["form"], item["m"], item["p"], bad, which)
        rec_.plain_states += 3 * len(which)
        check(doc.d, rec_, bad, what=repr(item))


def run_pair(item, rec_):
    (ka, ta), (kb, tb) = item["a"], item["b"]
    ta, tb = PAIR_TYPES[ta], PAIR_TYPES[tb]
    for m, p, which in itertools.product(MERGES, item["ps"], ([0, 1, 4], [2, 3], [6, 11])):
        if True:
            la, lb = lift(ka, ta), lift(kb, tb)
            if p in ("first_non_null", "the_only_non_null") and m == "merge_flattened" and (
                    has_array(la) or has_array(lb)):
                continue
            doc = Doc(item["v"])
            ra = doc.producer(ka, "o0", ta)
            rb = doc.producer(kb, "o1", tb)
            bad = set()
            types = [la, lb]
            if p is not None:
                # with pickValue, the null of a skipped step is handled by the pick method
                types = [lift(k, t) if k not in ("when", "scwhen") else t for k, t in ((ka, ta), (kb, tb))]
            add_sinks(doc, [ra, rb], ["o0", "o1"], types, item["v"], "list", m, p, bad, which)
            rec_.plain_states += 3 * len(which)
            check(doc.d, rec_, bad, what="%r merge %s pick %s" % (item, m, p))


def has_array(t):
    return kind(t) == "array" or (kind(t) == "union" and any(kind(x) == "array" for x in t[1:]))


def run_alone(item, rec_):
    """One link per document: the verdict itself."""
    for t in (0, 3, 4, 7):
        for s in (0, 1, 4, 9, 11, 14):
            doc = Doc(item["v"])
            ref = doc.producer(item["src"], "o0", TYPES[t])
            for place in ("step", "output"):
                doc2 = Doc(item["v"])
                doc2.d["inputs"] = dict(doc.d["inputs"])
                doc2.d["steps"] = dict(doc.d["steps"])
                bad = set()
                if place == "step":
                    doc2.d["steps"]["c"] = {"run": tool({"x": SINKS[s]}, {}), "in": {"x": ref}, "out": []}
                    name = "x"
                else:
                    doc2.d["outputs"]["z"] = {"type": to_yaml(SINKS[s]), "outputSource": ref}
                    name = "z"
                if verdict(lift(item["src"], TYPES[t]), SINKS[s]) == "exception":
                    bad.add(("o0", name))
                rec_.plain_states += 1
                rec_.sample("alone", {"item": item, "document": doc2.d, "bad": sorted(bad)})
                check(doc2.d, rec_, bad, what=repr((item, TYPES[t], SINKS[s], place)))


def run_shared(item, rec_):
    """Several sinks of one source: every order of every pair of link shapes."""
    shapes = [("x", None), ("z", None), ("l", None), ("l", "first_non_null"), ("l", "all_non_null"), ("l", "nested")]
    for sa, sb in itertools.product(shapes, repeat=2):
        if item["v"] != "v1.2" and any(s[1] in PICKS[1:] for s in (sa, sb)):
            continue
        for t in ("int", arr("int")):
            doc = Doc(item["v"])
            ref = doc.producer(item["src"], "o0", t)
            doc.inp("i9", "int")
            bad = set()
            for n, (shape, mod) in enumerate((sa, sb)):
                for j, st in enumerate(("int", "string", arr("int"), arr(arr("int")))):
                    lt = lift(item["src"], t)
                    name = "x%d%d" % (n, j)
                    if shape == "x":
                        doc.d["steps"]["c" + name] = {"run": tool({name: st}, {}), "in": {name: ref}, "out": []}
                        pairs = [("o0", lt, None)]
                    elif shape == "z":
                        name = "z%d%d" % (n, j)
                        doc.d["outputs"][name] = {"type": to_yaml(st), "outputSource": ref}
                        pairs = [("o0", lt, None)]
                    else:
                        link = {"source": [ref, "i9"]}
                        eff = "merge_nested"
                        if mod == "nested":
                            link["linkMerge"] = "merge_nested"
                        elif mod:
                            link["pickValue"] = mod
                            if item["src"] in ("when",):
                                lt = t
                            elif item["src"] == "scwhen":
                                lt = arr(t)
                            if mod == "first_non_null":
                                eff = None
                        doc.d["steps"]["c" + name] = {"run": tool({name: st}, {}), "in": {name: link}, "out": []}
                        pairs = [("o0", lt, eff), ("i9", "int", eff)]
                    for s, x, eff in pairs:
                        if verdict(x, st, eff) == "exception":
                            bad.add((s, name))
            rec_.plain_states += 1
            check(doc.d, rec_, bad, what=repr((item, sa, sb, t)))


def run_unconnected(item, rec_):
    for t in ("int", "Any", union("null", "int"), "null", arr("int"), union("int", "string"), rec(f="int"), enum("a")):
        for src, dflt, vf, tdflt, scat, other in itertools.product((False, True), repeat=6):
            if scat and (src or vf):
                continue
            doc = Doc(item["v"])
            doc.inp("i0", "Any")
            link = {}
            if src:
                link["source"] = "i0"
            if dflt:
                link["default"] = 5
            if vf:
                link["valueFrom"] = "$(5)"
            td = {"type": to_yaml(t), "_full": True}
            if tdflt:
                td["default"] = 5
            step = {"run": tool({"x": td}, {}), "in": {"x": link}, "out": []}
            if scat:
                step["scatter"] = "x"
            doc.d["steps"]["c"] = step
            if other:  # an unrelated bad link must not matter, nor be masked
                doc.inp("i1", "string")
                doc.d["outputs"]["z"] = {"type": "int", "outputSource": "i1"}
            optional = not scat and (t == "null" or (kind(t) == "union" and "null" in t[1:]))
            req = not (src or dflt or vf or tdflt or optional)
            rec_.plain_states += 1
            if req:
                rec_.outcome("unconnected")
            check(doc.d, rec_, {("i1", "z")} if other else set(), ["x"] if req else (),
                  what=repr((item, t, link, tdflt, scat, other)))
    # an input that the step's process does not declare needs no value
    doc = Doc(item["v"])
    doc.d["steps"]["c"] = {"run": tool({}, {}), "in": {"x": {}}, "out": []}
    check(doc.d, rec_, set(), what="undeclared step input")


def run_dangling(item, rec_):
    for place in ("step", "output"):
        for srcs in (["nope"], ["i0", "nope"], ["nope", "i0"], ["c/nope"], ["i0", "c/nope"], ["nope", "nope"]):
            for form in ("str", "list"):
                if form == "str" and len(srcs) > 1:
                    continue
                for vf in (None, "$(self)"):
                    for m in MERGES:
                        doc = Doc(item["v"])
                        doc.inp("i0", "Any")
                        link = {("source" if place == "step" else "outputSource"): srcs[0] if form == "str" else srcs}
                        if m:
                            link["linkMerge"] = m
                        doc.d["steps"]["c"] = {"run": tool({"y": "Any"}, {"o": "int"}), "in": {"y": "i0"}, "out": ["o"]}
                        if place == "step":
                            if vf:
                                link["valueFrom"] = vf
                            doc.d["steps"]["d"] = {"run": tool({"x": "Any"}, {}), "in": {"x": link}, "out": []}
                        else:
                            doc.d["outputs"]["z"] = dict(link, type="Any")
                        rec_.plain_states += 1
                        check_dangling(doc.d, rec_, repr((item, place, srcs, form, vf, m)))
    # a step that lists an output its process does not have
    doc = Doc(item["v"])
    doc.d["steps"]["c"] = {"run": tool({}, {"o": "int"}), "in": {}, "out": ["o", "nope"]}
    check_dangling(doc.d, rec_, "undeclared step output")


def check_dangling(d, rec_, what):
    """Rejected when loading or when checking."""
    from schema_salad.exceptions import ValidationException

    try:
        scratch().load(d)
    except ValidationException:
        rec_.step()
        rec_.trace()
        rec_.outcome("dangling-load")
        return
    check(d, rec_, set(), dangling=True, what=what)


def run_files(item, rec_):
    """The same with tools in other files, in the same and in another directory."""
    sc = scratch()
    for where in ("t.cwl", "sub/t.cwl"):
        for st in (0, 1, 3, 4, 7, 8):
            for tt in (0, 1, 3, 4, 7, 13, 8, 15):
                doc = Doc(item["v"])
                doc.inp("i0", TYPES[st])
                t = tool({"x": SINKS[tt], "i0": "string"}, {"o0": SINKS[tt]})
                t["cwlVersion"] = item["v"]
                sc.write(where, t)
                doc.d["steps"]["c"] = {"run": where, "in": {"x": "i0", "i0": {"default": "s"}}, "out": ["o0"]}
                doc.d["outputs"]["z"] = {"type": to_yaml(TYPES[st]), "outputSource": "c/o0"}
                bad = set()
                if verdict(TYPES[st], SINKS[tt]) == "exception":
                    bad.add(("i0", "x"))
                if verdict(SINKS[tt], TYPES[st]) == "exception":
                    bad.add(("o0", "z"))
                rec_.plain_states += 1
                check(doc.d, rec_, bad, what=repr((item, where, TYPES[st], SINKS[tt])))
