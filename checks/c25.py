"""C25: refactored expressions compute the same values."""

import copy
import io
import itertools
import json
import logging
import os
import tempfile

from ruamel import yaml

from mc import cwlrun
from mc.grammar import VERSIONS

PID = "C25"
LEVEL = "model_checked_code"
RULE = ("one state per document: every place for an expression x every form of expression of the type of that place x "
        "standalone tool, workflow step, scattered step x version x ExpressionTools or CommandLineTools as result; the document "
        "and its refactored form are run by an independent interpreter of CWL on every assignment of input values, and must "
        "have the same outputs and start the same tools")
ASSUMPTIONS = [
    "no expression uses `runtime`, no name is one of those that the refactoring generates (_arguments_0, _stdin, _x_valueFrom, _expression..., _envDef0), JavaScript comments have no quotes and no brackets",
    "no JavaScript where the program does not look: stdin, secondaryFiles, format, loadListing, time limits and other resources than those of ResourceRequirement, hints",
    "all processes have the same version of CWL and one document has one process (no $graph)",
    "an InitialWorkDirRequirement stages strings and files, an entry has no white space around its expression, and valueFrom gives a value of the type of the input",
    "the interpreter models CWL without containers: command lines, environments, resources, staged files, streams and outputs of tools that record how they were called; JavaScript is evaluated by nodejs in strict mode",
]
REQUIRED_OUTCOMES = ("same", "unmodified", "fails")
ITEM_TIMEOUT = 800
DYNAMIC = True
EX = {}


def setup(tier):
    EX["tier"] = tier
    logging.disable(logging.CRITICAL)
    import cwl_utils.expression_refactor as er

    EX["er"] = er
    EX["dir"] = os.path.realpath(tempfile.mkdtemp())


def teardown():
    cwlrun.NODEJS.close()


# ---------------------------------------------------------------- forms of expressions

LIB = ["function up(x) { return x.toUpperCase(); }", "var K = 7;"]
STR = {
    "paren": '$(inputs.s + "x")', "nested": "$((inputs.s).toUpperCase() + '(')", "brace": '${return inputs.s + "x";}',
    "nosemi": '${return inputs.s + "x"}', "spaces": '  ${ return inputs.s + "x"; }  \n', "lines": '${\n  var r = [];\n  for (var i = 0; i < 3; i++) { r.push(i + inputs.s); }\n  return r.join("-");\n}\n',
    "comment": '${\n  // a comment\n  return inputs.s + "c"; // end\n}', "lib": "$(up(inputs.s) + K)", "libbrace": "${return up(inputs.s) + K;}",
    "interp": "p$(inputs.s + 'x')q", "two": "$(inputs.s + 1)-$(inputs.a + 1)", "mixed": "$(inputs.s)-$(inputs.a + 1)",
    "quoted": 'a"b$(inputs.a + 1)c"d', "backslash": "a\\\\b$(inputs.a + 1)", "escaped": "\\$(x)$(inputs.a + 1)", "newline": "a\nb$(inputs.a + 1)",
    "unicode": "\u00e9\u4e2d$(inputs.a + 1)", "bool": "$(inputs.a > 1)!", "null": "${return inputs.n;}$(inputs.s + 1)",
    "dollar": '${return "$" + "(" + inputs.s + ")";}', "dollarparen": '${return "cost $(x) ${y}" + inputs.s;}', "bslash": '${return "a\\\\n\\n\\t" + inputs.s;}',
    "regex": "${return inputs.s.replace(/[a-z]\\d?/g, 'z');}", "cond": "$(inputs.n === null ? 'none' : inputs.n)", "file": "$(inputs.f.nameroot + '.x')",
    "list": "$(inputs.l.join(','))", "param": "$(inputs.s)", "text": "plain",
    "trailing": "$(inputs.s + 1) ", "object": "$(inputs.s + JSON.stringify({'a': [1, {}]}))", "func": "${function g(x) { return x + '}'; } return g(inputs.s);}",
    "early": "${ if (inputs.a > 1) { return 'big'; } else { return inputs.s; } }", "throw": "${ if (inputs.a > 1) { throw 'no'; } return 'x'; }",
    "strict": "${ 'use strict'; return inputs.s + 'u'; }", "runtimeless": "$([inputs.s].concat(inputs.l).length + 'n')",
    "bracket": "$(inputs['s'] + inputs[\"s\"])", "index": "$(inputs.l[0] + inputs.l.length)",
}
INT = {"paren": "$(inputs.a + 1)", "brace": "${return inputs.a * 2;}", "nosemi": "${return inputs.a * 2}", "lib": "$(inputs.a + K)", "len": "$(inputs.s.length + 1)",
       "lines": "${\n  var t = 0;\n  inputs.l.forEach(function(x) { t += x.length; });\n  return t + 1;\n}", "param": "$(inputs.a)", "text": 3}
BOOL = {"paren": "$(inputs.a > 1)", "not": "$(!inputs.n)", "brace": "${return inputs.s == 'q';}", "nosemi": "${return inputs.a == 1}", "and": "$(inputs.a > 0 && inputs.s != 'q')",
        "lib": "$(inputs.a < K)", "has": "$('s' in inputs)"}
LIST = {"paren": "$([inputs.s + 'a', 'b'])", "brace": "${return [inputs.s + '', 'b'];}", "concat": "$(inputs.l.concat(inputs.s))", "lib": "$(inputs.l.map(up))",
        "empty": "${return [];}", "param": "$(inputs.l)"}
ANY = dict(STR, **{"l-" + k: v for k, v in LIST.items()}, **{"i-" + k: v for k, v in INT.items() if isinstance(v, str)},
           nullvalue="${return null;}", true="${return true;}", fobject="${return inputs.f;}", undef="${ }")


def inputs_of(v):
    return [{"id": "a", "type": "int"}, {"id": "s", "type": "string"}, {"id": "f", "type": "File"},
            {"id": "l", "type": {"type": "array", "items": "string"}}, {"id": "n", "type": ["null", "string"]}]


def ijs():
    return {"class": "InlineJavascriptRequirement", "expressionLib": LIB}


def tool(v, **kw):
    return dict({"cwlVersion": v, "class": "CommandLineTool", "id": "tool", "baseCommand": "cmd", "requirements": [ijs()], "inputs": inputs_of(v),
                 "outputs": [{"id": "o", "type": "File", "outputBinding": {"glob": "a.txt"}}]}, **kw)


# site -> (forms, maker)
SITES = {
    "argument": (ANY, lambda v, e: tool(v, arguments=["x", e, "z"])),
    "argument-binding": (ANY, lambda v, e: tool(v, arguments=["x", {"position": 1, "prefix": "-p", "valueFrom": e}, {"position": 0, "valueFrom": "w"}])),
    "stdout": (STR, lambda v, e: tool(v, stdout=e, outputs=[{"id": "o", "type": "stdout"}])),
    "stdout-file": (STR, lambda v, e: tool(v, stdout=e)),
    "stderr": (STR, lambda v, e: tool(v, stderr=e, outputs=[{"id": "o", "type": "stderr"}])),
    "input-binding": (ANY, lambda v, e: tool(v, inputs=inputs_of(v)[:1] + [{"id": "s", "type": "string", "inputBinding": {"valueFrom": e}}] + inputs_of(v)[2:])),
    "input-self": (None, lambda v, e: tool(v, inputs=inputs_of(v)[:1] + [{"id": "s", "type": "string", "inputBinding": {"prefix": "-s", "valueFrom": e}}] + inputs_of(v)[2:])),
    "glob": (dict(STR, **{"l-" + k: x for k, x in LIST.items()}, hit="$(inputs.a < 100 ? 'a.txt' : 'c.dat')", star="${return ['*' + '.txt', 'c.dat'];}"),
             lambda v, e: tool(v, outputs=[{"id": "o", "type": {"type": "array", "items": "File"}, "outputBinding": {"glob": e}}])),
    "env": (STR, lambda v, e: tool(v, requirements=[ijs(), {"class": "EnvVarRequirement", "envDef": [{"envName": "P", "envValue": "q"}, {"envName": "A", "envValue": e}]}])),
    "iwd-entry": (STR, lambda v, e: tool(v, requirements=[ijs(), {"class": "InitialWorkDirRequirement", "listing": [{"entryname": "n.txt", "entry": e}, {"entryname": "m", "entry": "t"}]}])),
    "iwd-entryname": (STR, lambda v, e: tool(v, requirements=[ijs(), {"class": "InitialWorkDirRequirement", "listing": [{"entryname": "n.txt", "entry": "u"}, {"entryname": e, "entry": "t"}]}])),
}
for _a in ("coresMin", "coresMax", "ramMin", "ramMax", "tmpdirMin", "tmpdirMax", "outdirMin", "outdirMax"):
    SITES["resource-" + _a] = (INT, lambda v, e, a=_a: tool(v, requirements=[{"class": "ResourceRequirement", a: e}, ijs()]))
SELF = {"self": "$(self + 'x')", "self-brace": "${return self + inputs.a;}", "self-interp": "<$(self.length)>", "self-nosemi": "${return self + '1'}", "self-lib": "$(up(self))"}
OUTEVAL = {"name": "$(self[0].basename + inputs.s)", "len": "$('n' + self.length)", "brace": "${return self[0].nameroot;}", "nosemi": "${return self[0].nameroot}",
           "contents": "$(self[0].contents + 'x')", "inputs": "$(inputs.s + inputs.a)", "lib": "$(up(inputs.s))", "interp": "$(self.length)-$(inputs.a + 1)", "param": "$(inputs.s)"}
SITES["input-self"] = (SELF, SITES["input-self"][1])
SITES["outputEval"] = (OUTEVAL, lambda v, e: tool(v, outputs=[{"id": "o", "type": "string", "outputBinding": {"glob": "a.txt", "outputEval": e, **({"loadContents": True} if "contents" in e else {})}}]))

VALUES = [
    {"a": 1, "s": "q", "f": {"class": "File", "location": "vfs:in/f.in.txt"}, "l": ["x", "yy"], "n": None},
    {"a": 5, "s": 'o"dd\\ $(v) ${w}\u00e9', "f": {"class": "File", "location": "vfs:in/g"}, "l": [""], "n": "some"},
]
FILES = {"vfs:in/f.in.txt": "one", "vfs:in/g": "two"}


# ---------------------------------------------------------------- documents

NAMES = {"a": "wa", "s": "ws", "f": "wf_", "l": "wl", "n": "wn"}
BACK = {b: a for a, b in NAMES.items()}


def main(v, steps, outs, reqs=(), **kw):
    """A workflow with other names for the values."""
    return dict({"cwlVersion": v, "class": "Workflow", "id": "main", "requirements": list(reqs), "inputs": [dict(i, id=NAMES[i["id"]]) for i in inputs_of(v)],
                 "outputs": [{"id": "z%d" % n if n else "z", "type": t, "outputSource": s, **x[0]} if x else {"id": "z%d" % n if n else "z", "type": t, "outputSource": s}
                             for n, (s, t, *x) in enumerate(outs)],
                 "steps": steps}, **kw)


def step(run, ins=None, sid="st", **kw):
    """A step of it; `ins` are the inputs that are not merely linked."""
    run = {k: x for k, x in run.items() if k != "cwlVersion"} if isinstance(run, dict) else run
    ins = ins or {}
    return dict({"id": sid, "run": run, "in": [dict({"id": a}, **(ins[a] if a in ins else {"source": b})) for a, b in NAMES.items()] +
                 [dict({"id": a}, **x) for a, x in ins.items() if a not in NAMES], "out": ["o"]}, **kw)


def unbound(x):
    """The type without its bindings, which only a tool's parameters can have."""
    return {k: unbound(y) for k, y in x.items() if not k.endswith("Binding")} if isinstance(x, dict) else [unbound(y) for y in x] if isinstance(x, list) else x


def wf(v, t, scatter=False):
    typ = [o["type"] for o in t["outputs"] if o["id"] == "o"][0]
    typ = "File" if typ in ("stdout", "stderr") else unbound(typ)
    if not scatter:
        return main(v, [step(t)], [("st/o", typ)])
    doc = main(v, [step(t, scatter=["s"])], [("st/o", {"type": "array", "items": typ})], [{"class": "ScatterFeatureRequirement"}])
    doc["inputs"][1]["type"] = {"type": "array", "items": "string"}
    return doc


def job(values, doc):
    """The values under the names of the inputs of the document; a list where it wants a list."""
    out = {}
    for i in doc["inputs"]:
        n = i["id"].split("#")[-1].split("/")[-1]
        if n not in NAMES and n not in BACK:
            continue
        v = values[BACK.get(n, n)]
        out[n] = [v, "second"] if isinstance(i["type"], dict) and isinstance(v, str) else v
    return out


# ---------------------------------------------------------------- expressions in workflows

def echo(v, **kw):
    """A tool whose run shows all that it is given."""
    t = tool(v, **kw)
    t["requirements"] = []
    for n, i in enumerate(t["inputs"]):
        i["inputBinding"] = {"position": n, "prefix": "--" + i["id"]}
    return t


SIE = {"class": "StepInputExpressionRequirement"}
SUB = {"class": "SubworkflowFeatureRequirement"}
MULTI = {"class": "MultipleInputFeatureRequirement"}
SCATTER = {"class": "ScatterFeatureRequirement"}


def vf(v, ins, reqs=(), run=None, **kw):
    return main(v, [step(run or echo(v), ins, **kw)], [("st/o", "File")], [SIE, *reqs])


def two_steps(v, e):
    first = step(echo(v), sid="first")
    second = step(echo(v), {"f": {"source": "first/o"}, "s": {"source": "ws", "valueFrom": e}}, sid="second")
    return main(v, [second, first], [("second/o", "File")], [SIE, ijs()])


def inner(v, t):
    """A workflow around the tool with the same names inside and outside."""
    w = main(v, [step(t)], [("st/o", "File")], id="inner")
    w["inputs"] = inputs_of(v)
    for i in w["steps"][0]["in"]:
        i["source"] = BACK[i["source"]]
    w["outputs"][0]["id"] = "o"
    return w


def rest_sub(v, e):
    """A subworkflow that inherits the requirement for a valueFrom without JavaScript."""
    sub = inner(v, echo(v))
    sub["steps"][0]["in"] = [dict(i, valueFrom="$(self)") if i["id"] == "n" else i for i in sub["steps"][0]["in"]]
    return main(v, [step(sub), step(tool(v, arguments=[e]), sid="first")], [("st/o", "File"), ("first/o", "File")], [SIE, SUB, ijs()])


def etool(v, e, typ="string", reqs=None):
    return {"cwlVersion": v, "class": "ExpressionTool", "id": "et", "requirements": [ijs()] if reqs is None else reqs, "inputs": inputs_of(v), "outputs": [{"id": "o", "type": typ}], "expression": e}


def obj(e):
    """The expression of a tool for a form."""
    if e.startswith("$(") and e.endswith(")") and e.count("$(") == 1:
        return "$({'o': %s})" % e[2:-1]
    e = e.strip()
    return "${ var o = (function() {%s\n})(); return {'o': o}; }" % e[2:-1]


def short_forms(forms, *names):
    return {k: forms[k] for k in names}


SMALL = short_forms(STR, "paren", "brace", "nosemi", "lib", "interp", "two", "quoted", "lines", "dollarparen", "param", "text", "mixed", "file")
PURE = {k: e for k, e in STR.items() if k in ("paren", "nested", "brace", "nosemi", "lines", "comment", "lib", "libbrace", "dollar", "dollarparen", "bslash", "regex",
                                              "cond", "file", "list", "func", "early", "throw", "strict", "bracket", "index", "object")}
WSITES = {
    "vf-self": (SELF, lambda v, e: vf(v, {"s": {"source": "ws", "valueFrom": e}}, [ijs()])),
    "vf-other": (STR, lambda v, e: vf(v, {"s": {"source": "ws", "valueFrom": e}}, [ijs()])),
    "vf-step-lib": (SMALL, lambda v, e: vf(v, {"s": {"source": "ws", "valueFrom": e}}, requirements=[ijs()])),
    "vf-hint-lib": (SMALL, lambda v, e: dict(vf(v, {"s": {"source": "ws", "valueFrom": e}}), hints=[ijs()])),
    "vf-nosource": (dict(SMALL, selfnull="$(self === null ? 'z' : 'y')"), lambda v, e: vf(v, {"s": {"valueFrom": e}, "raw": {"source": "ws"}} if "inputs.s" not in e else
                                                                                        {"s": {"valueFrom": e.replace("inputs.s", "inputs.raw")}, "raw": {"source": "ws"}}, [ijs()])),
    "vf-default": (SELF, lambda v, e: vf(v, {"s": {"source": "wn", "default": "dd", "valueFrom": e}}, [ijs()])),
    "vf-onlydefault": (SELF, lambda v, e: vf(v, {"s": {"default": "dd", "valueFrom": e}}, [ijs()])),
    "vf-flattened": ({"join": "$(self.join('-'))", "len": "${return self.length + inputs.n;}", "raw": "$(inputs.s.join('+'))"},
                     lambda v, e: vf(v, {"s": {"source": ["ws", "wl"], "linkMerge": "merge_flattened", "valueFrom": e}}, [ijs(), MULTI])),
    "vf-nested": ({"join": "$(self.join('-'))", "len": "${return self.length + 'n';}"},
                  lambda v, e: vf(v, {"s": {"source": ["ws"], "linkMerge": "merge_nested", "valueFrom": e}}, [ijs(), MULTI])),
    "vf-several": ({"join": "$(self.join('-'))", "first": "$(self[1] + inputs.a)"}, lambda v, e: vf(v, {"s": {"source": ["ws", "ws"], "valueFrom": e}}, [ijs(), MULTI])),
    "vf-int": (INT, lambda v, e: vf(v, {"a": {"source": "wa", "valueFrom": e if isinstance(e, str) else "$(self)"}}, [ijs()])),
    "vf-int-self": ({"paren": "$(self + 1)", "brace": "${return self * inputs.a;}", "lib": "$(self + K)"}, lambda v, e: vf(v, {"a": {"source": "wa", "valueFrom": e}}, [ijs()])),
    "vf-list": (LIST, lambda v, e: vf(v, {"l": {"source": "wl", "valueFrom": e}}, [ijs()])),
    "vf-null": ({"null": "${return null;}", "opt": "$(self)", "cond": "$(self === null ? inputs.s : null)"}, lambda v, e: vf(v, {"n": {"source": "wn", "valueFrom": e}}, [ijs()])),
    "vf-rest": (SMALL, lambda v, e: vf(v, {"s": {"source": "ws", "valueFrom": e}, "n": {"source": "wn", "valueFrom": "$(self)"}, "x": {"source": "wa", "valueFrom": "word"}}, [ijs()])),
    "vf-rest-sub": (SMALL, lambda v, e: rest_sub(v, e)),
    "vf-file": ({"name": "$(self.basename + 'x')", "brace": "${return self.nameroot + self.size;}"}, lambda v, e: vf(v, {"s": {"source": "wf_", "valueFrom": e}}, [ijs()])),
    "vf-swap": (short_forms(STR, "paren", "lib", "brace", "interp"), lambda v, e: vf(v, {"s": {"source": "ws", "valueFrom": e}, "a": {"source": "wa", "valueFrom": "$(inputs.s.length + inputs.a)"},
                                                                   "l": {"source": "wl", "valueFrom": "$([inputs.s, self.length + ''])"}}, [ijs()])),
    "vf-extra": (short_forms(STR, "paren", "brace"), lambda v, e: vf(v, {"s": {"source": "ws", "valueFrom": "$(inputs.x + inputs.s)"}, "x": {"source": "wa", "valueFrom": e}}, [ijs()])),
    "vf-upstream": (SMALL, two_steps),
    "vf-output": ({"name": "$(self.basename + 'x')", "inputs": "$(inputs.f.nameroot + inputs.s)"},
                  lambda v, e: main(v, [step(echo(v), {"f": {"source": "first/o"}, "s": {"source": "first/o", "valueFrom": e} if "self" in e else {"source": "ws", "valueFrom": e}}),
                                        step(echo(v), sid="first")], [("st/o", "File")], [SIE, ijs()])),
    "vf-etool": (short_forms(STR, "paren", "brace", "lib"), lambda v, e: main(v, [step(etool(v, "$({'o': inputs.s + inputs.a})"), {"s": {"source": "ws", "valueFrom": e}})], [("st/o", "string")], [SIE, ijs()])),
    "vf-sub": (short_forms(STR, "paren", "brace", "lib"), lambda v, e: vf(v, {"s": {"source": "ws", "valueFrom": e}}, [ijs(), SUB], run=inner(v, echo(v)))),
    "vf-tool": (short_forms(STR, "paren", "brace", "lib"), lambda v, e: vf(v, {"s": {"source": "ws", "valueFrom": e}}, [ijs()], run=tool(v, arguments=["$(inputs.s + '!')"]))),
    "inherited": (SMALL, lambda v, e: main(v, [step(dict(tool(v, arguments=[e]), requirements=[]))], [("st/o", "File")], [ijs()])),
    "inherited-step": (SMALL, lambda v, e: main(v, [step(dict(tool(v, arguments=[e]), requirements=[]), requirements=[ijs()])], [("st/o", "File")])),
    "inherited-hint": (SMALL, lambda v, e: dict(main(v, [step(dict(tool(v, arguments=[e]), requirements=[]))], [("st/o", "File")]), hints=[ijs()])),
    "sub": (SMALL, lambda v, e: main(v, [step(inner(v, tool(v, arguments=[e])))], [("st/o", "File")], [SUB])),
    "sub-scatter": (short_forms(STR, "paren", "brace", "lib"), lambda v, e: wf_scatter(v, inner(v, tool(v, arguments=[e])))),
    "sub-inherited": (SMALL, lambda v, e: main(v, [step(inner(v, dict(tool(v, arguments=[e]), requirements=[])))], [("st/o", "File")], [SUB, ijs()])),
    "sub-sub": (short_forms(STR, "paren", "brace", "lib"), lambda v, e: main(v, [step(inner(v, inner(v, tool(v, arguments=[e]))))], [("st/o", "File")], [SUB])),
    "etool": (PURE, lambda v, e: etool(v, obj(e))),
    "etool-step": (PURE, lambda v, e: main(v, [step(etool(v, obj(e)))], [("st/o", "string")])),
    "etool-scatter": (short_forms(STR, "paren", "brace", "lib"), lambda v, e: wf_scatter(v, etool(v, obj(e)), "string")),
    "etool-inherited": (short_forms(STR, "paren", "brace", "lib"), lambda v, e: main(v, [step(etool(v, obj(e), reqs=[]))], [("st/o", "string")], [ijs()])),
    "etool-chain": (short_forms(STR, "paren", "brace"), lambda v, e: main(v, [step(echo(v), {"s": {"source": "e/o"}}), step(etool(v, obj(e)), sid="e")], [("st/o", "File"), ("e/o", "string")])),
    "etool-file": ({"file": "$({'o': inputs.f})", "brace": "${return {'o': inputs.f};}"}, lambda v, e: main(v, [step(etool(v, e, "File"))], [("st/o", "File")])),
    "vf-scatter": (dict(SMALL, **SELF), lambda v, e: wf_scatter(v, echo(v), s={"source": "ws", "valueFrom": e})),
    "vf-scatter-other": (dict(short_forms(STR, "paren", "lib", "brace"), self="$(self + inputs.s)"), lambda v, e: wf_scatter(v, echo(v), n={"source": "wn", "valueFrom": e})),
    "scatter-cross": (short_forms(STR, "paren", "brace"), lambda v, e: cross(v, e, "flat_crossproduct")),
    "scatter-nested": (short_forms(STR, "paren", "brace"), lambda v, e: cross(v, e, "nested_crossproduct")),
    "scatter-dot": (short_forms(STR, "paren", "brace"), lambda v, e: cross(v, e, "dotproduct")),
}

# expressions in requirements of a workflow
for _k, _r in {"env": lambda e: {"class": "EnvVarRequirement", "envDef": [{"envName": "A", "envValue": e}, {"envName": "B", "envValue": "q"}]},
               "resource": lambda e: {"class": "ResourceRequirement", "coresMin": e, "ramMin": 7},
               "iwd": lambda e: {"class": "InitialWorkDirRequirement", "listing": [{"entryname": "n.txt", "entry": e}]}}.items():
    _f = {"own": "$('x' + 1)", "brace": "${return 'b';}", "lib": "$(up('k'))"} if _k != "resource" else {"own": "$(1 + 1)", "lib": "$(K + 1)"}
    WSITES["wf-req-" + _k] = (_f, lambda v, e, r=_r: main(v, [step(echo(v)), step(echo(v), sid="u")], [("st/o", "File"), ("u/o", "File")], [ijs(), r(e)]))
    WSITES["wf-req-own-" + _k] = (_f, lambda v, e, r=_r: main(v, [step(tool(v, requirements=[r("k" if r("k")["class"] != "ResourceRequirement" else 3)]))], [("st/o", "File")], [ijs(), r(e)]))
    WSITES["wf-hint-" + _k] = (_f, lambda v, e, r=_r: dict(main(v, [step(echo(v))], [("st/o", "File")], [ijs()]), hints=[r(e)]))
    WSITES["step-req-" + _k] = (_f, lambda v, e, r=_r: main(v, [step(echo(v), requirements=[r(e)]), step(echo(v), sid="u")], [("st/o", "File"), ("u/o", "File")], [ijs()]))


def noids(x):
    return {k: noids(v) for k, v in x.items() if k != "id" or "class" not in x} if isinstance(x, dict) else [noids(y) for y in x] if isinstance(x, list) else x


def named(v, t):
    """A document whose tool is in another file."""
    return main(v, [step("linked.cwl", sid="k"), step("linked.cwl", sid="st")], [("st/o", "File"), ("k/o", "File")])


WSITES["linked"] = (short_forms(STR, "paren", "brace", "lib", "interp"), lambda v, e: dict(named(v, None), linked=tool(v, arguments=[e])))
WSITES["linked-env"] = (short_forms(STR, "paren", "brace", "lib"), lambda v, e: dict(named(v, None), linked=SITES["env"][1](v, e)))
WSITES["linked-workflow"] = (short_forms(STR, "paren", "brace", "lib"), lambda v, e: dict(named(v, None), linked=inner(v, tool(v, arguments=[e])), requirements=[SUB]))
WSITES["linked-vf"] = (short_forms(STR, "paren", "brace", "lib"), lambda v, e: dict(vf(v, {"s": {"source": "ws", "valueFrom": e}}, [ijs()], run="linked.cwl"), linked=echo(v)))
WSITES["linked-scatter"] = (short_forms(STR, "paren", "brace", "lib"), lambda v, e: dict(wf_scatter(v, "linked.cwl"), linked=tool(v, arguments=[e])))
WSITES["linked-etool"] = (short_forms(STR, "paren", "brace", "lib"), lambda v, e: dict(main(v, [step("linked.cwl")], [("st/o", "string")]), linked=etool(v, obj(e))))
WSITES["noids"] = (short_forms(STR, "paren", "brace"), lambda v, e: noids(wf(v, tool(v, arguments=[e]))))
WSITES["noids-tool"] = (short_forms(STR, "paren", "brace"), lambda v, e: noids(tool(v, arguments=[e])))
WSITES["noids-multi"] = (short_forms(STR, "paren", "brace"), lambda v, e: noids(multi(v, e)))
WSITES["noids-vf"] = (short_forms(STR, "paren", "brace"), lambda v, e: noids(vf(v, {"s": {"source": "ws", "valueFrom": e}}, [ijs()])))
WSITES["noids-sub"] = (short_forms(STR, "paren", "brace"), lambda v, e: noids(WSITES["sub"][1](v, e)))
WSITES["noids-etool"] = (short_forms(STR, "paren", "brace"), lambda v, e: noids(etool(v, obj(e))))


def wf_scatter(v, run, typ="File", **ins):
    doc = main(v, [step(run, ins, scatter="s")], [("st/o", {"type": "array", "items": typ})], [SCATTER, SUB, SIE, ijs()])
    doc["inputs"][1]["type"] = {"type": "array", "items": "string"}
    return doc


def cross(v, e, how):
    typ = {"type": "array", "items": "File"}
    if how == "nested_crossproduct":
        typ = {"type": "array", "items": typ}
    doc = main(v, [step(tool(v, arguments=[e]), {"n": {"source": "ws"}}, scatter=["s", "n"], scatterMethod=how)], [("st/o", typ)], [SCATTER])
    doc["inputs"][1]["type"] = {"type": "array", "items": "string"}
    return doc


def multi(v, e):
    """Expressions in many places of one tool."""
    return tool(v, arguments=[e, {"valueFrom": "$(inputs.a + 1)", "prefix": "-k"}], stdout="$(inputs.s.length + 'o')", stderr="${return 'e' + inputs.a;}",
                requirements=[ijs(), {"class": "EnvVarRequirement", "envDef": [{"envName": "A", "envValue": e}, {"envName": "B", "envValue": "$(inputs.a + 'b')"}]},
                              {"class": "ResourceRequirement", "coresMin": "$(inputs.a + 1)", "ramMin": "$(inputs.a + 100)"}],
                outputs=[{"id": "o", "type": "string", "outputBinding": {"glob": "a.txt", "loadContents": True, "outputEval": "$(self[0].contents + inputs.s)"}},
                         {"id": "o2", "type": "int", "outputBinding": {"glob": "*.txt", "outputEval": "${return self.length + inputs.a;}"}},
                         {"id": "o3", "type": "File", "outputBinding": {"glob": "$(inputs.a < 100 ? 'a.txt' : 'c.dat')"}}, {"id": "o4", "type": "stdout"}])


SITES["multi"] = (SMALL, multi)
SITES["outputEvals"] = (short_forms(OUTEVAL, "name", "lib", "brace"), lambda v, e: tool(v, outputs=[
    {"id": "o", "type": "string", "outputBinding": {"glob": "b.txt", "outputEval": e}},
    {"id": "p", "type": "File", "outputBinding": {"glob": "c.dat"}},
    {"id": "o2", "type": "int", "outputBinding": {"glob": "*.txt", "outputEval": "$(self.length + inputs.a)"}}]))
SITES["outputEval-noglob"] = (short_forms(OUTEVAL, "inputs", "lib"), lambda v, e: tool(v, outputs=[{"id": "o", "type": "string", "outputBinding": {"outputEval": e}}]))
SITES["outputEval-file"] = ({"first": "$(self[0])", "brace": "${return self[0];}"}, lambda v, e: tool(v, outputs=[{"id": "o", "type": "File", "outputBinding": {"glob": "?.txt", "outputEval": e}}]))
SITES["outputEval-null"] = ({"null": "${return null;}", "none": "$(self.length ? self[0].basename : null)"},
                            lambda v, e: tool(v, outputs=[{"id": "o", "type": ["null", "string"], "outputBinding": {"glob": "none", "outputEval": e}}]))
SITES["iwd-listing"] = ({"entry": "$([{'entryname': 'n' + inputs.a, 'entry': inputs.s}])", "file": "${return [inputs.f];}", "both": "${var l = [inputs.f]; l.push({'entryname': 'q', 'entry': 'r'}); return l;}"},
                        lambda v, e: tool(v, requirements=[ijs(), {"class": "InitialWorkDirRequirement", "listing": e}]))
SITES["iwd-element"] = ({"file": "${return inputs.f;}", "list": "$([inputs.f].concat([]))"},
                        lambda v, e: tool(v, requirements=[ijs(), {"class": "InitialWorkDirRequirement", "listing": [e, {"entryname": "k", "entry": "t"}]}]))
SITES["iwd-both"] = (short_forms(STR, "paren", "brace", "lib", "interp"),
                     lambda v, e: tool(v, requirements=[ijs(), {"class": "InitialWorkDirRequirement", "listing": [{"entryname": "$(inputs.s.length + 'f')", "entry": e}, {"entryname": "m", "entry": "$(inputs.f)"}]}]))
SITES["iwd-file"] = ({"file": "${return inputs.f;}", "paren": "$(inputs.n ? inputs.f : inputs.f)"},
                     lambda v, e: tool(v, requirements=[ijs(), {"class": "InitialWorkDirRequirement", "listing": [{"entryname": "n.txt", "entry": e}]}]))
SITES["env-two"] = (short_forms(STR, "paren", "lib"), lambda v, e: tool(v, requirements=[ijs(), {"class": "EnvVarRequirement", "envDef": [{"envName": "A", "envValue": e}, {"envName": "B", "envValue": e}]}]))
SITES["arguments-two"] = (short_forms(STR, "paren", "lib"), lambda v, e: tool(v, arguments=[e, "k", e, {"valueFrom": e, "position": 3}, {"valueFrom": "$(inputs.f)", "position": 2}]))
SITES["inputs-two"] = (SELF, lambda v, e: tool(v, inputs=[dict(i, inputBinding={"valueFrom": e if i["id"] in ("s", "n") else "$(self)", "position": n}) for n, i in enumerate(inputs_of(v))]))
SITES["contents"] = ({"arg": "$(inputs.f.contents + 'x')"}, lambda v, e: tool(v, arguments=[e], inputs=[
    dict(i, **({} if i["id"] != "f" else {"inputBinding": {"loadContents": True, "position": 1}} if v == "v1.0" else {"loadContents": True})) for i in inputs_of(v)]))
SITES["tool-default"] = (short_forms(STR, "paren", "cond"), lambda v, e: tool(v, arguments=[e], inputs=[dict(i, **({"default": "dv"} if i["id"] == "n" else {})) for i in inputs_of(v)]))
SITES["hint"] = (short_forms(STR, "paren", "brace", "lib"), lambda v, e: dict(tool(v, arguments=[e]), requirements=[], hints=[ijs()]))
SITES["hint-env"] = (short_forms(STR, "paren", "brace", "lib"), lambda v, e: dict(tool(v), hints=[{"class": "EnvVarRequirement", "envDef": [{"envName": "A", "envValue": e}]}]))
SITES["hint-resource"] = (short_forms(INT, "paren", "brace", "lib"), lambda v, e: dict(tool(v), hints=[{"class": "ResourceRequirement", "coresMin": e}]))


def record(v, name="rec"):
    return {"type": "record", **({"name": name} if v != "v1.0" else {}), "fields": [{"name": "x", "type": "string"}, {"name": "k", "type": ["null", "int"]}]}


def typed(v, typ, default, e, binding=None, **kw):
    """A tool with one more input, which has a default."""
    return tool(v, arguments=[e] if binding is None else [], inputs=inputs_of(v) + [dict({"id": "r", "type": typ, "default": default}, **(binding or {}))], **kw)


SITES["underscore"] = ({"value": "$(inputs._u + inputs.a)", "brace": "${return inputs._u + 'x';}"},
                       lambda v, e: tool(v, arguments=[e], inputs=inputs_of(v) + [{"id": "_u", "type": "string", "default": "low"}]))
SITES["underscore-self"] = ({"value": "$(self + inputs.a)"},
                            lambda v, e: tool(v, inputs=inputs_of(v) + [{"id": "_u", "type": "string", "default": "low", "inputBinding": {"valueFrom": e}}]))
SITES["underscore-output"] = ({"inputs": "$(inputs.s + 'x')", "self": "${return self[0].basename + inputs.a;}"},
                              lambda v, e: tool(v, outputs=tool(v)["outputs"] + [{"id": "_p", "type": "string", "outputBinding": {"glob": "a.txt", "outputEval": e}},
                                                                                 {"id": "_q", "type": "File", "outputBinding": {"glob": "a.txt"}}]))
SITES["record"] = ({"field": "$(inputs.r.x + inputs.a)", "json": "${return JSON.stringify(inputs.r);}", "param": "$(inputs.r.x)"}, lambda v, e: typed(v, record(v), {"k": 4, "x": "rx"}, e))
SITES["record-self"] = ({"field": "$(self.x + inputs.a)", "brace": "${return self.x + inputs.r.k;}", "interp": "<$(self.x)$(inputs.a + 1)>"},
                        lambda v, e: typed(v, record(v), {"k": 4, "x": "rx"}, e, {"inputBinding": {"valueFrom": e}}))
SITES["records"] = ({"field": "$(inputs.r[0].x + inputs.r.length)", "json": "${return JSON.stringify(inputs.r);}"},
                    lambda v, e: typed(v, {"type": "array", "items": record(v)}, [{"k": 4, "x": "rx"}, {"k": None, "x": ""}], e))
SITES["enum"] = ({"value": "$(inputs.r + inputs.a)", "brace": "${return inputs.r == 'q' ? 'yes' : 'no';}"},
                 lambda v, e: typed(v, {"type": "enum", "symbols": ["p", "q"]}, "q", e))
SITES["enum-self"] = ({"value": "$(self + inputs.a)"}, lambda v, e: typed(v, ["null", {"type": "enum", "symbols": ["p", "q"]}], "q", e, {"inputBinding": {"valueFrom": e}}))
SITES["lists"] = ({"value": "$(inputs.r[1].join('-') + inputs.a)", "json": "${return JSON.stringify(inputs.r);}"},
                  lambda v, e: typed(v, {"type": "array", "items": {"type": "array", "items": "int"}}, [[1], [2, 3]], e))
SITES["schemadef"] = ({"field": "$(inputs.r.x + inputs.a)", "json": "${return JSON.stringify(inputs.r);}"},
                      lambda v, e: typed(v, "#rec", {"k": 4, "x": "rx"}, e, requirements=[ijs(), {"class": "SchemaDefRequirement", "types": [dict(record(v), name="rec")]}]))
SITES["record-output"] = ({"brace": "${return {'k': self.length, 'x': inputs.s};}"},
                          lambda v, e: tool(v, outputs=[{"id": "o", "type": record(v), "outputBinding": {"glob": "a.txt", "outputEval": e}}]))
SITES["array-binding"] = (short_forms(STR, "paren", "lib"), lambda v, e: typed(v, {"type": "array", "items": "string", "inputBinding": {"prefix": "-I"}}, ["p", "q"], e))
SITES["enum-binding"] = (short_forms(STR, "paren", "lib"), lambda v, e: typed(v, ["null", {"type": "enum", "symbols": ["p", "q"], "inputBinding": {"prefix": "-E"}}], "q", e))
SITES["record-binding"] = (short_forms(STR, "paren", "lib"), lambda v, e: typed(v, dict(record(v), fields=[
    {"name": "x", "type": "string", "inputBinding": {"prefix": "-x"}}, {"name": "k", "type": {"type": "array", "items": "int", "inputBinding": {"prefix": "-k"}}, "inputBinding": {"prefix": "-K"}}]),
    {"k": [4, 5], "x": "rx"}, e))
SITES["record-glob"] = (short_forms(STR, "paren", "lib"), lambda v, e: tool(v, arguments=[e], outputs=[{"id": "o", "type": dict(record(v), fields=[
    {"name": "x", "type": "File", "outputBinding": {"glob": "a.txt"}}, {"name": "k", "type": ["null", "File"], "outputBinding": {"glob": "c.*"}}])}]))
SITES["record-eval"] = ({"brace": "${return {'k': self[0], 'x': self[1]};}"}, lambda v, e: tool(v, outputs=[{"id": "o", "outputBinding": {"glob": "?.txt", "outputEval": e}, "type": dict(record(v), fields=[
    {"name": "x", "type": "File"}, {"name": "k", "type": ["null", "File"]}])}]))

# when and pickValue are of v1.2
PICK = {"first": "first_non_null", "only": "the_only_non_null", "all": "all_non_null"}
OPT = ["null", "string"]
W11 = {
    "vf-contents": ({"self": "$(self.contents + 'x')"}, lambda v, e: vf(v, {"s": {"source": "wf_", "loadContents": True, "valueFrom": e}}, [ijs()])),
}
W12 = {
    "when": (BOOL, lambda v, e: opt(main(v, [step(tool(v, arguments=["x"]), when=e)], [("st/o", "File")], [ijs()]))),
    "when-tool": (BOOL, lambda v, e: opt(main(v, [step(tool(v, arguments=["$(inputs.s + 1)"]), when=e)], [("st/o", "File")], [ijs()]))),
    "when-vf": (BOOL, lambda v, e: opt(vf(v, {"s": {"source": "ws", "valueFrom": "$(self + 'w')"}}, [ijs()], when=e))),
    "when-vf-tool": (BOOL, lambda v, e: opt(vf(v, {"s": {"source": "ws", "valueFrom": "$(self == 'q' ? self : 'q')"}}, [ijs()], when=e, run=tool(v, stdout="$(inputs.s + 'k')")))),
    "when-sub": (BOOL, lambda v, e: opt(main(v, [step(inner(v, tool(v, arguments=["$(inputs.s + 1)"])), when=e)], [("st/o", "File")], [SUB, ijs()]))),
    "when-etool": (BOOL, lambda v, e: opt(main(v, [step(etool(v, "$({'o': inputs.s})"), when=e)], [("st/o", "string")], [ijs()]))),
    "when-extra": ({"x": "$(inputs.x > 1)", "brace": "${return inputs.x == inputs.a;}"}, lambda v, e: opt(vf(v, {"x": {"source": "wa"}}, [ijs()], when=e))),
    "when-scatter": (BOOL, lambda v, e: opt(scatter_when(v, e))),
    "pick": (PICK, lambda v, e: main(v, [step(echo(v))], [(["wn", "ws"], {"type": "array", "items": "string"} if e == "all_non_null" else "string", {"pickValue": e})], [MULTI])),
    "pick-null": (PICK, lambda v, e: main(v, [step(echo(v))], [(["wn", "wn"], {"type": "array", "items": "string"} if e == "all_non_null" else "string", {"pickValue": e})], [MULTI])),
    "pick-merge": (PICK, lambda v, e: main(v, [step(echo(v))], [(["wn", "wl"], {"type": "array", "items": "string"} if e == "all_non_null" else "string", {"pickValue": e, "linkMerge": "merge_flattened"})], [MULTI])),
    "pick-when": (PICK, lambda v, e: main(v, [step(echo(v), when="$(inputs.a > 1)"), step(tool(v, arguments=["$(inputs.s + 1)"]), sid="t", when="$(inputs.a < 2)")],
                                          [(["st/o", "t/o"], {"type": "array", "items": "File"} if e == "all_non_null" else "File", {"pickValue": e})], [MULTI, ijs()])),
    "pick-list": (PICK, lambda v, e: main(v, [scatter_step(v)], [("st/o", {"type": "array", "items": "File"} if e == "all_non_null" else "File", {"pickValue": e})], [SCATTER, ijs()], wl="s")),
    "pick-vf": (PICK, lambda v, e: vf(v, {"s": {"source": ["wn", "ws"], "pickValue": e, "valueFrom": "$(self.length + 'p')"}}, [ijs(), MULTI])),
}


def scatter_step(v):
    return step(echo(v), scatter="s", when="$(inputs.s != 'q')")


def scatter_when(v, e):
    return main(v, [step(tool(v, arguments=["$(inputs.s + 1)"]), scatter="s", when=e)], [("st/o", {"type": "array", "items": ["null", "File"]})], [SCATTER, ijs()], wl="s")


def opt(doc):
    for o in doc["outputs"]:
        o["type"] = o["type"] if isinstance(o["type"], dict) else ["null", o["type"]]
    return doc


def refactor(doc, path, *opts):
    """The real command on a file; the exit code and the file written."""
    with open(path, "w", encoding="utf-8") as h:
        json.dump(doc, h)
    out = os.path.join(EX["dir"], "out")
    os.makedirs(out, exist_ok=True)
    target = os.path.join(out, os.path.basename(path))
    if os.path.exists(target):
        os.remove(target)
    code = EX["er"].run([*opts, out, path])
    return code, target if os.path.exists(target) else None


def parsed(path):
    """What a file says."""
    with open(path, encoding="utf-8") as h:
        text = h.read()
    return json.loads(text) if text.startswith("{") else yaml.YAML(typ="safe", pure=True).load(text)


def absolute(path, content=None):
    """A document as the interpreter wants it."""
    from cwl_utils.parser import LoadingOptions, load_document_by_yaml
    from schema_salad.runtime import save

    path = path.removeprefix("file://").split("#")[0]
    loading = LoadingOptions(fileuri="file://" + path, baseuri="file://" + os.path.dirname(path))
    doc = json.loads(json.dumps(save(load_document_by_yaml(content or parsed(path), "file://" + path, loading), relative_uris=False)))
    for st in doc.get("steps", []):
        if isinstance(st["run"], str):
            st["run"] = absolute(st["run"])
    return doc


def one(rec, where, doc, ctx, opts, key):
    path = os.path.join(EX["dir"], "d.cwl")
    if "linked" in doc:
        doc = dict(doc)
        with open(os.path.join(EX["dir"], "linked.cwl"), "w", encoding="utf-8") as h:
            json.dump(doc.pop("linked"), h)
    rec.plain_states += 1
    rec.step(1)
    try:
        code, target = refactor(doc, path, *[o for o in opts if o != "again"])
        if code == 0 and "again" in opts:
            with open(target, encoding="utf-8") as h:
                second = yaml.YAML(typ="safe").load(h)
            code, target = refactor(second, path.replace("d.cwl", "e.cwl"))
        if code == 7:
            rec.outcome("unmodified")
            return
        if code:
            rec.fail("%s: exit code %s" % (where, code), key=key)
            return
        new = absolute(target)
    except (Exception, SystemExit) as exc:
        rec.fail("%s: %s: %s" % (where, type(exc).__name__, str(exc)[-300:]), key=key)
        return
    old = absolute(path)
    for n, v in enumerate(VALUES):
        j = job(v, doc)
        a, b = cwlrun.run(old, j, FILES), cwlrun.run(new, j, FILES)
        rec.trace(1)
        rec.step(2)
        if "error" in a and "error" in b:
            rec.outcome("fails")
            continue
        if a != b:
            rec.fail("%s: values %d: the original gives %s, the refactored %s" % (where, n, json.dumps(a)[:500], json.dumps(b)[:500]), key=key, new=open(target).read())
            return
        rec.outcome("same")


def run_item(item, rec):
    globals()["run_" + item[0]](rec, *item[1:])


def run_tool(rec, v, site, ctx, etools):
    forms, make = SITES[site]
    few = 3 if EX["tier"] == "quick" and (v, ctx) not in (("v1.2", "tool"), ("v1.1", "scatter"), ("v1.0", "step")) else None
    for label, e in itertools.islice(forms.items(), few):
        t = make(v, e)
        doc = t if ctx == "tool" else wf(v, t, ctx == "scatter")
        one(rec, "%s %s of %s in a %s%s" % (v, label, site, ctx, " to ExpressionTools" if etools else ""), doc, ctx, ("--etools",) if etools else (),
            ["tool", v, site, label, ctx, etools])


def run_wf(rec, v, site, etools):
    forms, make = {**WSITES, **W11, **W12}[site]
    for label, e in forms.items():
        doc = make(v, e)
        if doc.pop("wl", None):
            doc["inputs"][1]["type"] = {"type": "array", "items": "string"}
        one(rec, "%s %s of %s%s" % (v, label, site, " to ExpressionTools" if etools else ""), doc, "wf", ("--etools",) if etools else (), ["wf", v, site, label, "wf", etools])


def merge(a, b):
    """A tool with the expressions of both."""
    t = copy.deepcopy(a)
    for k in ("requirements", "hints"):
        for r in b.get(k, []):
            same = [x for x in t.get(k, []) if x["class"] == r["class"]]
            if not same:
                t.setdefault(k, []).append(r)
            elif r["class"] == "EnvVarRequirement":
                same[0]["envDef"] = same[0]["envDef"] + [dict(d, envName=d["envName"] + "2") for d in r["envDef"]]
            elif r["class"] == "InitialWorkDirRequirement":
                if isinstance(r["listing"], str) or isinstance(same[0]["listing"], str):
                    return None
                same[0]["listing"] = same[0]["listing"] + [dict(e, entryname=e["entryname"] + "2") if isinstance(e, dict) else e for e in r["listing"]]
            elif r["class"] == "ResourceRequirement":
                same[0].update(r)
    if "arguments" in b:
        t["arguments"] = t.get("arguments", []) + b["arguments"]
    for k in ("stdout", "stderr"):
        if k in b:
            t[k] = b[k]
    for i, j in zip(t["inputs"], b["inputs"]):
        i.update(j)
    t["outputs"] = t["outputs"] + [dict(o, id=o["id"] + "x") for o in b["outputs"]]
    return t


def run_pair(rec, v, one_, which):
    """Two places at once: `which` is None for every context, or the number of the one context."""
    names = [x for x in SITES if not x.startswith("hint")]
    at = names.index(one_)
    for n in range(at, len(names)):
        if which is not None and (n + at) % 3 != VERSIONS.index(v):
            continue
        other = names[n]
        forms = [x for x in SITES[other][0]]
        label = forms[(n + at) % min(len(forms), 5)]
        mine = list(SITES[one_][0])
        mine = mine[n % min(len(mine), 4)]
        for number, (ctx, etools) in enumerate(itertools.product(("tool", "step", "scatter"), (True, False))):
            if which is not None and number != (n + which) % 6:
                continue
            t = merge(SITES[one_][1](v, SITES[one_][0][mine]), SITES[other][1](v, SITES[other][0][label]))
            if t is None:
                continue
            doc = t if ctx == "tool" else wf(v, t, ctx == "scatter")
            one(rec, "%s %s of %s and %s of %s in a %s%s" % (v, mine, one_, label, other, ctx, " to ExpressionTools" if etools else ""), doc, ctx, ("--etools",) if etools else (),
                ["pair", v, one_ + "/" + mine, other + "/" + label, ctx, etools])


def some(number):
    """All contexts, or one of them."""
    contexts = ("tool", "step", "scatter")
    return contexts[number % 3:][:1] if EX["tier"] == "quick" else contexts


def run_again(rec, v, first):
    """Refactor what has been refactored."""
    for number, (site, (forms, make)) in enumerate({**SITES, **WSITES, **({} if v == "v1.0" else W11), **(W12 if v == "v1.2" else {})}.items()):
        for label in list(forms)[:1 if EX["tier"] == "quick" else 2]:
            for ctx in some(number + VERSIONS.index(v)) if site in SITES else ("wf",):
                t = make(v, forms[label])
                doc = t if ctx in ("tool", "wf") else wf(v, t, ctx == "scatter")
                if doc.pop("wl", None):
                    doc["inputs"][1]["type"] = {"type": "array", "items": "string"}
                one(rec, "%s %s of %s in a %s again after %s" % (v, label, site, ctx, first), doc, ctx, first + ["again"], ["again", v, site, label, ctx, first])


def run_skip(rec, v, opts):
    for number, (site, (forms, make)) in enumerate(SITES.items()):
        for label in [x for x in ("paren", "lib", "name", "entry") if x in forms] or list(forms)[:1]:
            for ctx in some(number + VERSIONS.index(v) + len(opts)):
                t = make(v, forms[label])
                doc = t if ctx == "tool" else wf(v, t, ctx == "scatter")
                one(rec, "%s %s of %s in a %s with %s" % (v, label, site, ctx, " ".join(opts)), doc, ctx, opts, ["skip", v, site, label, ctx, opts])


def items(tier):
    for v in VERSIONS:
        for first in (["--etools"], []):
            yield ["again", v, first]
        for opts in (("--skip-some1",), ("--skip-some2",), ("--skip-some1", "--skip-some2"), ("--etools", "--skip-some1"), ("--etools", "--skip-some2")):
            yield ["skip", v, list(opts)]
        for n, site in enumerate(x for x in SITES if not x.startswith("hint")):
            yield ["pair", v, site, n % 6 if tier == "quick" else None]
    for v in VERSIONS:
        for site in SITES:
            for ctx in ("tool", "step", "scatter"):
                for etools in (True, False):
                    yield ["tool", v, site, ctx, etools]
        for site in {**WSITES, **({} if v == "v1.0" else W11), **(W12 if v == "v1.2" else {})}:
            for etools in (True, False):
                yield ["wf", v, site, etools]


def BOUNDS(tier, run=True):
    out = {"places in tools": len(SITES), "places in workflows": len({**WSITES, **W11, **W12}), "forms of expressions": "up to %d per place" % max(len(f) for f, _ in SITES.values()),
           "contexts": "standalone, a step, a scattered step" + ("; every form in one of them per version, three forms in the others" if tier == "quick" else ""), "versions": list(VERSIONS), "pairs of places": "each pair, in %s" % ("one version, context and kind of result" if tier == "quick" else "every context and with both kinds of result"),
           "options": "--etools, --skip-some1, --skip-some2 and their combinations"}
    if run:
        out["assignments of input values"] = len(VALUES)
        out["refactored again"] = "the first form of each place, in one context" if tier == "quick" else "the first two forms of each place"
    return out
