"""C03: the evaluation context is complete, decoded and left intact."""

import copy
import itertools
import json

PID = "C03"
LEVEL = "model_checking"
RULE = (
    "every context term up to the depth bound with text, byte-string, number and null "
    "leaves; every requirement list up to length 3 over library / no library / empty "
    "library / other requirements; every non-expression value and failing expression of "
    "the menu; executed by the real evaluator, with the real Node.js engine where "
    "JavaScript is involved"
)
ASSUMPTIONS = ["keys named __proto__ are not in the alphabet"]
REQUIRED_OUTCOMES = ("decoded", "library", "untouched", "failure", "no-js", "js-context")

LEAVES = [b"x", "s", None, 7, "\u00e9".encode()]


def terms(depth, leaves=LEAVES):
    yield from leaves
    if depth == 0:
        return
    sub = list(terms(depth - 1, leaves))
    yield []
    yield {}
    for a in sub:
        yield [a]
        yield {"k": a}
    if depth == 1 or len(sub) < 80:
        for a, b in itertools.product(sub, repeat=2):
            yield [a, b]
            yield {"k": a, "m": b}
        if depth == 1:
            for t in itertools.product(sub, repeat=3):
                yield list(t)
    else:
        for a in sub:
            for b in leaves:
                yield [a, b]
                yield [b, a]
                yield {"k": b, "m": a}
                yield {"m": a, "k": b}


def decode(v):
    if isinstance(v, bytes):
        return v.decode("utf-8")
    if isinstance(v, list):
        return [decode(x) for x in v]
    if isinstance(v, dict):
        return {k: decode(x) for k, x in v.items()}
    return v


JSDOCS = [
    {}, {"a": "quote\" back\\slash \n\t \u2028\u2029 \u0000 \u00e9 \U0001f600 </script> ${x} $(y)"},
    {"a": [1, -2, 1.5, 1e300, 2**53 - 1, True, False, None]}, {"a-b": {"c d": {"": []}}},
    {"f": {"class": "File", "secondaryFiles": [{"class": "Directory", "listing": []}]}},
    {"inputs": {"self": 1}, "runtime": 2}, {"x": "a" * 5000 + "\u00e9" * 5000},
    {"b": b"bytes", "l": [b"1", [b"2", {"z": b"3"}]]},
]
REQS = [
    {"class": "InlineJavascriptRequirement", "expressionLib": ["var L = 'A';"]},
    {"class": "InlineJavascriptRequirement", "expressionLib": ["var L = 'B';", "L = L + '2';", "function f(x) { return x + L; }"]},
    {"class": "InlineJavascriptRequirement"},
    {"class": "InlineJavascriptRequirement", "expressionLib": []},
    {"class": "StepInputExpressionRequirement"},
    {"class": "DockerRequirement", "expressionLib": ["var L = 'wrong';"]},
]
LIBVAL = ["A", "B2", "none", "none"]
PLAIN = [None, 0, 1, 1.5, True, False, "", "x", " x ", "\\(", "\\\\", "a\\$b", "$", "$x", "{}", "()", "$ (x)",
         [], ["$(inputs)"], {}, {"a": "$(inputs.a)"}, {"class": "File"}, b"raw"]
FAILS = ["$(inputs.nope)", "$(nope)", "$(", "${", "x$(inputs.a", "$(inputs.a[3])", "$(inputs.a.b)", "${return inputs.a"]
JSFAILS = ["${throw 'x'}", "$(nope.x)", "${syntax error here}", "$(1 +)", "${return nope;}", "$(", "x ${", "${return (function(){})}",
           "${return;}", "${while(}", "$(inputs.nope.x)"]


def BOUNDS(tier):
    return {"context_depth": 3 if tier == "thorough" else 2, "requirement_list_length": 3,
            "js_documents": len(JSDOCS)}


def items(tier):
    d = BOUNDS(tier)["context_depth"]
    yield {"kind": "ids"}
    for n in range(0, 4):
        for t in itertools.product(range(len(REQS)), repeat=n):
            yield {"kind": "reqs", "reqs": list(t)}
    for i in range(len(JSDOCS)):
        yield {"kind": "jsdoc", "doc": i}
    yield {"kind": "plain"}
    yield {"kind": "fails"}
    for k in range(32):
        yield {"kind": "terms", "depth": d, "part": k, "of": 32}


def ev(*a, **kw):
    from cwl_utils.expression import do_eval

    return do_eval(*a, **kw)


def run_item(item, rec):
    from cwl_utils.errors import WorkflowException

    kind = item["kind"]
    ijr = {"class": "InlineJavascriptRequirement"}
    if kind == "terms":
        for i, t in enumerate(terms(item["depth"])):
            if i % item["of"] != item["part"]:
                continue
            rec.state(repr(t))
            want = decode(t)
            for where in ("inputs", "self"):
                inp = {"v": copy.deepcopy(t), "w": 1} if where == "inputs" else {"w": b"2"}
                ctx = copy.deepcopy(t) if where == "self" else None
                orig_inp, orig_ctx = copy.deepcopy(inp), copy.deepcopy(ctx)
                res = {"cores": 2}
                reqs = []
                rec.step()
                got = ev("$(inputs.v)" if where == "inputs" else "$(self)", inp, reqs, "/o", "/t", res, context=ctx)
                rec.trace()
                if got != want or repr(got) != repr(want):
                    rec.fail("%s context %r evaluated to %r" % (where, t, got), item, key="term:%s:%r" % (where, t))
                if inp not in (orig_inp, decode(orig_inp)) or ctx not in (orig_ctx, decode(orig_ctx)):
                    rec.fail("caller's objects changed: %r" % (inp,), item)
                if res != {"cores": 2} or reqs != []:
                    rec.fail("resources or requirements changed", item)
            if want != t:
                rec.outcome("decoded")
        rec.sample("term", "context values like [b'x', {'k': b'x'}]")
    elif kind == "ids":
        for outdir, tmpdir, res in itertools.product(
            [None, "", "/o"], [None, "", "/t"], [{}, {"cores": 1, "ram": 2.5}, {"outdirSize": 7, "exitCode": 3}]
        ):
            rec.state([outdir, tmpdir, res])
            want = dict(res, tmpdir=tmpdir or None, outdir=outdir or None)
            for js in (False, True):
                rec.step()
                got = ev("$(runtime)" if not js else "${return runtime;}", {}, [ijr] if js else [], outdir, tmpdir, dict(res))
                rec.trace()
                rec.check(got == want, "runtime is %r, expected %r" % (got, want), item)
    elif kind == "reqs":
        reqs = [copy.deepcopy(REQS[i]) for i in item["reqs"]]
        orig = copy.deepcopy(reqs)
        js = [i for i in item["reqs"] if i < 4]
        rec.state(item["reqs"])
        rec.step()
        try:
            got = ev("${return typeof L === 'undefined' ? 'none' : L;}", {"a": 1}, reqs, None, None, {})
            err = None
        except WorkflowException as exc:
            got, err = None, exc
        rec.trace()
        if not js:
            rec.check(err is not None, "JavaScript evaluated without requirement: %r" % (got,), item)
            rec.outcome("no-js")
        else:
            want = LIBVAL[js[-1]]
            rec.check(err is None and got == want, "library in force: got %r (%s), expected %r" % (got, err, want), item)
            rec.outcome("library")
            if js[-1] == 1:
                rec.check(ev("$(f(inputs.a))", {"a": "z"}, reqs, None, None, {}) == "zB2", "library function", item)
        rec.check(reqs == orig, "requirements changed", item)
        rec.sample("requirements", [REQS[i] for i in item["reqs"]])
    elif kind == "jsdoc":
        doc = JSDOCS[item["doc"]]
        want = decode(doc)
        for var, mode in itertools.product(("inputs", "self"), ("read", "mutate", "all", "console")):
            inp = copy.deepcopy(doc) if var == "inputs" else {}
            ctx = copy.deepcopy(doc) if var == "self" else None
            ex = {"read": "$(%s )" % var, "mutate": "${%s['new'] = 1; for (var k in %s) { delete %s[k]; } return Object.keys(%s).length;}" % (var, var, var, var),
                  "all": "${return {'i': inputs, 's': self, 'r': runtime};}",
                  "console": "${console.log('hello'); console.error('err'); return %s;}" % var}[mode]
            rec.state([item["doc"], var, mode])
            rec.step()
            got = ev(ex, inp, [ijr], "/o", "/t", {"cores": 1}, context=ctx, js_console=(mode == "console"))
            rec.trace()
            exp = {"read": want, "console": want, "mutate": 0,
                   "all": {"i": want if var == "inputs" else {}, "s": want if var == "self" else None,
                           "r": {"cores": 1, "outdir": "/o", "tmpdir": "/t"}}}[mode]
            rec.check(got == exp, "%s of %s: %r instead of %r" % (mode, var, str(got)[:200], str(exp)[:200]), item)
            rec.check((inp if var == "inputs" else ctx) in (doc, want), "caller's object changed by the script", item)
            rec.outcome("js-context")
    elif kind == "plain":
        for v in PLAIN:
            for reqs in ([], [ijr]):
                for ver in ("v1.0", "v1.2"):
                    orig = copy.deepcopy(v)
                    rec.state([repr(v), len(reqs), ver])
                    rec.step()
                    got = ev(v, {"a": 1}, reqs, None, None, {}, cwlVersion=ver)
                    rec.trace()
                    rec.check(got is v and v == orig, "non-expression %r came back as %r" % (v, got), item)
                    rec.outcome("untouched")
    elif kind == "fails":
        for ex in FAILS + JSFAILS:
            for reqs in ([ijr],) if ex in JSFAILS and ex not in FAILS else ([], [ijr]):
                if reqs and ex not in JSFAILS:
                    continue
                inp = {"a": [1]}
                rec.state([ex, len(reqs)])
                rec.step()
                try:
                    got = ev(ex, inp, reqs, None, None, {})
                    rec.fail("%r evaluated to %r instead of failing" % (ex, got), item)
                except WorkflowException:
                    pass
                rec.trace()
                rec.check(inp == {"a": [1]}, "inputs changed", item)
                rec.outcome("failure")
