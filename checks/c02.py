"""C02: parameter references agree with JavaScript property access."""

import itertools
import json
import subprocess

PID = "C02"
LEVEL = "model_checking"
RULE = (
    "every parameter reference root+segments up to the depth bound over every context "
    "document; each is evaluated by the real code without JavaScript, with a recording "
    "JavaScript engine and with an awaitable engine, and compared with a reference walk; "
    "each value the reference walk yields is also computed by Node.js itself"
)
ASSUMPTIONS = [
    "Node.js is the reference for the JavaScript meaning of a property path",
    "keys with backslashes are not in the alphabet",
]
REQUIRED_OUTCOMES = ("value", "unresolved", "handed-to-js", "null", "length")

FILE = {"class": "File", "location": "file:///d/f.txt", "path": "/d/f.txt", "basename": "f.txt",
        "nameroot": "f", "nameext": ".txt", "dirname": "/d", "checksum": "sha1$1", "size": 3,
        "format": "x:y", "contents": "abc", "length": 9, "extra": {"class": "File", "k": 1},
        "secondaryFiles": [{"class": "File", "location": "g", "basename": "g"},
                           {"class": "Directory", "location": "d", "listing": []}]}
DIR = {"class": "Directory", "location": "file:///d", "path": "/d", "basename": "d",
       "listing": [{"class": "File", "location": "h", "size": 0}], "size": 5, "a": [1]}
DOCS = [
    {"a": 1, "b-c": "x", "0": "zero", "length": 4, "it's": "q1", 'x"y': "q2", "\u00e9": "acc",
     "_u1": None, "a b": [0], "class": "Other"},
    {"a": {"a": {"a": [[], [1], [1, [2, 3]]]}, "length": None, "0": [7]}, "f": FILE, "d": DIR},
    {"a": [], "b-c": [None], "f": [FILE, DIR], "d": {"class": "Directory"}, "_u1": False},
    {"a": [{"a": "s"}, ["t", {"a": []}], 2.5, "", True], "0": {}, "length": [1, 2, 3], "f": "str"},
    {},
]
SELFS = [None, 5, "text", [], [FILE], {"a": 3}, FILE]
RUNTIME = {"cores": 1, "ram": 1024.5, "outdirSize": 0}

SEGS = [".a", ".f", ".d", ".length", ".class", ".secondaryFiles", ".listing", ".size", "._u1",
        ".extra", ".basename", ".nope", ".\u00e9", "['a']", '["a"]', "['b-c']", '["a b"]',
        "['it\\'s']", '["it\'s"]', '["x\\"y"]', "['x\"y']", "[0]", "[1]", "[2]", "[10]", "['0']",
        "['length']", ".outdir", ".cores", '["f"]', "['\u00e9']", "[00]", ".secondaryFiles[0]",
        ".a.a.a", ".path", ".contents"]
ROOTS = ["inputs", "self", "runtime"]
ODD = ["$(null)", "$(nope)", "$(nope.a)", "$(inputs )", "$( inputs)", "$(inputs .a)", "$(inputs.a.)",
       "$(inputs[a])", "$(inputs[-1])", "$(inputs.a-b)", "$(inputs['a)", "$(inputs[''])", "$()",
       "$(inputs.a+1)", "$(inputs..a)", "$(inputs[0)", "$(null.a)", "$(inputs.a[0]1)", "$(1)",
       "$(undefined)", "$(true)", "$(Inputs.a)", "$(inputs['a']['b)", "${return inputs.a;}", "$(\"inputs\")",
       "$(inputs.a\n)", "$(inputs.(a))", "$(selfie)", "$(inputs[0][)", "$(runtime['cores]']')"]


def depth(tier):
    return 4 if tier == "thorough" else 3


def BOUNDS(tier):
    return {"segments": len(SEGS), "max_segments": depth(tier), "documents": len(DOCS),
            "selfs": len(SELFS), "odd_fragments": len(ODD)}


def items(tier):
    for d in range(len(DOCS)):
        for i in range(len(SEGS)):
            yield {"kind": "walk", "doc": d, "first": i, "depth": depth(tier), "self": d % len(SELFS)}
    for s in range(len(SELFS)):
        yield {"kind": "self", "self": s, "depth": 2}
    for d in range(len(DOCS)):
        yield {"kind": "odd", "doc": d}


class Unresolved(Exception):
    pass


def seg_keys(seg):
    """The keys one segment token names (some tokens are several segments)."""
    import re

    out = []
    for m in re.finditer(r"""\.(\w+)|\['((?:[^']|\\')+?)'\](?=[.\[]|$)|\["((?:[^"]|\\")+?)"\](?=[.\[]|$)|\[([0-9]+)\]""", seg):
        if m.group(1) is not None:
            out.append(m.group(1))
        elif m.group(2) is not None:
            out.append(m.group(2).replace("\\'", "'").replace('\\"', '"'))
        elif m.group(3) is not None:
            out.append(m.group(3).replace("\\'", "'").replace('\\"', '"'))
        else:
            out.append(int(m.group(4)))
    return out


def walk(value, keys):
    for n, k in enumerate(keys):
        if isinstance(k, int):
            if not isinstance(value, list) or k >= len(value):
                raise Unresolved
            value = value[k]
        elif isinstance(value, list) and k == "length" and n == len(keys) - 1:
            value = len(value)
        elif isinstance(value, dict) and k in value:
            value = value[k]
        else:
            raise Unresolved
    return value


_HANDED = ("handed to js",)


def engines():
    from cwl_utils.sandboxjs import NodeJSEngine

    class Recording(NodeJSEngine):
        def __init__(self):
            super().__init__()
            self.calls = []

        def eval(self, scan, jslib="", timeout=20, **kw):
            self.calls.append(scan)
            return "HANDED " + scan

    class Awaitable(NodeJSEngine):
        def __init__(self):
            super().__init__()
            self.calls = []

        async def eval(self, scan, jslib="", timeout=20, **kw):
            self.calls.append(scan)
            return "HANDED " + scan

        async def regex_eval(self, parsed_string, remaining_string, current_value, **kw):
            return Recording().regex_eval(parsed_string, remaining_string, current_value)

    return Recording, Awaitable


CLASSES = None


def setup(tier):
    global CLASSES
    CLASSES = engines()
    import asyncio

    asyncio.set_event_loop(asyncio.new_event_loop())


def do(frag, doc, self_, js, engine):
    """('v', value) | ('err', is_expression_error)"""
    from cwl_utils.errors import WorkflowException
    from cwl_utils.expression import do_eval

    reqs = [{"class": "InlineJavascriptRequirement"}] if js else []
    try:
        return "v", do_eval(frag, doc, reqs, "/out", "/tmp", dict(RUNTIME), context=self_,
                            cwlVersion="v1.2", js_engine=engine)
    except WorkflowException as exc:
        return "err", exc


def error_cause_ok(exc):
    """An expression error, not an internal error dressed up."""
    from cwl_utils.errors import JavascriptException, WorkflowException

    c = exc.__cause__
    return isinstance(c, (JavascriptException, WorkflowException))


def one(frag, keys, root, doc, self_, rec, item, todo):
    """keys None: not a parameter reference."""
    rootval = {"inputs": doc, "self": self_,
               "runtime": dict(RUNTIME, tmpdir="/tmp", outdir="/out")}
    if keys is None:
        want = None
    else:
        try:
            want = ("v", walk(rootval[root], keys))
        except Unresolved:
            want = ("unres", None)
    Rec, Awa = CLASSES
    for which in ("nojs", "js", "awaitjs", "awaitnojs"):
        eng = (Awa if which.startswith("await") else Rec)()
        js = which in ("js", "awaitjs")
        rec.transitions += 1
        try:
            got = do(frag, doc, self_, js, eng)
        except Exception as exc:
            rec.fail("%s (%s): internal error %r" % (frag, which, exc), item)
            continue
        rec.traces += 1
        if want is not None and want[0] == "v":
            ok = got[0] == "v" and same(got[1], want[1]) and not eng.calls
            if not ok:
                rec.fail("%s (%s) on %s gave %r (engine calls %r), expected %r"
                         % (frag, which, json.dumps(doc)[:80], got, eng.calls, want[1]), item)
        elif js:
            if got != ("v", "HANDED " + frag[1:]) or eng.calls != [frag[1:]]:
                rec.fail("%s (%s) not handed to the engine unchanged: %r, calls %r"
                         % (frag, which, got, eng.calls), item)
            rec.outcome("handed-to-js")
        else:
            if got[0] != "err" or not error_cause_ok(got[1]) or eng.calls:
                rec.fail("%s (%s) on %s: expected an expression error, got %r"
                         % (frag, which, json.dumps(doc)[:80], got), item)
    if want is None:
        rec.outcome("not-a-reference")
    elif want[0] == "v":
        rec.outcome("null" if want[1] is None else "value")
        if frag.endswith("length)"):
            rec.outcome("length")
        todo.append((frag, want[1]))
    else:
        rec.outcome("unresolved")


def same(a, b):
    return a == b and json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def node_check(todo, doc, self_, rec, item):
    """The same references, as JavaScript, in Node.js."""
    if not todo:
        return
    prog = ("var inputs=%s;var self=%s;var runtime=%s;" % (
        json.dumps(doc), json.dumps(self_), json.dumps(dict(RUNTIME, tmpdir="/tmp", outdir="/out"))))
    frs = [f[1:] for f, _ in todo]
    prog += ("var out=[];var fs=%s;for(var i=0;i<fs.length;i++){"
             "out.push((0,eval)(fs[i]));}"
             "process.stdout.write(JSON.stringify(out));" % json.dumps(frs))
    out = subprocess.run(["node", "-"], input=prog, capture_output=True, text=True, check=True)
    vals = json.loads(out.stdout)
    for (frag, want), js in zip(todo, vals):
        rec.transitions += 1
        if js != want:
            rec.fail("%s: %r, but JavaScript says %r" % (frag, want, js), item)


def run_item(item, rec):
    if CLASSES is None:
        setup("quick")
    if item["kind"] == "walk":
        doc = DOCS[item["doc"]]
        self_ = SELFS[item["self"]]
        todo = []
        first = SEGS[item["first"]]
        dead = []
        for n in range(0, item["depth"]):
            for t in itertools.product(SEGS, repeat=n):
                path = (first,) + t
                s = "".join(path)
                # a prefix that does not resolve fails in the same way however it continues:
                # below it, only continue one level
                if any(s.startswith(d) for d in dead):
                    continue
                keys = seg_keys(s)
                rec.state([item["doc"], keys, s])
                before = len(todo)
                one("$(inputs%s)" % s, keys, "inputs", doc, self_, rec,
                    dict(item, only=s), todo)
                if len(todo) == before and n >= 1 and not s.endswith("length"):
                    dead.append(s)
        node_check(todo, doc, self_, rec, item)
        rec.sample("walk", "$(inputs%s) over document %d" % (first, item["doc"]))
    elif item["kind"] == "self":
        todo = []
        self_ = SELFS[item["self"]]
        for root in ("self", "runtime", "inputs"):
            for n in range(0, item["depth"] + 1):
                for t in itertools.product(SEGS, repeat=n):
                    if root != "self" and n > 1:
                        continue
                    s = "".join(t)
                    rec.state([root, item["self"], s])
                    one("$(%s%s)" % (root, s), seg_keys(s), root, DOCS[0], self_, rec, item, todo)
        node_check(todo, DOCS[0], self_, rec, item)
    elif item["kind"] == "odd":
        from cwl_utils.errors import WorkflowException

        doc = DOCS[item["doc"]]
        for frag in ODD:
            rec.state(["odd", item["doc"], frag])
            if frag == "$(null)":
                for js in (True, False):
                    eng = CLASSES[0]()
                    rec.step()
                    got = do(frag, doc, None, js, eng)
                    rec.trace()
                    rec.check(got == ("v", None) and not eng.calls, "$(null) gave %r" % (got,), item)
                continue
            from checks.c01 import ref_parts, Unterminated
            try:
                parts = ref_parts(frag, 2)
                if len(parts) != 1:
                    continue
            except Unterminated:
                continue
            one(frag, None, None, doc, None, rec, item, [])
