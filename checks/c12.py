"""C12: every way of loading a document."""

import copy
import http.server
import itertools
import json
import os
import pathlib
import shutil
import tempfile
import threading

PID = "C12"
LEVEL = "model_checking"
RULE = (
    "every entry point (path text absolute and relative, Path, file URI, http URI on loopback, YAML text, parsed "
    "YAML, plain dict, with and without fragment or id, one or all processes) x every graph of up to 3 processes "
    "over a set of confusable ids x process kind x version, every unsupported version, awkward file names, and "
    "every history of loads up to the depth bound on one parsed document; the oracle describes the expected object "
    "from the generator's own data"
)
ASSUMPTIONS = ["documents use inputs, outputs, formats and extension fields as the observable content of a process"]
REQUIRED_OUTCOMES = ("loaded", "all", "absent-target", "bad-version", "http", "history")
ITEM_TIMEOUT = 900
EX = {}
IDS = ["main", "#main", "tool", "#tool", "mai", "main2", "sub/main"]
VERSIONS = ["v1.0", "v1.1", "v1.2"]
NS = {"edam": "http://edamontology.org/", "s": "http://schema.org/"}


def BOUNDS(tier):
    return {"graph_size": 3, "ids": ids(tier), "history_depth": 4 if tier == "thorough" else 3,
            "versions": VERSIONS}


def ids(tier):
    return IDS if tier == "thorough" else IDS[:5]


def setup(tier):
    from schema_salad.exceptions import ValidationException
    from schema_salad.utils import yaml_no_ts

    import cwl_utils.parser as parser
    from cwl_utils.errors import GraphTargetMissingException

    EX.update(P=parser, VE=ValidationException, GT=GraphTargetMissingException, yaml=yaml_no_ts)
    EX["dir"] = os.path.realpath(tempfile.mkdtemp())
    os.chdir(EX["dir"])

    class H(http.server.SimpleHTTPRequestHandler):
        def __init__(self, *a, **k):
            super().__init__(*a, directory=EX["dir"], **k)

        def log_message(self, *a):
            pass

    EX["srv"] = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
    threading.Thread(target=EX["srv"].serve_forever, daemon=True).start()
    os.environ["HOME"] = EX["dir"]
    for k in list(os.environ):
        if k.lower().endswith("_proxy"):
            del os.environ[k]


def teardown():
    EX["srv"].shutdown()
    os.chdir("/")
    shutil.rmtree(EX["dir"])


def kinds(version):
    return ["CommandLineTool", "ExpressionTool", "Workflow"] + (["Operation"] if version == "v1.2" else [])


def entry(ident, kind, n, ns):
    d = {"class": kind}
    if ident is not None:
        d["id"] = ident
    inp = {"id": "in%d" % n, "type": "File"}
    if ns:
        inp["format"] = "edam:format_%d" % n
    d["inputs"] = [inp]
    d["outputs"] = []
    if kind == "CommandLineTool":
        d["baseCommand"] = ["cmd%d" % n]
    elif kind == "ExpressionTool":
        d["expression"] = "$({})"
    elif kind == "Workflow":
        d["steps"] = []
    if ns:
        d["s:author"] = "author%d" % n
    return d


def bare(ident):
    return ident.lstrip("#")


def expected(base, version, ident, kind, n, ns, graph):
    """What the loaded object must look like."""
    pid = base if ident is None else base + "#" + bare(ident)
    return {
        "class": kind, "version": version, "id": pid,
        "inputs": [[(pid + "/" if "#" in pid else pid + "#") + "in%d" % n, "File",
                    "http://edamontology.org/format_%d" % n if ns else None]],
        "cmd": ["cmd%d" % n] if kind == "CommandLineTool" else None,
        "ext": {"http://schema.org/author": "author%d" % n} if ns else {},
        "module": "cwl_utils.parser.cwl_" + version.replace(".", "_"),
    }


def describe(o):
    return {
        "class": o.class_, "version": o.cwlVersion, "id": o.id,
        "inputs": [[i.id, i.type_, i.format] for i in o.inputs],
        "cmd": getattr(o, "baseCommand", None),
        "ext": dict(o.extension_fields),
        "module": type(o).__module__,
    }


def items(tier):
    n = 0
    for version in VERSIONS:
        for size in (1, 2, 3):
            for c in itertools.permutations(ids(tier), size):
                if len({bare(x) for x in c}) < size:
                    continue
                n += 1
                yield ["graph", version, list(c), n % 4, n % 2]
        for kind in kinds(version):
            for ident in (None, "main", "#x"):
                for ns in (0, 1):
                    yield ["single", version, kind, ident, ns]
        yield ["names", version]
        yield ["http", version]
        depth = BOUNDS(tier)["history_depth"]
        for first in range(5):
            yield ["history", version, depth, first]
    for v in BAD:
        yield ["version", v]
    yield ["notmap"]


BAD = ["<absent>", None, "", "v1.3", "v1.2.0-dev1", "draft-3", "v1", 1.2, 1, "V1.2", " v1.2", "v1.20", ["v1.2"]]


def attempt(fn):
    try:
        r = fn()
    except EX["GT"]:
        return "absent"
    except EX["VE"]:
        return "invalid"
    if isinstance(r, list):
        return [describe(o) for o in r]
    return describe(r)


def judge(rec, what, fn, want, item, outcome=None):
    got = attempt(fn)
    rec.step()
    rec.trace()
    rec.state(json.dumps([what, want]))
    rec.outcome(outcome or ("absent-target" if want == "absent" else "all" if isinstance(want, list) else
                            "bad-version" if want == "invalid" else "loaded"))
    if got != want:
        rec.fail("%s: loaded %s, expected %s" % (what, got, want), key="%s %s" % (what, json.dumps(item)))


def document(version, entries, ns):
    d = {}
    if version != "<absent>":
        d["cwlVersion"] = version
    if ns:
        d["$namespaces"] = dict(NS)
    if len(entries) == 1 and not isinstance(entries, tuple):
        d.update(entries[0])
    else:
        d["$graph"] = list(entries)
    return d


def entry_points(rec, item, doc, name, want_of, fragments, load_alls=(False, True), http_too=False):
    """Loads doc through every entry point and compares with want_of(base, fragment, load_all)."""
    P = EX["P"]
    path = os.path.join(EX["dir"], name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    text = json.dumps(doc, indent=1)
    with open(path, "w") as h:
        h.write(text)
    uri = pathlib.Path(path).as_uri()
    cwd = pathlib.Path(EX["dir"]).as_uri() + "/"
    for frag in fragments:
        f = "" if frag is None else "#" + frag
        for la in load_alls:
            want = want_of(uri, frag, la)
            kw = {"load_all": True} if la else {}
            plain = "%" not in name and "?" not in name
            if plain:
                judge(rec, "absolute path text%s" % f, lambda: P.load_document_by_uri(path + f, **kw), want, item)
                judge(rec, "relative path text%s" % f, lambda: P.load_document_by_uri(name + f, **kw), want, item)
            judge(rec, "file URI%s" % f, lambda: P.load_document_by_uri(uri + f, **kw), want, item)
            if "/" in f:
                pass  # a Path cannot carry such a fragment
            else:
                judge(rec, "Path%s" % f, lambda: P.load_document_by_uri(pathlib.Path(path + f), **kw), want, item)
                judge(rec, "relative Path%s" % f, lambda: P.load_document_by_uri(pathlib.Path(name + f), **kw), want, item)
            kid = dict(kw, id_=frag) if frag is not None else kw
            judge(rec, "text%s" % f, lambda: P.load_document(text, uri, **kid), want, item)
            judge(rec, "text by_string%s" % f, lambda: P.load_document_by_string(text, uri, **kid), want, item)
            judge(rec, "parsed%s" % f, lambda: P.load_document(EX["yaml"]().load(text), uri, **kid), want, item)
            judge(rec, "parsed by_yaml%s" % f, lambda: P.load_document_by_yaml(EX["yaml"]().load(text), uri, **kid), want, item)
            judge(rec, "dict%s" % f, lambda: P.load_document(copy.deepcopy(doc), uri, **kid), want, item)
            judge(rec, "default base%s" % f, lambda: P.load_document(text, **kid), want_of(cwd, frag, la), item)
            lo = P.LoadingOptions()
            judge(rec, "own options%s" % f, lambda: P.load_document_by_uri(uri + f, lo, **kw), want, item)
            if http_too:
                hu = "http://127.0.0.1:%d/%s" % (EX["srv"].server_address[1], name)
                judge(rec, "http%s" % f, lambda: P.load_document_by_uri(hu + f, **kw), want_of(hu, frag, la), item, "http")
    os.unlink(path)


def graph_case(version, idents, koff, ns):
    ks = kinds(version)
    ents = tuple(entry(i, ks[(n + koff) % len(ks)], n, ns) for n, i in enumerate(idents))

    def want_of(base, frag, load_all):
        exp = [expected(base, version, i, ks[(n + koff) % len(ks)], n, ns, True) for n, i in enumerate(idents)]
        if load_all:
            return exp
        wanted = "main" if frag is None else frag
        for i, e in zip(idents, exp):
            if bare(i) == wanted:
                return e
        return "absent"

    return document(version, ents, ns), want_of


def run_item(item, rec):
    kind = item[0]
    P = EX["P"]
    if kind == "graph":
        _, version, idents, koff, ns = item
        doc, want_of = graph_case(version, idents, koff, ns)
        frags = [None] + sorted({bare(i) for i in idents}) + ["nosuch", "m"]
        entry_points(rec, item, doc, "doc.cwl", want_of, frags)
    elif kind == "single":
        _, version, k, ident, ns = item
        doc = document(version, [entry(ident, k, 1, ns)], ns)
        want_of = lambda base, frag, la: expected(base, version, ident, k, 1, ns, False)  # noqa
        entry_points(rec, item, doc, "doc.cwl", want_of, [None])
    elif kind == "names":
        version = item[1]
        for name in ("a+b.cwl", "a b.cwl", "x&y=z.cwl", "p%q.cwl", "p%2Bq.cwl", "ü.cwl", "sub dir+/d.cwl", "q;r.cwl", "c,d@e.cwl"):
            doc, want_of = graph_case(version, ["main", "tool"], 0, 1)
            entry_points(rec, item + [name], doc, name, want_of, [None, "tool", "nosuch"], (False,))
    elif kind == "http":
        version = item[1]
        for idents in (["main", "tool"], ["tool", "#main", "x"], ["tool"]):
            doc, want_of = graph_case(version, idents, 1, 1)
            entry_points(rec, item + [idents], doc, "h.cwl", want_of, [None, "tool", "main", "nosuch"], http_too=True)
        doc = document(version, [entry("q", "Workflow", 1, 1)], 1)
        entry_points(rec, item, doc, "h.cwl", lambda b, f, la: expected(b, version, "q", "Workflow", 1, 1, False), [None], http_too=True)
    elif kind == "history":
        _, version, depth, first = item
        doc, want_of = graph_case(version, ["main", "#tool", "x"], 0, 1)
        ops = [None, "main", "tool", "absent", "<all>"]
        uri = pathlib.Path(EX["dir"], "doc.cwl").as_uri()
        pathlib.Path(EX["dir"], "doc.cwl").write_text(json.dumps(doc))
        text = json.dumps(doc)
        for rest in itertools.product(range(5), repeat=depth - 1):
            for shared in (False, True):
                parsed = EX["yaml"]().load(text)
                lo = P.LoadingOptions(fileuri=uri, baseuri=uri) if shared else None
                for pos, o in enumerate((first,) + rest):
                    op = ops[o]
                    la = op == "<all>"
                    frag = None if la or op is None else op
                    got = attempt(lambda: P.load_document_by_yaml(parsed, uri, lo, frag, la))
                    want = want_of(uri, frag, la)
                    rec.step()
                    if got != want:
                        rec.fail("load %s of history %s: %s, expected %s" % (pos, (first,) + rest, got, want),
                                 key="history %s %s %s" % (version, (first,) + rest[:pos], shared))
                        break
                rec.plain_states += 1
                rec.trace()
                rec.outcome("history")
    elif kind == "version":
        v = item[1]
        for ents, name in (([entry("main", "Workflow", 1, 0)], "single"), ((entry("main", "CommandLineTool", 1, 0),), "graph"),
                           ((entry("main", "CommandLineTool", 1, 0), entry("b", "Workflow", 1, 0)), "graph2")):
            doc = document(v, ents, 0)
            entry_points(rec, item + [name], doc, "v.cwl", lambda b, f, la: "invalid", [None])
    else:
        for doc in ([], ["x"], [{"cwlVersion": "v1.2", "class": "Workflow"}], 5, None):
            if not isinstance(doc, str):
                judge(rec, "not a mapping", lambda: P.load_document(copy.deepcopy(doc), "file:///x/y"), "invalid", [doc])
                judge(rec, "not a mapping (text)", lambda: P.load_document(json.dumps(doc), "file:///x/y"), "invalid", [doc])
        for text in ("just text", "", "~"):
            judge(rec, "not a mapping (text)", lambda: P.load_document(text, "file:///x/y"), "invalid", [text])
