"""C13: input objects."""

import copy
import http.server
import itertools
import json
import os
import pathlib
import posixpath
import shutil
import tempfile
import threading

PID = "C13"
LEVEL = "model_checking"
RULE = (
    "every input object that places a leaf (scalars, every File and Directory literal of the family, nested literals) "
    "under every path of lists and maps up to the depth bound, every pair of leaves side by side, every location form "
    "against every base, every subset of File fields up to the bound; each through every entry point and version, "
    "against a reference resolution written from the CWL text"
)
ASSUMPTIONS = ["literals contain only fields of the CWL schema or namespaced extension fields"]
REQUIRED_OUTCOMES = ("literal", "plain", "bad-version", "http")
ITEM_TIMEOUT = 900
VERSIONS = ["v1.0", "v1.1", "v1.2"]
EX = {}
SCALARS = [0, 1, -5, 10 ** 12, 2.5, True, False, None, "", "x", "$(inputs.x)", "a: b", "2001-01-01", "null", "\u00fc\n\"q'"]
FIELDS = {
    "location": "f.txt", "path": "sub/p.txt", "basename": "b.txt", "dirname": "/d", "nameroot": "b", "nameext": ".txt",
    "checksum": "sha1$00", "size": 0, "secondaryFiles": [{"class": "File", "location": "f.idx"}, {"class": "Directory", "location": "d"}],
    "format": "http://x.org/fmt", "contents": "",
}
DFIELDS = {"location": "d", "path": "sub/d", "basename": "D", "listing": [{"class": "File", "location": "d/f", "size": 3},
                                                                        {"class": "Directory", "basename": "e", "listing": []}]}


def f(**k):
    return dict({"class": "File"}, **k)


def d(**k):
    return dict({"class": "Directory"}, **k)


def leaves():
    out = list(SCALARS)
    out += [f(location="f.txt"), f(contents="text", basename="t"), d(location="d"), d(basename="D", listing=[]),
            f(location="f", secondaryFiles=[f(location="g", secondaryFiles=[f(location="h"), d(location="i")])]),
            d(listing=[d(listing=[d(listing=[f(location="deep")])]), f(contents="")], basename="x"),
            f(location="f", secondaryFiles=[]), f(location="http://h.org/f?x=1"), d(location="/abs/d"),
            {"class": "Other", "location": "f.txt"}, {"location": "f.txt"}, {"id": "x"}, [], {}]
    return out


def BOUNDS(tier):
    return {"container_depth": 4 if tier == "thorough" else 3, "file_field_subset": 11 if tier == "thorough" else 3,
            "leaves": len(leaves()), "versions": VERSIONS}


def setup(tier):
    from schema_salad.exceptions import ValidationException
    from schema_salad.utils import yaml_no_ts

    import cwl_utils.parser.cwl_v1_0_utils as u0
    import cwl_utils.parser.cwl_v1_1_utils as u1
    import cwl_utils.parser.cwl_v1_2_utils as u2
    import cwl_utils.parser.utils as U

    EX.update(U=U, u={"v1.0": u0, "v1.1": u1, "v1.2": u2}, VE=ValidationException, yaml=yaml_no_ts)
    EX["dir"] = os.path.realpath(tempfile.mkdtemp())
    os.chdir(EX["dir"])
    os.environ["HOME"] = EX["dir"]

    class H(http.server.SimpleHTTPRequestHandler):
        def __init__(self, *a, **k):
            super().__init__(*a, directory=EX["dir"], **k)

        def log_message(self, *a):
            pass

    EX["srv"] = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
    threading.Thread(target=EX["srv"].serve_forever, daemon=True).start()
    for k in list(os.environ):
        if k.lower().endswith("_proxy"):
            del os.environ[k]


def teardown():
    EX["srv"].shutdown()
    os.chdir("/")
    shutil.rmtree(EX["dir"])


def wrap(path, leaf, extra=None):
    v = leaf
    for c in reversed(path):
        if c == "L":
            v = [v]
        elif c == "P":
            v = [7, v]
        elif c == "M":
            v = {"k": v}
        elif c == "R":
            v = {"before": "q", "k": v, "after": [None]}
        elif c == "S":
            v = f(location="host", secondaryFiles=[v])
        elif c == "D":
            v = d(location="host", listing=[v])
    return v


def items(tier):
    depth = BOUNDS(tier)["container_depth"]
    n = len(leaves())
    for k in range(depth + 1):
        for path in itertools.product("LPMR", repeat=k):
            yield ["place", "".join(path)]
    for path in ("S", "D", "SS", "SD", "DS", "DD", "LS", "MD", "SDS", "DSD", "RLS"):
        yield ["literal", path]
    for i in range(n):
        yield ["pair", i]
    yield ["locations"]
    m = BOUNDS(tier)["file_field_subset"]
    for first in range(11):
        yield ["fields", first, m]
    yield ["dirfields"]
    yield ["ext"]
    yield ["entry"]
    yield ["version"]
    yield ["id-lists"]


def resolve(base, loc):
    if "://" in loc:
        return loc
    i = base.index("://") + 3
    j = base.find("/", i)
    root, path = base[:j], base[j:]
    if loc.startswith("/"):
        return root + loc
    return root + posixpath.normpath(posixpath.join(posixpath.dirname(path), loc))


def expect(v, base):
    if isinstance(v, list):
        return [expect(x, base) for x in v]
    if isinstance(v, dict):
        c = v.get("class")
        if c in ("File", "Directory"):
            r = {"__class__": c, "fields": {}, "ext": {}}
            for k, x in v.items():
                if k == "class":
                    continue
                if k in ("location", "path"):
                    x = resolve(base, x)
                elif k in ("secondaryFiles", "listing"):
                    x = expect(x, base)
                if "://" in k:
                    r["ext"][k] = x
                elif x is not None:
                    r["fields"][k] = x
            return r
        return {k: expect(x, base) for k, x in v.items()}
    return v


def describe(v, version):
    if isinstance(v, list):
        return [describe(x, version) for x in v]
    if isinstance(v, dict):
        return {k: describe(x, version) for k, x in v.items()}
    if hasattr(v, "loadingOptions"):
        if type(v).__module__ != "cwl_utils.parser.cwl_" + version.replace(".", "_"):
            return "object of " + type(v).__module__
        return {"__class__": v.class_, "ext": dict(v.extension_fields),
                "fields": {k: describe(x, version) for k, x in vars(v).items()
                           if k not in ("class_", "extension_fields", "loadingOptions") and x is not None}}
    return v


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def points(doc, version, base, everything):
    U, u = EX["U"], EX["u"][version]
    text = json.dumps(doc)
    yield "by_yaml dict", lambda: U.load_inputfile_by_yaml(version, copy.deepcopy(doc), base), base
    if everything:
        parsed = lambda: EX["yaml"]().load(text)  # noqa
        yield "by_string", lambda: U.load_inputfile_by_string(version, text, base), base
        yield "load text", lambda: U.load_inputfile(version, text, base), base
        yield "load parsed", lambda: U.load_inputfile(version, parsed(), base), base
        cwd = pathlib.Path(EX["dir"]).as_uri() + "/"
        yield "load without base", lambda: U.load_inputfile(version, parsed()), cwd
        yield "load text without base", lambda: U.load_inputfile(version, text), cwd
        yield "own load", lambda: u.load_inputfile(parsed(), base), base
        yield "own load without base", lambda: u.load_inputfile(parsed()), cwd
        yield "own by_string", lambda: u.load_inputfile_by_string(text, base), base
        yield "own by_yaml", lambda: u.load_inputfile_by_yaml(parsed(), base), base


def compare(rec, doc, version, base, everything=False):
    for name, fn, b in points(doc, version, base, everything):
        judge(rec, doc, version, name, fn, b)


def judge(rec, doc, version, name, fn, base, outcome=None):
    want = expect(doc, base)
    rec.step()
    rec.trace()
    rec.plain_states += 1
    rec.outcome(outcome or ("literal" if "__class__" in json.dumps(want) else "plain"))
    key = "%s %s %s %s" % (version, name, base, json.dumps(doc))
    try:
        got = describe(fn(), version)
    except EX["VE"] as e:
        rec.fail("%s %s rejects %s: %s" % (version, name, json.dumps(doc), str(e)[:200]), key=key)
        return
    if not same(got, want):
        rec.fail("%s %s of %s is %s, expected %s" % (version, name, json.dumps(doc), got, want), key=key)


BASE = "file:///base/dir/job.yml"


def run_item(item, rec):
    kind = item[0]
    if kind == "place":
        for leaf in leaves():
            doc = {"a": wrap(item[1], leaf), "b": 1}
            for v in VERSIONS:
                compare(rec, doc, v, BASE, len(item[1]) < 2)
    elif kind == "literal":
        for leaf in leaves():
            if isinstance(leaf, dict) and leaf.get("class") in ("File", "Directory"):
                for v in VERSIONS:
                    compare(rec, {"a": wrap(item[1], leaf)}, v, BASE, len(item[1]) < 2)
    elif kind == "pair":
        a = leaves()[item[1]]
        for b in leaves():
            for v in VERSIONS:
                for doc in ({"a": a, "b": b}, {"a": [a, b]}, {"a": {"x": a, "y": b}}, {"a": [[a], [b, a]]}):
                    compare(rec, doc, v, BASE)
    elif kind == "locations":
        for base in (BASE, "file:///job.yml", "http://h.org/p/q/job.yml", "file:///a%20b/c+d/job.yml"):
            for loc in ("f", "./f", "../f", "a/../b/f", "sub/dir/f.txt", "/abs/f", "file:///other/f", "http://e.org/f", "https://e.org/a#b",
                        "s3://bucket/key", "f.tar.gz", "f+g", "f%20g", "a&b=c", "f,g;h@i", "f g"):
                for v in VERSIONS:
                    if loc.startswith("s3"):
                        continue  # schemes that no fetcher knows are resolved at run time
                    compare(rec, {"a": f(location=loc)}, v, base)
                    compare(rec, {"a": d(location=loc, listing=[f(location=loc)])}, v, base)
                    compare(rec, {"a": [f(location="x", secondaryFiles=[f(location=loc)])]}, v, base)
    elif kind == "fields":
        names = list(FIELDS)
        for k in range(item[2]):
            for rest in itertools.combinations(range(item[1] + 1, 11), k):
                doc = {"a": f(**{names[i]: copy.deepcopy(FIELDS[names[i]]) for i in (item[1],) + rest})}
                for v in VERSIONS:
                    compare(rec, doc, v, BASE)
    elif kind == "dirfields":
        for k in range(5):
            for c in itertools.combinations(DFIELDS, k):
                for v in VERSIONS:
                    compare(rec, {"a": d(**{n: copy.deepcopy(DFIELDS[n]) for n in c})}, v, BASE)
    elif kind == "ext":
        for x in (1, "v", [1, [2]], {"q": None}):
            for v in VERSIONS:
                compare(rec, {"a": f(location="f", **{"http://x.org/extra": x})}, v, BASE)
                compare(rec, {"a": d(location="f", listing=[f(location="g", **{"http://x.org/extra": x})])}, v, BASE)
    elif kind == "id-lists":
        for doc in ({"a": [{"id": "x", "v": 1}, {"id": "x", "v": 2}]}, {"a": {"r": [{"id": "x"}, {"id": "y"}]}},
                    {"id": "x", "a": [{"id": 1}, {"id": 1}]}, {"class": "x", "id": "y"}):
            for v in VERSIONS:
                compare(rec, doc, v, BASE, True)
    elif kind == "entry":
        U = EX["U"]
        doc = {"a": f(location="f.txt"), "l": [d(location="sub", listing=[f(location="../g")]), 3], "s": "x"}
        for name in ("job.yml", "job+1.yml", "sub dir/job.yml", "\u00fc;x.yml", "a&b.yml", "p%q.yml", "p%41.yml", "j.json"):
            path = os.path.join(EX["dir"], name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as h:
                h.write(json.dumps(doc))
            uri = pathlib.Path(path).as_uri()
            for v in VERSIONS:
                forms = [("file URI", uri), ("Path", pathlib.Path(path)), ("relative Path", pathlib.Path(name))]
                if "%" not in name:
                    forms += [("path text", path), ("relative path text", name)]
                for what, arg in forms:
                    judge(rec, doc, v, what + " " + name, lambda: U.load_inputfile_by_uri(v, arg), uri)
                if name in ("job.yml", "j.json"):
                    hu = "http://127.0.0.1:%d/%s" % (EX["srv"].server_address[1], name)
                    judge(rec, doc, v, "http " + name, lambda: U.load_inputfile_by_uri(v, hu), hu, "http")
    elif kind == "version":
        U = EX["U"]
        path = os.path.join(EX["dir"], "v.yml")
        with open(path, "w") as h:
            h.write('{"a": 1}')
        for v in (None, "", "v1.3", "draft-3", "v1.2.0-dev5", "1.2", 1.2, "v1"):
            for what, fn in (("uri", lambda: U.load_inputfile_by_uri(v, path)), ("text", lambda: U.load_inputfile(v, '{"a": 1}', BASE)),
                             ("dict", lambda: U.load_inputfile(v, {"a": 1}, BASE)), ("by_yaml", lambda: U.load_inputfile_by_yaml(v, {"a": 1}, BASE)),
                             ("by_string", lambda: U.load_inputfile_by_string(v, '{"a": 1}', BASE))):
                rec.step()
                rec.trace()
                rec.state([v, what])
                rec.outcome("bad-version")
                try:
                    fn()
                except EX["VE"]:
                    continue
                rec.fail("version %r accepted by %s" % (v, what), key="version %r %s" % (v, what))
