"""C10: loading and saving a document preserves it."""

import glob
import json
import os

from mc.grammar import CWLTOOL, ROOTS, VERSIONS, Generator, Grammar, Oracle, plain, record_name
from mc.wf import scratch

PID = "C10"
LEVEL = "model_checked_code"
RULE = ("one state per generated document (construct, field, alternative of the field's grammar, all-fields instances, "
        "reference graphs, every loadable document of the test data) and root id; one transition per load, save, reload "
        "and second save, with relative and absolute references; the reference model is the official CWL schema expanded "
        "by schema salad's reference resolver, which shares no code with the generated parsers")
ASSUMPTIONS = ["documents are local; the 17 values for untyped fields stand for all JSON values",
               "pairs of fields are varied together only in the thorough tier"]
REQUIRED_OUTCOMES = ("same", "graph-same", "file-same", "extension-same")
ITEM_TIMEOUT = 800

G = {}
DIR = None
URI = None
FILES = ("udt.yml", "sub/tool2.cwl", "doc.cwl", "fmt.owl", "tool.cwl", "dir/x")
REFSCOPE = {"source": 2, "outputSource": 1, "loopSource": 1, "secrets": 0, "scatter": 0}


def setup(tier):
    global DIR, URI
    sc = scratch()
    DIR = sc.dir
    for f in FILES:
        p = os.path.join(DIR, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").close()
    URI = "file://" + os.path.join(DIR, "doc.cwl")


def get(v):
    if v not in G:
        g = Grammar(v)
        G[v] = (g, Generator(g), Oracle(g))
    return G[v]


_TABLE = {}


def table(v):
    """Names of records and fields, loaded in the parent once."""
    if v not in _TABLE:
        g, gen, _ = get(v)
        _TABLE[v] = [(rec, [f for f, _ in gen.fields(rec)]) for rec in gen.order]
    return _TABLE[v]


# ---------------------------------------------------------------- normal forms

def expected(x, g, key=None, scopes=(), top=True):
    """Normal form of what the reference resolver returns."""
    verbatim = key in ("default", "hints", "loop_verbatim")
    if isinstance(x, dict):
        d = {}
        own = x.get("id", x.get("name")) if not verbatim else None
        if isinstance(own, str) and own.startswith("_:"):
            own = None
        sc = scopes + ((own,) if isinstance(own, str) else ())
        if top and own is None:
            sc = (URI,)
        for k, v in x.items():
            if k in ("$namespaces", "$schemas", "$base"):
                continue
            if v is None and not verbatim:
                continue
            if k in ("id", "name") and isinstance(v, str) and v.startswith("_:") and not verbatim:
                continue
            if k in ("id",) and top and v == URI:
                continue
            if k == "class" and isinstance(v, str):
                if v.startswith(CWLTOOL):
                    v = v[len(CWLTOOL):]
                if v.startswith("cwltool:"):
                    v = v[len("cwltool:"):]
                if verbatim and v.startswith("ex:"):
                    v = "http://example.com/" + v[3:]
                if verbatim and v.startswith("file:"):
                    v = v.rsplit("/", 1)[1]
            if k == "id" and verbatim and isinstance(v, str) and v.startswith(URI):
                v = v.replace("#", "/").rsplit("/", 1)[1]
            if k in ("location", "path") and key == "default" and isinstance(v, str) and ":" not in v:
                v = URI.rsplit("/", 1)[0] + "/" + v
            if k == "type" and verbatim and v == ["null", "int"]:
                v = "int?"        # the resolver rewrites the data of untyped fields, too
            if k in ("items", "type") and not verbatim and sc:
                v = udt(v, sc[-1], g)
            if k in REFSCOPE and not verbatim:
                v = scoped(v, sc[-1], REFSCOPE[k]) if sc else v
            if k == "secondaryFiles" and isinstance(v, dict) and not verbatim:
                v = [v]
            if k == "run" and isinstance(v, dict) and sc and g.version != "v1.0":
                d[k] = expected(v, g, k, sc + (sc[-1] + "/run",), False)
                continue
            d[k] = expected(v, g, key if verbatim else k, sc, False)
        return d
    if isinstance(x, list):
        r = [expected(v, g, key, scopes, False) for v in x]
        if key == "listing":
            r = [y for v in r for y in (v if isinstance(v, list) else [v])]
        return r
    return x


def udt(v, base, g):
    if isinstance(v, list):
        return [udt(x, base, g) for x in v]
    return scoped(v, base, 2) if isinstance(v, str) and v not in g.loader.vocab else v


def scoped(v, base, n):
    if isinstance(v, list):
        return [scoped(x, base, n) for x in v]
    if not isinstance(v, str) or "file:" in v or v.startswith("$"):
        return v
    frag = base.split("#")[1].split("/") if "#" in base else []
    if n:
        frag = frag[:-n] if len(frag) > n else []
    return base.split("#")[0] + "#" + "/".join(frag + [v])


def same(a, b, path=""):
    """None, or where two trees differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return "%s/%s: missing instead of %r" % (path, k, b[k])
            if k not in b:
                return "%s/%s: %r instead of nothing" % (path, k, a[k])
            d = same(a[k], b[k], "%s/%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, "%s/%d" % (path, i))
            if d:
                return d
        return None
    if a == b and (type(a) is type(b) or isinstance(a, str) or {type(a), type(b)} <= {int, float}
                   or (isinstance(a, (int, float)) and isinstance(b, (int, float))
                       and isinstance(a, bool) == isinstance(b, bool))):
        return None
    return "%s: %r instead of %r" % (path, a, b)


# ---------------------------------------------------------------- one document

def load(doc, uri):
    from cwl_utils.parser import load_document_by_yaml
    from schema_salad.sourceline import cmap

    return load_document_by_yaml(cmap(json.loads(json.dumps(doc))), uri)


def round_trip(rec, ob, uri, where, check_saved=None):
    """Saves and reloads an object twice, with relative and absolute references."""
    from cwl_utils.parser import save

    p = plain(ob)
    meta = (ob.loadingOptions.namespaces, ob.loadingOptions.schemas)
    for rel in (True, False):
        for base in ("", uri) if rel else ("",):
            s1 = json.loads(json.dumps(save(ob, base_url=base, relative_uris=rel)))
            rec.step(3)
            tag = "%s saved with %s references (base %r)" % (where, "relative" if rel else "absolute", base)
            try:
                ob2 = load(s1, uri)
            except Exception as exc:
                rec.fail("%s: not loadable: %s" % (tag, str(exc)[-300:]), saved=s1)
                return
            d = same(plain(ob2), p)
            if d:
                rec.fail("%s: reloaded with %s" % (tag, d), saved=s1)
                return
            if (ob2.loadingOptions.namespaces, ob2.loadingOptions.schemas) != meta:
                rec.fail("%s: namespaces or schemas changed" % tag, saved=s1)
                return
            s2 = json.loads(json.dumps(save(ob2, base_url=base, relative_uris=rel)))
            d = same(s2, s1)
            if d:
                rec.fail("%s: second save has %s" % (tag, d), saved=s1)
                return
            if check_saved:
                d = check_saved(s1)
                if d:
                    rec.fail("%s: %s" % (tag, d), saved=s1)
                    return


def check_doc(rec, v, doc, where, outcome="same"):
    g, gen, oracle = get(v)
    res, why = oracle.resolve(doc, URI)
    if res is None:
        rec.outcome("invalid")
        return False
    rec.plain_states += 1
    try:
        ob = load(doc, URI)
    except Exception as exc:
        rec.fail("%s: valid document not loaded: %s" % (where, str(exc)[-400:]), doc=doc)
        return False
    rec.step(1)
    rec.trace(1)
    if record_name(gen.root_of(gen.byname[doc["class"]])) != type(ob).__name__:
        rec.fail("%s: loaded as %s" % (where, type(ob).__name__))
        return False
    want = expected(res, g)
    d = same(expected(plain(ob), g), want)
    if d:
        rec.fail("%s: loaded with %s" % (where, d), doc=doc)
        return False

    def check_saved(s):
        r, w = oracle.resolve(s, URI)
        rec.step(1)
        if r is None:
            return "not valid any more: %s" % w[-300:]
        d = same(expected(r, g), want)
        return d and "denotes %s" % d

    round_trip(rec, ob, URI, where, check_saved)
    rec.outcome(outcome)
    return True


# ---------------------------------------------------------------- work items

def usable(gen, v, rec, f, val):
    """Leaves out what has no defined meaning or refers to what does not exist."""
    if f in ("id", "name") and val is None:
        return False
    if f == "cwlVersion" and rec in [gen.byname[r] for r in ROOTS[v]] and val != v:
        return False
    if f in ("location", "path") and isinstance(val, str) and "%20" in val:
        return False
    if f == "items" and isinstance(val, str) and val[-1] in "?]":
        return False      # the type suffixes are only defined for `type`
    if f == "items" and isinstance(val, list) and any(isinstance(x, str) and x[-1:] in "?]" for x in val):
        return False
    if any('"items": "%s' % t in json.dumps(val) and '"items": "string?"' in json.dumps(val) for t in ("string?",)):
        return False
    return True


EXT = ["text", 1, 1.5, True, None, [], {}, ["a", {"b": [1]}], {"c": {"d": None}}]


def items(tier):
    for v in VERSIONS:
        for name, fields in table(v):
            for f in fields:
                yield ["field", v, name, f]
            yield ["all", v, name]
            yield ["ext", v, name]
        if tier == "thorough":
            for name, fields in table(v):
                for i, f in enumerate(fields):
                    yield ["pair", v, name, f]
        for root in (None, "root", "s"):
            for kind in ("flat", "nested", "scatter", "types"):
                yield ["graph", v, root, kind]
        yield ["packed", v]
    for path in testdata():
        yield ["file", path]


def testdata():
    out = []
    for pat in ("*.cwl", "*.json", "*/*.cwl", "*/*/*.cwl", "*.cwl.json"):
        out += glob.glob("/repo/src/cwl_utils/testdata/" + pat)
    return sorted(set(out))


def root_variants(doc):
    yield doc if "id" in doc else dict(doc)
    if "id" not in doc:
        yield dict(doc, id="root")


def samples(gen, rec, f, alts):
    vals = [x for x in gen.values(rec, f, alts) if x is not None and usable(gen, gen.version, rec, f, x)]
    return vals


def all_fields(gen, rec, k):
    d = {}
    for f, alts in gen.fields(rec):
        vals = samples(gen, rec, f, alts)
        if record_name(rec) in ROOTS[gen.version] and f in ("cwlVersion",):
            continue
        if f == "class":
            vals = [record_name(rec)]
        if vals:
            d[f] = vals[k % len(vals)]
    m = gen.minimal(rec)
    n = record_name(rec)
    if n == "Workflow":
        d["inputs"] = m["inputs"]
    if n == "WorkflowStep":
        d["in"] = m["in"]
        d["scatter"] = ["p", "p"][: k % 2 + 1] if k % 3 else "p"
    return d


def run_item(item, rec):
    kind = item[0]
    if kind == "file":
        return run_file(item[1], rec)
    v = item[1]
    g, gen, oracle = get(v)
    if kind == "graph":
        return run_graph(v, item[2], item[3], rec)
    if kind == "packed":
        return run_packed(v, rec)
    name = item[2]
    fields = dict(gen.fields(name))
    if kind == "field":
        f = item[3]
        for val in gen.values(name, f, fields[f]):
            if not usable(gen, v, name, f, val):
                continue
            inst = gen.minimal(name)
            inst[f] = val
            for doc in root_variants(gen.document(name, inst)):
                check_doc(rec, v, doc, "%s %s.%s = %s%s" % (v, record_name(name), f, json.dumps(val)[:120],
                                                            " in a document with an id" if doc.get("id") == "root" else ""))
    elif kind == "all":
        most = max(len(samples(gen, name, f, a)) for f, a in fields.items())
        for k in range(min(most, 12)):
            inst = all_fields(gen, name, k)
            for doc in root_variants(gen.document(name, inst)):
                check_doc(rec, v, doc, "%s %s with all fields (%d)" % (v, record_name(name), k))
    elif kind == "ext":
        run_ext(v, name, rec)
    elif kind == "pair":
        f = item[3]
        names = list(fields)
        v1 = pick(samples(gen, name, f, fields[f]))
        for f2 in names[names.index(f) + 1:]:
            v2 = pick(samples(gen, name, f2, fields[f2]))
            for a in v1:
                for b in v2:
                    inst = gen.minimal(name)
                    inst[f], inst[f2] = a, b
                    if "class" in inst:
                        inst["class"] = record_name(name)
                    for doc in root_variants(gen.document(name, inst)):
                        check_doc(rec, v, doc, "%s %s.%s=%s .%s=%s" % (
                            v, record_name(name), f, json.dumps(a)[:80], f2, json.dumps(b)[:80]))


def pick(vals):
    """One value of each kind (scalar kinds, list, dict) and one longer list."""
    out = {}
    for x in vals:
        out.setdefault(type(x).__name__ + ("+" if isinstance(x, list) and x else ""), x)
    return list(out.values())


def run_ext(v, name, rec):
    """Extension fields keep their values."""
    g, gen, oracle = get(v)
    for val in EXT:
        inst = gen.minimal(name)
        inst["ex:field"] = val
        for doc in root_variants(gen.document(name, inst)):
            try:
                ob = load(doc, URI)
            except Exception as exc:
                rec.fail("%s %s: extension field %r not accepted: %s" % (v, record_name(name), val, str(exc)[-200:]))
                return
            rec.plain_states += 1
            rec.step(1)
            found = [o for o in objects(ob) if "http://example.com/field" in (getattr(o, "extension_fields", None) or {})]
            raw = [o for o in dicts(plain(ob)) if "ex:field" in o]
            if len(found) != 1 and not (raw and not found):
                rec.fail("%s %s: extension field is on %d objects" % (v, record_name(name), len(found)))
                continue
            if found:
                d = same(plain(found[0].extension_fields["http://example.com/field"]), val)
                if d:
                    rec.fail("%s %s: extension field loaded with %s" % (v, record_name(name), d))
                    continue
                if type(found[0]).__name__ != record_name(name).split(":")[-1]:
                    rec.fail("%s: extension field of %s is on a %s" % (v, record_name(name), type(found[0]).__name__))
            rec.trace(1)
            round_trip(rec, ob, URI, "%s %s with an extension field %r" % (v, record_name(name), val))
            rec.outcome("extension-same")


def objects(x):
    from schema_salad.runtime import Saveable

    if isinstance(x, Saveable):
        yield x
        for a in x.attrs:
            yield from objects(getattr(x, a if hasattr(x, a) else a + "_"))
    elif isinstance(x, dict):
        for y in x.values():
            yield from objects(y)
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from objects(y)


def dicts(x):
    if isinstance(x, dict):
        yield x
        for y in x.values():
            yield from dicts(y)
    elif isinstance(x, list):
        for y in x:
            yield from dicts(y)


NAMES = ("a", "ab", "a1", "b")


def run_graph(v, root, kind, rec):
    """Workflows whose parameter and step names are prefixes of each other, with all links between them."""
    def wf(**kw):
        d = {"cwlVersion": v, "class": "Workflow", "inputs": [{"id": n, "type": "File"} for n in NAMES], "outputs": [],
             "steps": []}
        if root:
            d["id"] = root
        d.update(kw)
        return d

    def step(n, src, **kw):
        return dict({"id": n, "in": [{"id": "p", "source": src}], "out": ["a", "ab"], "run": "tool.cwl"}, **kw)

    sources = list(NAMES) + ["%s/%s" % (s, o) for s in ("s", "s1", "s10", "a") for o in ("a", "ab")]
    base = "#%s/" % root if root else "#"
    if kind == "flat":
        for src in sources:
            forms = [src, base + src, [src], [base + src, "a"], ["a", src]]
            for form in forms:
                doc = wf(steps=[step(n, form) for n in ("s", "s1", "s10", "a")],
                         outputs=[{"id": n, "type": "Any", "outputSource": form} for n in ("o", "s", "ab")])
                want = URI + base + src
                ob = checked(rec, v, doc, "%s root id %s: source %r" % (v, root, form))
                if ob is None:
                    continue
                for s in ob.steps:
                    got = s.in_[0].source
                    got = got if isinstance(got, list) else [got]
                    rec.check(want in got, "%s root id %s: source %r of step %s is %r" % (v, root, form, s.id, got))
                for o in ob.outputs:
                    got = o.outputSource
                    got = got if isinstance(got, list) else [got]
                    rec.check(want in got, "%s root id %s: outputSource %r of %s is %r" % (v, root, form, o.id, got))
    elif kind == "nested":
        for inner_id in (None, "inner", "s", "run"):
            for src in ("a", "ab", "t/a", "t1/ab"):
                inner = {"class": "Workflow", "inputs": [{"id": n, "type": "File"} for n in NAMES], "outputs": [
                    {"id": "a", "type": "Any", "outputSource": src}, {"id": "ab", "type": "Any", "outputSource": "a"}],
                    "steps": [step("t", src), step("t1", src)]}
                if inner_id:
                    inner["id"] = inner_id
                deep = dict(inner, steps=[step("t", src, run=inner), step("t1", "a", run={
                    "class": "CommandLineTool", "inputs": [{"id": "p", "type": "File"}], "outputs": [], "id": "x"})])
                for run in (inner, deep):
                    doc = wf(steps=[step("s", "a", run=run), step("s1", "s/a", run=run)],
                             outputs=[{"id": "o", "type": "Any", "outputSource": "s1/ab"}])
                    checked(rec, v, doc, "%s root id %s: embedded workflow %s with source %r" % (v, root, inner_id, src))
    elif kind == "scatter":
        for sc in ("p", ["p"], ["p", "q"], ["q", "p"]):
            for meth in (None, "dotproduct", "flat_crossproduct", "nested_crossproduct"):
                s = step("s", "a", scatter=sc)
                s["in"].append({"id": "q", "source": ["ab", "a"]})
                if meth:
                    s["scatterMethod"] = meth
                checked(rec, v, wf(steps=[s, dict(s, id="p")]), "%s root id %s: scatter %r %s" % (v, root, sc, meth))
    elif kind == "types":
        for name in ("a", "ab", "int", "i", "root", "p"):
            rectype = {"type": "record", "name": name, "fields": [{"name": "f", "type": "int"}]}
            enum = {"type": "enum", "name": name + "e", "symbols": ["x", "xy", name]}
            for ref in ("#" + name, ["null", "#" + name], {"type": "array", "items": "#" + name}, "#%se" % name,
                        "#%s?" % name, "#%s[]" % name,
                        {"type": "record", "name": "i", "fields": [{"name": "a", "type": "#" + name},
                                                                   {"name": "ab", "type": {"type": "array", "items": "#%se" % name}}]},
                        {"type": "record", "fields": [{"name": "a", "type": ["null", "#" + name]}]},
                        {"type": "enum", "symbols": ["a", "ab"]},
                        {"type": "enum", "name": "p", "symbols": ["a", "ab"]}):
                doc = {"cwlVersion": v, "class": "CommandLineTool", "inputs": [{"id": "p", "type": ref}],
                       "outputs": [{"id": "q", "type": ref}],
                       "requirements": [{"class": "SchemaDefRequirement", "types": [rectype, enum]}]}
                if root:
                    doc["id"] = root
                checked(rec, v, doc, "%s root id %s: type %r" % (v, root, ref))


def checked(rec, v, doc, where):
    """Loads and round trips a document and returns the loaded object."""
    ob = load(doc, URI)
    rec.plain_states += 1
    rec.step(1)
    rec.trace(1)
    before = rec.nviol
    g, gen, oracle = get(v)
    res, why = oracle.resolve(doc, URI)
    if res is None:
        rec.fail("%s: model rejects the document: %s" % (where, why[-200:]))
        return None
    refs = refs_of(plain(ob))

    def check_saved(s):
        r, w = oracle.resolve(s, URI)
        rec.step(1)
        if r is None:
            return "not valid any more: %s" % w[-300:]
        return None

    round_trip(rec, ob, URI, where, check_saved)
    dangling = [x for x in refs["refs"] if x.startswith(URI + "#") and x not in refs["ids"]]
    rec.check(not dangling, "%s: references to nowhere: %s" % (where, dangling[:3]))
    if rec.nviol == before:
        rec.outcome("graph-same")
    return ob


def refs_of(p, out=None):
    """Identifiers of a loaded document and the links to them."""
    out = out if out is not None else {"ids": set(), "refs": []}
    if isinstance(p, dict):
        for k, x in p.items():
            if k in ("id", "name") and isinstance(x, str):
                out["ids"].add(x)
            elif k in ("source", "outputSource", "scatter"):
                out["refs"] += x if isinstance(x, list) else [x]
            elif k == "out" and isinstance(x, list):
                out["ids"].update(y for y in x if isinstance(y, str))
            refs_of(x, out)
    elif isinstance(p, list):
        for x in p:
            refs_of(x, out)
    return out


def run_packed(v, rec):
    """Documents with several processes, saved and loaded as a whole."""
    from cwl_utils.parser import load_document_by_yaml, save
    from schema_salad.sourceline import cmap

    for names in (("main", "tool"), ("a", "ab"), ("ab", "a"), ("main", "main2")):
        for form in ("#%s", "%s"):
            for run in ("#" + names[1], "#" + names[0] + "2"):
                tool = lambda n: {"class": "CommandLineTool", "id": form % n, "inputs": [{"id": "p", "type": "File"}],
                                  "outputs": [{"id": "a", "type": "stdout"}], "baseCommand": "x"}
                doc = {"cwlVersion": v, "$namespaces": {"ex": "http://example.com/"}, "$graph": [
                    {"class": "Workflow", "id": form % names[0], "inputs": [{"id": "a", "type": "File"}],
                     "outputs": [{"id": "o", "type": "File", "outputSource": "s/a"}],
                     "steps": [{"id": "s", "in": [{"id": "p", "source": "a"}], "out": ["a"], "run": run}]},
                    tool(names[1]), tool(names[0] + "2")][: 2 if names[1] == names[0] + "2" else 3]}
                where = "%s graph of %s, form %s" % (v, names, form)
                obs = load_document_by_yaml(cmap(json.loads(json.dumps(doc))), URI, load_all=True)
                rec.plain_states += 1
                rec.trace(1)
                p = plain(obs)
                rec.check(p[0]["steps"][0]["run"] == URI + run, "%s: run is %r" % (where, p[0]["steps"][0]["run"]))
                for rel in (True, False):
                    for base in ("", URI) if rel else ("",):
                        s1 = [json.loads(json.dumps(save(o, base_url=base, relative_uris=rel))) for o in obs]
                        whole = json.loads(json.dumps(save(obs, base_url=base, relative_uris=rel)))
                        rec.step(3)
                        bare = [{k: x for k, x in y.items() if k[0] != "$"} for y in s1]
                        d = same(whole, {"cwlVersion": v, "$graph": bare, "$namespaces": doc["$namespaces"]})
                        rec.check(not d, "%s: saved as a list with %s" % (where, d))
                        again = load_document_by_yaml(cmap(whole), URI, load_all=True)
                        d = same(plain(again), p)
                        if d:
                            rec.fail("%s saved with relative_uris=%s base %r: reloaded with %s" % (where, rel, base, d))
                        else:
                            rec.outcome("graph-same")


def run_file(path, rec):
    """A document of the test data survives the round trip."""
    from cwl_utils.parser import load_document_by_uri

    try:
        obs = load_document_by_uri(path, load_all=True)
    except Exception:
        rec.outcome("file-not-a-document")
        rec.plain_states += 1
        rec.step(1)
        return
    obs = obs if isinstance(obs, list) else [obs]
    for ob in obs:
        rec.plain_states += 1
        rec.step(1)
        rec.trace(1)
        if len(obs) > 1 and not ob.cwlVersion:
            ob.cwlVersion = obs[0].cwlVersion
        if not ob.cwlVersion:
            rec.outcome("file-without-version")
            continue
        before = rec.nviol
        round_trip(rec, ob, ob.loadingOptions.fileuri, os.path.basename(path))
        if rec.nviol == before:
            rec.outcome("file-same")


def BOUNDS(tier):
    return {"constructs": "all records of the grammars of v1.0, v1.1 and v1.2 with the cwltool extensions",
            "fields": "one varied field per document over every alternative, list kinds of items, plus instances with all fields",
            "pairs of fields": tier == "thorough", "root id": ["absent", "present"],
            "saving": ["relative", "relative to the document", "absolute"], "round trips": 2}
