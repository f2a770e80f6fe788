"""Builds small workflow documents and knows what their links mean."""

import json
import os
import tempfile

from mc.types import arr, flatten, kind, normal, to_yaml, union

# producing construct -> CWL versions that have it
SOURCES = {
    "in": ("v1.0", "v1.1", "v1.2"),      # workflow input
    "out": ("v1.0", "v1.1", "v1.2"),     # output of a plain step
    "sc1": ("v1.0", "v1.1", "v1.2"),     # scattered over one input (string form)
    "sc1l": ("v1.0", "v1.1", "v1.2"),    # scattered over one input (list form)
    "nest1": ("v1.0", "v1.1", "v1.2"),   # one input, nested_crossproduct
    "dot2": ("v1.0", "v1.1", "v1.2"),
    "flat2": ("v1.0", "v1.1", "v1.2"),
    "nest2": ("v1.0", "v1.1", "v1.2"),
    "nest3": ("v1.0", "v1.1", "v1.2"),
    "sub": ("v1.0", "v1.1", "v1.2"),     # sub-workflow
    "expr": ("v1.0", "v1.1", "v1.2"),    # ExpressionTool
    "when": ("v1.2",),
    "scwhen": ("v1.2",),
    "loopall": ("v1.2",),
    "looplast": ("v1.2",),
}
NESTING = {"nest1": 1, "nest2": 2, "nest3": 3, "sc1": 1, "sc1l": 1, "dot2": 1, "flat2": 1, "scwhen": 1}


def lift_scatter(k, t):
    for _ in range(NESTING.get(k, 0)):
        t = arr(t)
    return t


def lift(k, t):
    """Type of the value that arrives from a source of kind k with declared type t."""
    t = lift_scatter(k, t)
    if k in ("when", "scwhen"):
        t = union("null", *(t[1:] if kind(t) == "union" else (t,)))
    if k == "loopall":
        t = arr(t)
    return t


def tool(ins, outs, cls="CommandLineTool"):
    d = {"class": cls,
         "inputs": {k: (v if isinstance(v, dict) and "type" in v and v.get("_full") else {"type": to_yaml(v)})
                    for k, v in ins.items()},
         "outputs": {k: {"type": to_yaml(v)} for k, v in outs.items()}}
    for v in d["inputs"].values():
        v.pop("_full", None)
    if cls == "CommandLineTool":
        d["baseCommand"] = "true"
    else:
        d["expression"] = "${return null;}"
    return d


class Doc:
    def __init__(self, version):
        self.version = version
        self.d = {"cwlVersion": version, "class": "Workflow", "inputs": {}, "outputs": {}, "steps": {}}
        if version == "v1.2":
            self.d["$namespaces"] = {"cwltool": "http://commonwl.org/cwltool#"}

    def inp(self, name, t, **more):
        self.d["inputs"][name] = dict({"type": to_yaml(t)}, **more)

    def producer(self, k, name, t):
        """Adds a source of kind k and declared type t; returns the reference to it."""
        if k == "in":
            self.inp(name, t)
            return name
        ins = {"p": "string"}
        step = {"in": {"p": "%s_p" % name}, "out": [name]}
        n = {"dot2": 2, "flat2": 2, "nest2": 2, "nest3": 3}.get(k, 1)
        scattered = k in NESTING
        for i in range(n):
            pn = "pqr"[i]
            ins[pn] = "string"
            src = "%s_%s" % (name, pn)
            self.inp(src, arr("string") if scattered else "string")
            step["in"][pn] = src
        if scattered:
            if k in ("sc1", "scwhen"):
                step["scatter"] = "p"
            else:
                step["scatter"] = list("pqr"[:n])
            m = {"nest1": "nested_crossproduct", "nest2": "nested_crossproduct", "nest3": "nested_crossproduct",
                 "dot2": "dotproduct", "flat2": "flat_crossproduct"}.get(k)
            if m:
                step["scatterMethod"] = m
        if k in ("when", "scwhen"):
            step["when"] = "$(inputs.p != 'x')"
        if k in ("loopall", "looplast"):
            step["requirements"] = {"cwltool:Loop": {
                "loopWhen": "$(inputs.p != 'x')", "loop": {"p": "p"}, "outputMethod": k[4:]}}
            step["requirements"]["cwltool:Loop"]["loop"] = {"p": name}
        if k == "sub":
            step["run"] = {"class": "Workflow", "inputs": {"p": "string"},
                           "outputs": {name: {"type": to_yaml(t), "outputSource": "inner/%s" % name}},
                           "steps": {"inner": {"run": tool({"p": "string"}, {name: t}), "in": {"p": "p"}, "out": [name]}}}
        else:
            step["run"] = tool(ins, {name: t}, "ExpressionTool" if k == "expr" else "CommandLineTool")
        self.d["steps"]["s_" + name] = step
        return "s_%s/%s" % (name, name)


class Scratch:
    """A scratch directory with an existing base document for in-memory loading."""

    def __init__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp())
        self.uri = "file://" + self.dir + "/wf.cwl"
        open(os.path.join(self.dir, "wf.cwl"), "w").close()

    def write(self, name, doc):
        path = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as handle:
            if isinstance(doc, str):
                handle.write(doc)
            else:
                json.dump(doc, handle)
        return path

    def load(self, d, uri=None, **kw):
        from schema_salad.sourceline import cmap

        from cwl_utils.parser import load_document_by_yaml

        return load_document_by_yaml(cmap(json.loads(json.dumps(d))), uri or self.uri, **kw)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        _scratch = (os.getpid(), Scratch())
    return _scratch[1]


__all__ = ["SOURCES", "Doc", "scratch", "lift", "lift_scatter", "tool", "flatten", "normal", "arr", "union"]
