"""Trees of processes with requirements at every position, written to files."""

import itertools
import json
import os

from mc.tree import Part, World, fresh

# shapes: "tool" | "etool" | "op" | ("wf", shape, ...)
SHAPES1 = ["tool", "etool", "op", ("wf",)]
SHAPES2 = [("wf", "tool"), ("wf", "etool"), ("wf", "op"), ("wf", ("wf",))]
SHAPES3 = [("wf", "tool", "tool"), ("wf", ("wf", "tool"))]
SHAPES4 = [("wf", ("wf", ("wf", "tool"))), ("wf", ("wf", "tool"), "tool"), ("wf", "tool", "tool", "etool")]
HOWS = ("link", "embedded", "graph", "graph-id", "import-run", "abs", "uri", "same-graph")
FEW = ("link", "embedded", "same-graph", "graph-id")
FORMS = ("list", "map", "before", "after", "two", "mixed")
NOISE = [{"class": "InlineJavascriptRequirement"}, {"class": "ResourceRequirement", "coresMin": 2}]
DIRS = (".", "sub", "../o p")


def steps_of(shape):
    return shape[1:] if isinstance(shape, tuple) else ()


def slots(shape, path=()):
    """The positions of requirements in document order."""
    out = [(path, "requirements"), (path, "hints")]
    for i, s in enumerate(steps_of(shape)):
        out += [(path + ("s%d" % i,), "requirements"), (path + ("s%d" % i,), "hints")]
        out += slots(s, path + (i,))
    return out


def links(shape, hows):
    """All assignments of link forms to the steps."""
    n = count(shape)
    return itertools.product(hows, repeat=n)


def count(shape):
    return sum(1 + count(s) for s in steps_of(shape))


class Tree:
    """A document with requirements made by `make(n)` in the slots of a mask."""

    def __init__(self, v, shape, hows, mask, form, make, versions=None):
        self.v, self.make, self.form = v, make, form
        self.versions = versions or (lambda path: v)
        self.chosen = {s: k for k, s in enumerate(slots(shape)) if mask >> k & 1}
        self.hows = list(hows)
        self.graph = []
        self.expected = []          # (slot, requirement)
        self.n = 0
        self.doc = self.process(shape, ())
        if self.graph:
            self.doc.pop("cwlVersion")
            self.doc["id"] = "main"
            self.doc = {"cwlVersion": v, "$graph": [self.doc] + self.graph}

    def requirements(self, slot):
        """The value of a field with requirements, or None."""
        if slot not in self.chosen:
            return None if self.chosen and len(self.chosen) % 2 else list(NOISE[:1])
        k = self.chosen[slot]
        form = self.form
        if form == "mixed":
            form = FORMS[k % 5]
        mine = []
        for _ in range(2 if form == "two" else 1):
            req = self.make(self.n)
            self.n += 1
            self.expected.append((slot, req))
            mine.append(req)
        if form == "map":
            out = {r["class"]: {f: x for f, x in r.items() if f != "class"} for r in NOISE + mine}
            return out
        if form == "before":
            return mine + NOISE
        if form == "after":
            return NOISE + mine
        if form == "two":
            return [mine[0], NOISE[1], mine[1]]
        return mine

    def fill(self, target, path):
        for field in ("requirements", "hints"):
            value = self.requirements((path, field))
            if value is not None:
                target[field] = value

    def process(self, shape, path):
        v = self.versions(path)
        p = {"cwlVersion": v, "id": "main"}
        if shape == "tool":
            p.update({"class": "CommandLineTool", "inputs": [], "outputs": [], "baseCommand": "x"})
        elif shape == "etool":
            p.update({"class": "ExpressionTool", "inputs": [], "outputs": [], "expression": "$({})"})
        elif shape == "op":
            p.update({"class": "Operation", "inputs": [], "outputs": []})
        else:
            p.update({"class": "Workflow", "inputs": [], "outputs": [], "steps": []})
        self.fill(p, path)
        for i, s in enumerate(steps_of(shape)):
            step = {"id": "s%d" % i, "in": [], "out": []}
            self.fill(step, path + ("s%d" % i,))
            how = self.hows.pop(0)
            inner = self.process(s, path + (i,))
            name = "p%s" % "".join(map(str, path + (i,)))
            if how == "same-graph":
                inner.pop("cwlVersion")
                inner["id"] = name
                self.graph.append(inner)
                step["run"] = "#" + name
            elif how == "embedded":
                inner.pop("id")
                inner.pop("cwlVersion")
                step["run"] = inner
            else:
                step["run"] = Part(inner, DIRS[(len(path) + i) % len(DIRS)], how, pid="the-%s" % name if how == "graph-id" else None)
            p["steps"].append(step)
        return p

    def write(self, root):
        return World(root).main(self.doc, "m/k/main.cwl")


def valid(v, shape, hows):
    """A process of the same graph must not be reached from another file."""
    if "op" in json.dumps(shape) and v != "v1.2":
        return False
    return ok(shape, list(hows), True)


def ok(shape, hows, in_main):
    for s in steps_of(shape):
        how = hows.pop(0)
        if how == "same-graph" and not in_main:
            return False
        if not ok(s, hows, in_main and how in ("same-graph", "embedded")):
            return False
    return True


def masks(shape, most=None):
    n = len(slots(shape))
    for m in range(1 << n):
        if most is None or bin(m).count("1") <= most:
            yield m


def items(tier, versions):
    thorough = tier == "thorough"
    for v in versions:
        main = thorough or v == versions[-1]
        for shape in SHAPES1 + SHAPES2:
            for hows in links(shape, HOWS):
                if valid(v, shape, hows):
                    for form in FORMS if main else ("mixed", "map"):
                        yield ["tree", v, shape, list(hows), form, None]
        for shape in SHAPES3:
            for hows in links(shape, HOWS if thorough else FEW if main else FEW[:2]):
                if valid(v, shape, hows):
                    yield ["tree", v, shape, list(hows), "mixed", None if thorough else 3]
                    for form in FORMS[:5] if main else ():
                        yield ["tree", v, shape, list(hows), form, 4 if thorough else 1]
        for shape in SHAPES4:
            for hows in links(shape, FEW if thorough else ("link", "embedded") if main else ()):
                if valid(v, shape, hows):
                    yield ["tree", v, shape, list(hows), "mixed", 3 if thorough else 1]
    # every assignment of versions
    for vs in itertools.product(versions, repeat=3):
        yield ["versions", list(vs)]


def untuple(shape):
    return tuple(untuple(s) if not isinstance(s, str) or i else s for i, s in enumerate(shape)) if isinstance(shape, (list, tuple)) else shape


def trees(item, make):
    """The trees of an item."""
    if item[0] == "versions":
        vs = item[1]
        shape = ("wf", ("wf", "tool"))
        versions = lambda path: vs[len(path)]
        for hows in links(shape, ("link", "graph", "uri")):
            for m in masks(shape, 2):
                yield Tree(vs[0], shape, hows, m, "mixed", make, versions), "versions %s by %s, slots %x" % (vs, hows, m)
        return
    _, v, shape, hows, form, most = item
    shape = untuple(shape)
    for m in masks(shape, most):
        yield Tree(v, shape, hows, m, form, make), "%s %s by %s, %s, slots %x" % (v, shape, hows, form, m)


def case(d):
    return fresh(os.path.join(d, "case"))
