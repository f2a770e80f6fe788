"""Documents spread over files: abstract trees with the places where a part lives in a file of its own."""

import copy
import json
import os
import shutil


class Part:
    """A value that is kept in another file, found relative to the file that refers to it."""

    def __init__(self, value, dir=".", how="$import", name=None, pid=None):
        self.value, self.dir, self.how, self.name, self.pid = value, dir, how, name, pid


class World:
    """Writes the files of an abstract document below a directory."""

    def __init__(self, root):
        self.root = root
        self.n = 0
        self.files = {}

    def path_of(self, part, curfile):
        if part.name:
            return os.path.normpath(os.path.join(os.path.dirname(curfile), part.dir, part.name))
        self.n += 1
        ext = "txt" if part.how == "$include" else "cwl" if part.how not in ("$import",) else "yml"
        return os.path.normpath(os.path.join(os.path.dirname(curfile), part.dir, "p%d.%s" % (self.n, ext)))

    def write(self, path, value):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        text = value if isinstance(value, str) else json.dumps(value)
        with open(path, "w", encoding="utf-8") as h:
            h.write(text)
        self.files[path] = text

    def render(self, x, curfile):
        if isinstance(x, dict):
            return {k: self.render(v, curfile) for k, v in x.items()}
        if isinstance(x, list):
            return [self.render(v, curfile) for v in x]
        if not isinstance(x, Part):
            return copy.deepcopy(x)
        path = self.path_of(x, curfile)
        rel = os.path.relpath(path, os.path.dirname(curfile))
        if x.how == "$include":
            self.write(path, x.value)
            return {"$include": rel}
        value = self.render(x.value, path)
        if x.how == "$import":
            self.write(path, json.dumps(value))
            return {"$import": rel}
        if x.how == "graph":
            pid = x.pid or "main"
            other = {"class": "CommandLineTool", "id": "other", "inputs": [], "outputs": [], "baseCommand": "other"}
            ver = value.pop("cwlVersion")
            self.write(path, {"cwlVersion": ver, "$graph": [other, dict(value, id=pid)]})
            return rel + ("#" + x.pid if x.pid else "")
        self.write(path, value)
        if x.how == "abs":
            return path
        if x.how == "uri":
            return "file://" + path
        if x.how == "import-run":
            return {"$import": rel}
        return rel

    def main(self, doc, name="m/main.cwl"):
        path = os.path.join(self.root, name)
        self.write(path, self.render(doc, path))
        return path


def expected(x):
    """The document with every part in its place."""
    if isinstance(x, dict):
        return {k: expected(v) for k, v in x.items()}
    if isinstance(x, list):
        out = []
        for v in x:
            y = expected(v)
            if isinstance(v, Part) and v.how == "$import" and isinstance(y, list):
                out += y          # an imported list is spliced into the list
            else:
                out.append(y)
        return out
    if not isinstance(x, Part):
        return copy.deepcopy(x)
    if x.how == "graph":
        return dict(expected(x.value), id=x.pid or "main")
    return expected(x.value)


def fresh(path):
    """An empty scratch directory."""
    if os.path.isdir(path):
        shutil.rmtree(path)
    os.makedirs(path)
    return path
