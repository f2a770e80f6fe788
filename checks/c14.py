"""C14: stdin, stdout and stderr shortcuts."""

import copy
import itertools
import json
import re

from mc.wf import scratch

PID = "C14"
LEVEL = "model_checking"
RULE = (
    "every list of up to N outputs over {stdout, stderr, each with a binding, explicit File, other} x every list of up "
    "to 2 inputs over {stdin, stdin with binding, File, other} x declared or missing stdin, stdout and stderr (constant "
    "and expression) x version x entry point, each expanded twice and reloaded; every pair of a family of tools that "
    "differ in one place for the generated names; other process classes stay untouched; oracle written from the CWL text"
)
ASSUMPTIONS = ["streamable of an expanded parameter is left open", "the content of a generated name is left open"]
REQUIRED_OUTCOMES = ("expanded", "rejected", "generated", "declared", "untouched", "distinct-names")
OUTS = {
    "o": {"type": "stdout"},
    "e": {"type": "stderr"},
    "O": {"type": "stdout", "outputBinding": {"glob": "x"}},
    "E": {"type": "stderr", "outputBinding": {"outputEval": "$(1)"}},
    "f": {"type": "File", "outputBinding": {"glob": "f.txt"}},
    "s": {"type": "string", "outputBinding": {"glob": "q", "loadContents": True, "outputEval": "$(self[0].contents)"}},
    "d": {"type": "stdout", "label": "lab", "doc": "text", "format": "http://x.org/fmt", "secondaryFiles": [".bai"]},
}
INS = {
    "i": {"type": "stdin"},
    "I": {"type": "stdin", "inputBinding": {"position": 1}},
    "f": {"type": "File", "inputBinding": {"position": 2}},
    "s": {"type": "string?", "default": "x"},
    "j": {"type": "stdin", "label": "lab", "format": "http://x.org/fmt"},
}
NAMES = [None, "out.txt", "$(inputs.f0.basename).log"]
STDINS = [None, "$(inputs.f0.path)"]
EX = {}


def BOUNDS(tier):
    return {"outputs": 3 if tier == "thorough" else 2, "inputs": 2, "stdout/stderr declarations": NAMES, "stdin": STDINS}


def setup(tier):
    from schema_salad.exceptions import ValidationException

    import cwl_utils.parser as P
    import cwl_utils.parser.cwl_v1_0_utils as u0
    import cwl_utils.parser.cwl_v1_1_utils as u1
    import cwl_utils.parser.cwl_v1_2_utils as u2
    import cwl_utils.parser.utils as U

    EX.update(P=P, U=U, u={"v1.0": u0, "v1.1": u1, "v1.2": u2}, VE=ValidationException)


def words(alphabet, n):
    for k in range(n + 1):
        yield from ("".join(w) for w in itertools.product(alphabet, repeat=k))


def items(tier):
    n = BOUNDS(tier)["outputs"]
    outs = "".join(OUTS)
    for v in ("v1.0", "v1.1", "v1.2"):
        for o in words(outs, n):
            yield ["tool", v, o]
        yield ["others", v]
        yield ["ids", v]
        for part in range(4):
            yield ["names", v, part]


def tool(v, outs, ins, so, se, si, ident="t"):
    d = {"class": "CommandLineTool", "cwlVersion": v, "id": ident, "baseCommand": ["cmd", "-x"], "arguments": ["a"],
         "inputs": [dict(INS[c], id="%s%d" % (c, n)) for n, c in enumerate(ins)],
         "outputs": [dict(copy.deepcopy(OUTS[c]), id="%s_%d" % (c, n)) for n, c in enumerate(outs)]}
    if so is not None:
        d["stdout"] = so
    if se is not None:
        d["stderr"] = se
    if si is not None:
        d["stdin"] = si
    return d


def save(o):
    return json.loads(json.dumps(EX["P"].save(o, relative_uris=True), default=str))


def points_at(expr, name):
    """The parameter reference denotes the path of the input."""
    m = re.fullmatch(r"\$\(inputs(?:\.(\w+)|\[\"([^\"\\]*)\"\]|\['([^'\\]*)'\])(?:\.path|\[[\"']path[\"']\])\)", expr or "")
    if m is None or (m.group(1) and not re.fullmatch(r"[^\W\d]\w*", m.group(1))):
        return False
    return next(g for g in m.groups() if g is not None) == name


def binding(o):
    b = o.outputBinding
    return None if b is None else {k: v for k, v in vars(b).items() if k not in ("loadingOptions", "extension_fields") and v is not None}


def judge(rec, t, before, outs, ins, so, se, v, key):
    """The expanded tool t against the declaration."""
    problems = []
    streams = {"o": "stdout", "d": "stdout", "e": "stderr"}
    for attr, decl, chars in (("stdout", so, "od"), ("stderr", se, "e")):
        val = getattr(t, attr)
        used = any(c in outs for c in chars)
        if decl is not None:
            if val != decl:
                problems.append("%s changed to %r" % (attr, val))
            if used:
                rec.outcome("declared")
        elif used:
            rec.outcome("generated")
            if not isinstance(val, str) or not val or "/" in val or "$" in val:
                problems.append("generated %s name %r" % (attr, val))
        elif val is not None:
            problems.append("%s invented: %r" % (attr, val))
    if t.stdout is not None and so is None and t.stdout == t.stderr:
        problems.append("both streams go to %r" % t.stdout)
    if t.stderr is not None and se is None and t.stdout == t.stderr:
        problems.append("both streams go to %r" % t.stdout)
    for c, o in zip(outs, t.outputs):
        if c in streams:
            name = getattr(t, streams[c])
            b = binding(o)
            if o.type_ != "File" or b is None or b.get("glob") not in (name, [name]) or set(b) != {"glob"}:
                problems.append("output %s became %r %r" % (o.id, o.type_, b))
    after = save(t)
    want = json.loads(json.dumps(before))
    for w, c in zip(want["outputs"], outs):
        if c in streams:
            w["type"] = "File"
            w["outputBinding"] = {"glob": getattr(t, streams[c])}
    for w, c in zip(want["inputs"], ins):
        if c in "ij":
            w["type"] = "File"
    for a in ("stdout", "stderr"):
        if getattr(t, a) is not None:
            want[a] = getattr(t, a)
    if any(c in ins for c in "ij"):
        n = next(n for n, c in enumerate(ins) if c in "ij")
        if not points_at(t.stdin, "%s%d" % (ins[n], n)):
            problems.append("stdin is %r" % t.stdin)
        want["stdin"] = t.stdin
    for x in (after, want):
        for p in x["inputs"] + x["outputs"]:
            p.pop("streamable", None)
            b = p.get("outputBinding")
            if isinstance(b, dict) and isinstance(b.get("glob"), list) and len(b["glob"]) == 1:
                b["glob"] = b["glob"][0]
    if after != want:
        problems.append("saved tool %s, expected %s" % (after, want))
    for p in problems:
        rec.fail(p, key=key)
    return not problems


def run_item(item, rec):
    kind, v = item[:2]
    S = scratch()
    gen = EX["U"].convert_stdstreams_to_files
    spec = EX["u"][v].convert_stdstreams_to_files
    if kind == "tool":
        outs = item[2]
        alphabet = "fs" if v == "v1.0" else "".join(INS)
        for ins in words(alphabet, 2):
            for so, se, si in itertools.product(NAMES, NAMES, STDINS):
                if len(outs) > 1 and (so, se) == (NAMES[1], NAMES[2]):
                    continue  # the same case with the roles of constant and expression swapped is kept
                if (not ins and si) or (len(ins) > 1 and (so, se) not in ((None, None), (NAMES[1], None))):
                    continue  # inputs and outputs are combined in full only for up to one input
                key = json.dumps([v, outs, ins, so, se, si])
                d = tool(v, outs, ins, so, se, si)
                n_in = sum(c in "ijI" for c in ins)
                bad = "O" in outs or "E" in outs or "I" in ins or n_in > 1 or (n_in and si is not None)
                rec.state(key)
                t = S.load(d)
                before = save(t)
                fn = spec if len(ins) == 1 else gen
                rec.step()
                rec.trace()
                try:
                    fn(t)
                except EX["VE"]:
                    rec.outcome("rejected")
                    if not bad:
                        rec.fail("legal tool rejected", key=key)
                    continue
                if bad:
                    rec.fail("illegal combination accepted", key=key)
                    continue
                rec.outcome("expanded")
                if not judge(rec, t, before, outs, ins, so, se, v, key):
                    continue
                once = save(t)
                fn(t)
                rec.step()
                if save(t) != once:
                    rec.fail("expanding twice gives %s after %s" % (save(t), once), key=key)
                if len(ins) <= 1 and len(outs) <= 2 and so is None:
                    d2 = dict(once, id="t")
                    r = S.load(d2)
                    rec.step()
                    if save(r) != once:
                        rec.fail("expanded tool does not reload: %s" % save(r), key=key)
    elif kind == "others":
        for cls in ["ExpressionTool", "Workflow"] + (["Operation"] if v == "v1.2" else []):
            d = {"class": cls, "cwlVersion": v, "id": "t", "inputs": [{"id": "f", "type": "File"}],
                 "outputs": [{"id": "o", "type": "File"}]}
            if cls == "ExpressionTool":
                d["expression"] = "${return {};}"
            if cls == "Workflow":
                d["outputs"][0]["outputSource"] = "f"
                d["steps"] = [{"id": "s", "in": [], "out": ["q"], "run": dict(tool(v, "o", "", None, None, None), cwlVersion=v)}]
                del d["steps"][0]["run"]["cwlVersion"]
            t = S.load(d)
            before = save(t)
            gen(t)
            rec.step()
            rec.trace()
            rec.state([v, cls])
            rec.outcome("untouched")
            rec.check(save(t) == before, "%s changed" % cls, key="others %s %s" % (v, cls))
    elif kind == "ids":
        if v == "v1.0":
            return
        for name in ("a", "in_file", "in-file", "in.file", "1st", "\u00fcber", "a b", "class", "length"):
            for nested in (0, 1):
                d = tool(v, "o", "", None, None, None)
                d["inputs"] = [{"id": name, "type": "stdin"}]
                if nested:
                    d = {"class": "Workflow", "cwlVersion": v, "id": "w", "inputs": [], "outputs": [],
                         "steps": [{"id": "s", "in": [], "out": [], "run": {k: x for k, x in d.items() if k != "cwlVersion"}}]}
                    t = S.load(d).steps[0].run
                else:
                    t = S.load(d)
                gen(t)
                rec.step()
                rec.trace()
                rec.state([v, name, nested])
                rec.check(points_at(t.stdin, name), "stdin of input %r is %r" % (name, t.stdin), key="ids %s %s %s" % (v, name, nested))
                rec.check(t.inputs[0].type_ == "File", "type is %r" % t.inputs[0].type_, key="ids type %s" % v)
    else:
        part = item[2]
        stream = "o" if part % 2 == 0 else "e"
        base = tool(v, stream, "fs", None, None, None)
        family = [base]

        def variant(**ch):
            d = copy.deepcopy(base)
            d.update(ch)
            family.append(d)

        if part < 2:
            for i in range(40):
                variant(id="t%d" % i)
                variant(baseCommand=["cmd", "-x%d" % i])
                variant(arguments=["a"] * (i + 2))
                variant(label="l%d" % i)
                variant(doc="d%d" % i)
                variant(successCodes=[i])
                variant(temporaryFailCodes=[i])
                variant(permanentFailCodes=[i])
                variant(inputs=[{"id": "x%d" % i, "type": "int"}])
                variant(inputs=[{"id": "x", "type": "int", "default": i}])
                variant(hints=[{"class": "DockerRequirement", "dockerPull": "img:%d" % i}])
                variant(requirements=[{"class": "ResourceRequirement", "coresMin": i}])
                variant(outputs=[{"id": "o%d" % i, "type": OUTS[stream]["type"]}])
        else:
            other = "stderr" if stream == "o" else "stdout"
            for outs in words("oedfs", 3):
                if stream not in outs and not (stream == "o" and "d" in outs):
                    continue
                d = tool(v, outs, "fs", None, None, None)
                family.append(d)
                for so in ("x.txt", "y.txt"):
                    family.append(dict(d, **{other: so}))
            family.append(dict(base, stdin="$(inputs.f0.path)"))
        seen = {}
        for d in family:
            t = S.load(d)
            canon = json.dumps(save(t), sort_keys=True)
            gen(t)
            rec.step()
            rec.trace()
            rec.state(canon)
            rec.outcome("distinct-names")
            for attr in ("stdout", "stderr"):
                if d.get(attr) is None and getattr(t, attr) is not None:
                    name = getattr(t, attr)
                    if seen.setdefault(name, (canon, attr)) != (canon, attr):
                        rec.fail("generated name %s shared by %s of %s and %s" % (name, attr, canon, seen[name]),
                                 key="names %s %s" % (v, canon))
                    if name in ("x.txt", "y.txt"):
                        rec.fail("generated name collides with a declared one", key="names declared %s" % v)
