"""C01: expression interpolation delimits, escapes and joins exactly."""

import itertools
import json

PID = "C01"
LEVEL = "model_checking"
RULE = (
    "every string over the alphabet up to the length bound, for both escape rules, "
    "with and without outer whitespace stripping; a trace is one interpolation of "
    "the real code compared with an independent reference reader; values of every "
    "JSON type are substituted at every position of every token sequence"
)
ASSUMPTIONS = [
    "the JavaScript engine is replaced by a recording stand-in, so only delimiting, "
    "escaping and joining are decided here",
    "characters outside the alphabet behave like 'a'",
]
REQUIRED_OUTCOMES = ("text", "value", "error", "escaped")

CHARS = "a$(){}'\"\\ "
TOKENS = ["x", "$(j)", "${k}", "$(inputs.v)", "$(null)", "\\", "$", "(", ")", '"', " ",
          "${'}'}", '$(")")', "$(((", "\\$(", "\n"]
VALUES = ["", "s", 's"\\q', "\u00e9\n", 0, 1, -3, 1.5, True, False, None, [], [1, "a", None],
          {}, {"b": 1, "a": [True]}, {"class": "File", "location": "x"}, "12", "null", "[1]"]
VERSIONS = {
    "v1.0": 1, "v1.1.0-dev1": 1, "v1.1": 1, "v1.2.0-dev1": 1, "v1.2.0-dev2": 1,
    "v1.2.0-dev3": 1, "v1.2.0-dev4": 2, "v1.2.0-dev5": 2, "v1.2": 2, "v1.3.0-dev1": 2, "": 2,
}


def BOUNDS(tier):
    return {
        "characters": CHARS, "max_length": 7 if tier == "thorough" else 6,
        "tokens": TOKENS, "max_tokens": 5 if tier == "thorough" else 4,
        "values": len(VALUES), "versions": len(VERSIONS),
    }


def items(tier):
    b = BOUNDS(tier)
    yield {"kind": "values"}
    yield {"kind": "versions"}
    for n in range(0, 3):
        for p in itertools.product(CHARS, repeat=n):
            yield {"kind": "chars", "prefix": "".join(p), "more": 0 if n < 2 else b["max_length"] - 2}
    for n in range(0, 3):
        for p in itertools.product(range(len(TOKENS)), repeat=n):
            yield {"kind": "tokens", "prefix": list(p), "more": 0 if n < 2 else b["max_tokens"] - 2}


class Unterminated(Exception):
    pass


def ref_block_end(s, i):
    """s[i] is '$', s[i+1] is '(' or '{': index just past the matching close."""
    op = s[i + 1]
    cl = ")" if op == "(" else "}"
    depth = 0
    j = i + 1
    n = len(s)
    while j < n:
        c = s[j]
        if c == op:
            depth += 1
        elif c == cl:
            depth -= 1
            if depth == 0:
                return j + 1
        elif c == "'" or c == '"':
            j += 1
            while j < n and s[j] != c:
                j += 2 if s[j] == "\\" else 1
            if j >= n:
                raise Unterminated
        j += 1
    raise Unterminated


def ref_parts(s, esc):
    """Split into ('t', text) and ('e', '(...)' or '{...}')."""
    parts = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == "\\" and i + 1 < n:
            if esc == 1:
                parts.append(("t", s[i + 1]))
                i += 2
            elif s[i + 1] == "$" and i + 2 < n and s[i + 2] in "({":
                parts.append(("t", s[i + 1 : i + 3]))
                i += 3
            elif s[i + 1] == "\\":
                parts.append(("t", "\\"))
                i += 2
            else:
                parts.append(("t", s[i : i + 2]))
                i += 2
        elif c == "$" and i + 1 < n and s[i + 1] in "({":
            e = ref_block_end(s, i)
            parts.append(("e", s[i + 1 : e]))
            i = e
        else:
            parts.append(("t", c))
            i += 1
    return parts


def ref_join(parts, evaluate):
    if len(parts) == 1 and parts[0][0] == "e":
        return evaluate(parts[0][1])
    out = []
    for k, v in parts:
        if k == "t":
            out.append(v)
        else:
            val = evaluate(v)
            out.append(val if isinstance(val, str) else json.dumps(val, sort_keys=True))
    return "".join(out)


def make_engine(value_of):
    from cwl_utils.sandboxjs import JSEngine

    class Engine(JSEngine):
        def __init__(self):
            self.calls = []

        def eval(self, scan, jslib="", timeout=20, **kw):
            self.calls.append((scan, jslib, timeout, tuple(sorted(kw))))
            return value_of(scan)

        def regex_eval(self, parsed_string, remaining_string, current_value, **kw):
            self.calls.append((parsed_string, remaining_string))
            return value_of("(%s%s)" % (parsed_string, remaining_string))

    return Engine()


def tagged(scan):
    return "<" + scan + ">"


def once(s, esc, strip, rec, value_of, item):
    from cwl_utils.errors import SubstitutionError
    from cwl_utils.expression import interpolate

    def val(scan):
        return None if scan == "(null)" else value_of(scan)

    text = s.strip() if strip else s
    try:
        parts = ref_parts(text, esc)
        want = ref_join(parts, val)
        err = False
    except Unterminated:
        err = True
    eng = make_engine(value_of)
    rec.transitions += 1
    try:
        got = interpolate(
            s, {"inputs": {"v": 1}, "self": None, "runtime": {}}, jslib="LIB", fullJS=True,
            strip_whitespace=strip, escaping_behavior=esc, js_engine=eng, timeout=7,
        )
    except SubstitutionError:
        rec.traces += 1
        if not err:
            rec.fail("interpolation of %r fails, expected %r" % (s, want), item)
        rec.outcome("error")
        return
    rec.traces += 1
    if err:
        rec.fail("unterminated expression in %r accepted as %r" % (s, got), item)
        return
    if got != want or type(got) is not type(want):
        rec.fail("interpolation of %r gave %r, expected %r" % (s, got, want), item)
        return
    exprs = [v for k, v in parts if k == "e" and v != "(null)"]
    seen = []
    for c in eng.calls:
        if len(c) == 4:
            seen.append(c[0])
            if c[1] != "LIB" or c[2] != 7:
                rec.fail("engine called with jslib=%r timeout=%r for %r" % (c[1], c[2], s), item)
        else:
            seen.append("(%s%s)" % c)
    if seen != exprs:
        rec.fail("evaluated %r, expected %r in %r" % (seen, exprs, s), item)
    rec.outcome("value" if parts and parts[0][0] == "e" and len(parts) == 1 else "text")
    if "\\" in text:
        rec.outcome("escaped")


def both(s, rec, value_of=tagged, hashed=False):
    if hashed:
        rec.state(s)
    else:
        rec.plain_states += 1
    ws = s != s.strip()
    for esc in (1, 2):
        for strip in ((True, False) if ws else (True,)):
            once(s, esc, strip, rec, value_of,
                 {"kind": "one", "s": s, "esc": esc, "strip": strip})


def run_item(item, rec):
    kind = item["kind"]
    if kind == "one":
        once(item["s"], item["esc"], item["strip"], rec, tagged, item)
    elif kind == "chars":
        p = item["prefix"]
        if item["more"] == 0:
            both(p, rec)
        else:
            for n in range(0, item["more"] + 1):
                for t in itertools.product(CHARS, repeat=n):
                    both(p + "".join(t), rec)
            rec.sample("chars", p + CHARS[: item["more"]])
    elif kind == "tokens":
        p = "".join(TOKENS[i] for i in item["prefix"])
        if item["more"] == 0:
            both(p, rec)
        else:
            for n in range(0, item["more"] + 1):
                for t in itertools.product(TOKENS, repeat=n):
                    both(p + "".join(t), rec, hashed=True)
            rec.sample("tokens", p)
    elif kind == "values":
        shapes = ["{0}", "a{0}", "{0}b", "a{0}b", "{0}{1}", "{0} {1}", "a{0}b{1}c", "\\\\{0}", " {0} "]
        for shape in shapes:
            for form in ("$(j%d)", "${j%d}"):
                s = shape.format(form % 0, form % 1)
                for i, v0 in enumerate(VALUES):
                    for v1 in VALUES if "{1}" in shape else [None]:
                        table = {form[1:] % 0: v0, form[1:] % 1: v1}
                        rec.plain_states += 1
                        for esc in (1, 2):
                            once(s, esc, True, rec, lambda e: table[e], item)
        rec.sample("values", "a$(j0)b$(j1)c with every pair of values")
    elif kind == "versions":
        from cwl_utils.expression import do_eval

        frags = ["", "\\", "\\\\", "\\$(inputs.v)", "\\\\$(inputs.v)", "\\a", "$(inputs.v)", "\\${k}", " ", "x"]
        for ver, esc in VERSIONS.items():
            for t in itertools.product(frags, repeat=3):
                s = "".join(t)
                if "$(" not in s and "${" not in s:
                    want = s
                else:
                    try:
                        want = ref_join(ref_parts(s.strip(), esc), tagged)
                    except Unterminated:
                        continue
                rec.plain_states += 1
                rec.transitions += 1
                got = do_eval(
                    s, {"v": 1}, [{"class": "InlineJavascriptRequirement"}], None, None, {},
                    cwlVersion=ver, js_engine=make_engine(tagged),
                )
                rec.traces += 1
                if got != want:
                    rec.fail("%s: evaluating %r gave %r, expected %r" % (ver, s, got, want),
                             {"kind": "versions"}, key="version:%s:%s" % (ver, s))
                rec.outcome("version-rule-%d" % esc)
