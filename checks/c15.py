"""C15: the 64 KiB limit of loadContents."""

import io
import itertools
import os
import tempfile

PID = "C15"
LEVEL = "model_checking"
RULE = (
    "every file size in the window around 64 KiB (and around 0 and twice the limit) x every layout of 1 to 4 byte "
    "characters over the boundary, x kinds of binary streams (memory, buffered, unbuffered, already positioned) x "
    "bytes and text reader x version, against slicing; invalid UTF-8 at every position near the boundary"
)
ASSUMPTIONS = ["streams are readable binary files whose read(n) returns n bytes unless the file ends"]
REQUIRED_OUTCOMES = ("whole", "truncated", "too-large", "cut-character", "undecodable")
LIMIT = 65536
EX = {}
CHARS = ["a", "\u00e9", "\u20ac", "\U0001f600"]


def BOUNDS(tier):
    w = window(tier)
    return {"window": "limit -%d..+%d" % (w, w), "characters": "every sequence of up to %d characters over the boundary" % (5 if tier == "thorough" else 3)}


def window(tier):
    return 64 if tier == "thorough" else 9


def setup(tier):
    import cwl_utils.parser.cwl_v1_0_utils as u0
    import cwl_utils.parser.cwl_v1_1_utils as u1
    import cwl_utils.parser.cwl_v1_2_utils as u2
    from cwl_utils.errors import WorkflowException

    EX.update(u={"v1.0": u0, "v1.1": u1, "v1.2": u2}, WE=WorkflowException)


def items(tier):
    w = window(tier)
    sizes = sorted(set(list(range(0, 6)) + [4095, 4096, 4097, 8191, 8192, 8193, 32768, 49152, 65000, 65535, 65536,
                                            65537, 65600, 70000, 98304, 131071, 131072, 131073, 200000, 1 << 20]
                       + list(range(LIMIT - w, LIMIT + w + 1))))
    for v in ("v1.0", "v1.1", "v1.2"):
        for size in sizes:
            yield ["size", v, size]
        n = 5 if tier == "thorough" else 3
        for k in range(1, n + 1):
            for c in itertools.product(range(4), repeat=k):
                yield ["chars", v, list(c)]
        for bad in ("\\xff", "\\x80", "\\xc3", "\\xe2\\x82", "\\xf0\\x9f\\x98"):
            yield ["bad", v, bad]


class Streams:
    def __init__(self, data):
        self.data = data

    def __iter__(self):
        yield "memory", io.BytesIO(self.data)
        fd, path = tempfile.mkstemp()
        with os.fdopen(fd, "wb") as h:
            h.write(b"skip" + self.data)
        for name, buf in (("buffered", -1), ("unbuffered", 0), ("small buffer", 16)):
            with open(path, "rb", buffering=buf) as h:
                h.read(4)
                yield name, h
        os.unlink(path)


def try_(fn, *a):
    try:
        return fn(*a)
    except UnicodeDecodeError:
        return "undecodable"
    except EX["WE"]:
        return "too-large"


def check(rec, v, data, what, streams=True):
    u = EX["u"][v]
    if v == "v1.2" and len(data) > LIMIT:
        want_b = want_t = "too-large"
        rec.outcome("too-large")
    else:
        want_b = data[:LIMIT]
        try:
            want_t = want_b.decode("utf-8")
            rec.outcome("whole" if want_b == data else "truncated")
        except UnicodeDecodeError as e:
            if len(data) > LIMIT and e.end == LIMIT and "unexpected end of data" in e.reason:
                want_t = want_b[:e.start].decode("utf-8")
                rec.outcome("cut-character")
            elif len(data) == LIMIT and "unexpected end" in e.reason:
                want_t = None  # nobody can tell whether the rest follows
            else:
                want_t = "undecodable"
                rec.outcome("undecodable")
    for name, h in Streams(data) if streams else [("memory", io.BytesIO(data))]:
        pos = h.tell()
        for reader, want in (("content_limit_respected_read_bytes", want_b), ("content_limit_respected_read", want_t)):
            h.seek(pos)
            got = try_(getattr(u, reader), h)
            rec.step()
            rec.trace()
            rec.plain_states += 1
            if want is not None and (got != want or type(got) is not type(want)):
                rec.fail("%s %s of %s (%s): got %s %r..., expected %s %r..." % (
                    v, reader, what, name, len(got), got[-20:], len(want), want[-20:]), key="%s %s %s %s" % (v, reader, what, name))


def run_item(item, rec):
    kind, v, x = item
    if kind == "size":
        check(rec, v, bytes(97 + i % 26 for i in range(x)), "%d bytes" % x)
        if x < 3 * LIMIT:
            check(rec, v, bytes(x), "%d zero bytes" % x, False)
            check(rec, v, b"\r\n" * (x // 2) + b"\n" * (x % 2), "%d bytes of line ends" % x, False)
            check(rec, v, (b"\xef\xbb\xbf" + b"b" * x)[:x] if x >= 3 or x == 0 else b"b" * x, "%d bytes with BOM" % x, False)
    elif kind == "chars":
        s = "".join(CHARS[i] for i in x).encode()
        for start in range(LIMIT - len(s) - 1, LIMIT + 2):
            for tail in (b"", b"z", b"\xc3\xa9" * 3):
                check(rec, v, b"x" * start + s + tail, "%r at %d + %r" % (s, start, tail), False)
    else:
        b = x.encode().decode("unicode_escape").encode("latin-1")
        for start in list(range(LIMIT - 6, LIMIT + 3)) + [0, 7]:
            for tail in (b"", b"z", b"z" * 10):
                check(rec, v, b"x" * start + b + tail, "invalid %r at %d + %d" % (b, start, len(tail)), False)
