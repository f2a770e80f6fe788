"""C04: every JavaScript evaluation gets its own complete answer."""

import itertools
import json
import threading
import time

PID = "C04"
LEVEL = "model_checking"
RULE = (
    "stateless exploration of the real engine driver. Fake engine on real pipes: every "
    "chunk boundary of both output streams (up to two cuts), every stream order, every "
    "point of hang, crash and late death, followed by a further evaluation; every "
    "completion order of two threads. Real Node.js: every history of evaluations up to "
    "the length bound over the event alphabet"
)
ASSUMPTIONS = [
    "the operating system delivers pipe data in order",
    "error output of a script does not itself contain the protocol's end marker line",
    "an engine process that dies after answering completely is visible as dead at the next evaluation",
]
REQUIRED_OUTCOMES = ("value", "timeout", "crash", "threads", "node-value", "node-error")
ITEM_TIMEOUT = 400

MARK = b"r1cepzbhUTxtykz5XTC4\n"
VALUES = ["", "ab", "\u00e9\u20ac\U0001f600", 12, None, [1, {"k": "\u00fc"}], "r1cepzbhUTxtykz5XTC4", "x\ny"]


def BOUNDS(tier):
    th = tier == "thorough"
    return {"values": len(VALUES), "cuts_per_stream": 2, "two_cuts": True,
            "history_length": 4 if th else 3, "node_events": len(EVENTS), "threads": 2,
            "evaluations_per_thread": 3 if th else 2, "kill_latency_polls": [0, 1, 2, 5]}


def answer(value, err=b""):
    return json.dumps(value, ensure_ascii=False).encode() + b"\n" + MARK, err + MARK


def items(tier):
    th = tier == "thorough"
    for vi in range(len(VALUES)):
        yield {"kind": "cuts", "value": vi, "two": vi in (1, 2) or th}
    for point in ("start", "out-part", "out-all", "err-all", "out-mark", "err-part", "digits"):
        for polls in (0, 1, 2, 5):
            for how in ("hang", "exit0", "exit1"):
                yield {"kind": "fault", "point": point, "polls": polls, "how": how}
    for polls in (0, 1, 2, 5):
        for n in range(2, 4):
            for t in itertools.product("vht", repeat=n):
                if "h" in t or "t" in t:
                    yield {"kind": "seq", "seq": "".join(t), "polls": polls}
    yield {"kind": "idle"}
    per = 3 if th else 2
    for order in interleavings(per * 2, per * 2):
        yield {"kind": "threads", "order": order, "per": per}
    n = BOUNDS(tier)["history_length"]
    for k in range(1, n + 1):
        for t in itertools.product(range(len(EVENTS)), repeat=k):
            # slow events (time limits) at most twice per history
            slow = sum(EVENTS[i][3] for i in t)
            if k < 3 or (k == 3 and th and slow <= 2) or (
                slow <= 1 and all(EVENTS[i][0] in (SHORT if k == 3 else LONG) for i in t)
            ):
                yield {"kind": "node", "events": list(t)}
    yield {"kind": "boundary"}
    yield {"kind": "console"}
    yield {"kind": "context"}


def interleavings(a, b):
    """All merges of a 'A's and b 'B's (only those starting with A: symmetric)."""
    for pos in itertools.combinations(range(a + b), a):
        s = "".join("A" if i in pos else "B" for i in range(a + b))
        if s[0] == "A":
            yield s


# name, expression, expected (callable on result or exception), slow
def _v(want):
    return lambda r, e: e is None and r == want and type(r) is type(want)


def _err(text=None):
    return lambda r, e: e is not None and (text is None or text in str(e))


BIG = "b" * 70000 + "\u00e9" * 3000
EVENTS = [
    ("sum", "$(1+1)", _v(2), 0),
    ("unicode", '${var s=""; for (var i=0;i<3001;i++) { s += "\u00e9"; } return s;}', _v("\u00e9" * 3001), 0),
    ("throw", "${throw 'kaboom';}", _err("kaboom"), 0),
    ("syntax", "${var var var}", _err(), 0),
    ("loop", "${while(true){}}", _err("killed after"), 1),
    ("pollute", "${Object.prototype.leak = 5; Array.prototype.leak = 5; JSON.stringify = null; globalThis.leak3 = 1; return 1;}", _v(1), 0),
    ("probe", "${return [typeof leak3, [].leak === undefined, ({}).leak === undefined, typeof JSON.stringify];}",
     _v(["undefined", True, True, "function"]), 0),
    ("undef", "${return undefined;}", _err(), 0),
    ("big", "${return " + json.dumps(BIG) + ";}", _v(BIG), 0),
    ("exit", "$(this.constructor.constructor('return process')().exit(3))", _err(), 1),
    ("multi", "${\n// comment\nreturn {\"a\": [1, null]};\n}", _v({"a": [1, None]}), 0),
]
SHORT = ("sum", "unicode", "throw", "loop", "pollute", "probe", "exit")
LONG = ("sum", "throw", "loop", "pollute", "probe", "unicode")


def make_engine(procs):
    """NodeJSEngine whose processes come from the factory list procs."""
    from cwl_utils.sandboxjs import NodeJSEngine

    class Engine(NodeJSEngine):
        def new_js_proc(self, js_text, force_docker_pull=False, container_engine="docker"):
            p = procs()
            self.made.append(p)
            return p

    e = Engine()
    e.made = []
    return e


def in_thread(fn):
    """A fresh thread has its own (empty) set of engine processes."""
    box = {}

    def body():
        try:
            box["r"] = fn()
        except BaseException as exc:
            box["e"] = exc

    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join(200)
    if t.is_alive():
        raise RuntimeError("evaluation never returned")
    if "e" in box:
        raise box["e"]
    return box.get("r")


def ident(req):
    """The evaluation id carried in the script."""
    import re

    m = re.findall(r"EVAL(\d+)X", req)
    return int(m[-1])


def ev(engine, n, timeout=30.0):
    from cwl_utils.errors import JavascriptException

    t0 = time.monotonic()
    try:
        return ("v", engine.eval("(EVAL%dX)" % n, timeout=timeout), time.monotonic() - t0)
    except JavascriptException as exc:
        return ("err", exc, time.monotonic() - t0)


def dispose(engine):
    for p in engine.made:
        p.dispose()


def run_cuts(value, cuts, order, rec, item):
    """Two evaluations in a row; both answers arrive cut in the given way."""
    out, err = answer(value)

    def respond(req, proc):
        n = ident(req)
        o, e = (out, err) if n == 1 else answer(["second", n])
        po = [o[a:b] for a, b in zip((0,) + cuts, cuts + (len(o),))] if n == 1 else [o]
        pe = [e] if len(cuts) > 1 or n != 1 else ([e[: cuts[0]], e[cuts[0]:]] if 0 < cuts[0] < len(e) else [e])
        acts = {"oe": [("out", c) for c in po] + [("err", c) for c in pe],
                "eo": [("err", c) for c in pe] + [("out", c) for c in po],
                "mix": [x for pair in itertools.zip_longest([("out", c) for c in po], [("err", c) for c in pe]) for x in pair if x]}[order]
        yield from acts

    def body():
        from mc.fakenode import FakeProc

        engine = make_engine(lambda: FakeProc(respond))
        try:
            a = ev(engine, 1)
            b = ev(engine, 2)
        finally:
            dispose(engine)
        return a, b

    a, b = in_thread(body)
    rec.step(2)
    rec.trace(2)
    desc = "value %r cut at %r, streams %s" % (value, cuts, order)
    sub = dict(item, cuts=list(cuts), order=order)
    if a[:2] != ("v", value):
        rec.fail("%s: evaluation answered %r" % (desc, a[:2]), sub)
    if b[:2] != ("v", ["second", 2]):
        rec.fail("%s: the next evaluation answered %r" % (desc, b[:2]), sub)
    rec.outcome("value")


def run_fault(point, how, polls, rec, item):
    out, err = answer("first")

    def respond(req, proc):
        if ident(req) != 1:
            o, e = answer(["ok", ident(req)])
            yield ("out", o)
            yield ("err", e)
            return
        if point == "digits":  # a prefix of the answer that reads like an answer
            yield ("out", b"1234567890123456789012345678901234567890")
        elif point == "out-part":
            yield ("out", out[:5])
        elif point == "out-mark":
            yield ("out", out[:-1])
        elif point == "out-all":
            yield ("out", out)
        elif point == "err-all":
            yield ("err", err)
        elif point == "err-part":
            yield ("out", out)
            yield ("err", err[:-1])
        if how == "hang":
            yield ("hang",)
        else:
            yield ("exit", int(how[-1]), polls)

    def body():
        from mc.fakenode import FakeProc

        engine = make_engine(lambda: FakeProc(respond, kill_polls=polls))
        try:
            a = ev(engine, 1, timeout=0.15 if how == "hang" else 20)
            b = ev(engine, 2)
            c = ev(engine, 3)
            killed = engine.made[0].killed
        finally:
            dispose(engine)
        return a, b, c, killed

    a, b, c, killed = in_thread(body)
    rec.step(3)
    rec.trace(3)
    rec.check(a[0] == "err", "%s at %s: evaluation without answer returned %r" % (how, point, a[:2]))
    if how == "hang":
        rec.check(killed, "hang at %s: the engine was not stopped" % point)
        rec.check(a[0] != "err" or "killed after" in str(a[1]), "hang at %s not reported as a time limit: %s" % (point, a[1]))
        rec.outcome("timeout")
    else:
        rec.outcome("crash")
        rec.check(a[0] != "err" or "killed after" not in str(a[1]),
                  "an engine that died was reported as a script killed at the time limit: %s" % a[1])
    rec.check(a[2] < 15, "the time limit was not enforced")
    rec.check(b[:2] == ("v", ["ok", 2]) and c[:2] == ("v", ["ok", 3]),
              "%s at %s (death visible after %d polls): later evaluations answered %r, %r" % (how, point, polls, b[:2], c[:2]))


def run_seq(seq, polls, rec):
    """v: value, h: hang, t: answer comes only after the time limit has struck."""

    def respond(req, proc):
        n = ident(req)
        o, e = answer(["ok", n])
        if seq[n] == "h":
            yield ("hang",)
        elif seq[n] == "t":
            yield ("out", o)
            yield ("hang",)
        yield ("out", o)
        yield ("err", e)

    def body():
        from mc.fakenode import FakeProc

        engine = make_engine(lambda: FakeProc(respond, kill_polls=polls))
        try:
            return [ev(engine, n, timeout=30 if s == "v" else 0.1) for n, s in enumerate(seq)]
        finally:
            dispose(engine)

    res = in_thread(body)
    rec.step(len(seq))
    rec.trace(len(seq))
    for n, (s, r) in enumerate(zip(seq, res)):
        if s == "v":
            rec.check(r[:2] == ("v", ["ok", n]), "history %s, death visible after %d polls: evaluation %d answered %r" % (seq, polls, n, r[:2]))
        else:
            rec.check(r[0] == "err" and "killed after" in str(r[1]), "history %s: evaluation %d answered %r" % (seq, n, r[:2]))


def run_threads(order, per, rec, item):
    """Thread A and B each evaluate per scripts; events: request released, answer released."""
    gates = {}
    for t in "AB":
        for k in range(per * 2):
            gates[(t, k)] = threading.Event()

    def respond(req, proc):
        n = ident(req)
        t, k = ("A", n) if n < 10 else ("B", n - 10)
        seen[(t, k)].set()
        yield ("gate", gates[(t, 2 * k + 1)])
        o, e = answer([t, k])
        yield ("out", o)
        yield ("err", e)

    seen = {(t, k): threading.Event() for t in "AB" for k in range(per)}
    done = {(t, k): threading.Event() for t in "AB" for k in range(per)}
    results = {}
    from mc.fakenode import FakeProc

    engine = make_engine(lambda: FakeProc(respond))

    def thread(t):
        for k in range(per):
            gates[(t, 2 * k)].wait(60)
            results[(t, k)] = ev(engine, k + (0 if t == "A" else 10), timeout=4)
            done[(t, k)].set()

    ths = [threading.Thread(target=thread, args=(t,), daemon=True) for t in "AB"]
    for th in ths:
        th.start()
    count = {"A": 0, "B": 0}
    for t in order:
        n = count[t]
        count[t] += 1
        gates[(t, n)].set()
        (seen if n % 2 == 0 else done)[(t, n // 2)].wait(6)
    for th in ths:
        th.join(30)
    dispose(engine)
    rec.step(2 * per)
    rec.trace(2 * per)
    for (t, k), r in sorted(results.items()):
        rec.check(r[:2] == ("v", [t, k]), "threads, order %s: thread %s evaluation %d answered %r" % (order, t, k, r[:2]))
    rec.check(len(results) == 2 * per, "threads, order %s: some evaluation never returned" % order)
    rec.outcome("threads")


def run_idle(rec):
    """The process dies between two evaluations."""

    def respond(req, proc):
        o, e = answer(ident(req))
        yield ("out", o)
        yield ("err", e)

    def body():
        from mc.fakenode import FakeProc

        engine = make_engine(lambda: FakeProc(respond))
        try:
            out = []
            for n in range(4):
                out.append(ev(engine, n)[:2])
                if n == 0:
                    engine.made[-1]._die(-9, 0)
                elif n == 1:
                    engine.made[-1]._die(0, 0)
            return out, len(engine.made)
        finally:
            dispose(engine)

    out, n = in_thread(body)
    rec.step(4)
    rec.trace(4)
    rec.check(out == [("v", i) for i in range(4)], "after an engine died between evaluations: %r" % (out,))
    rec.check(n == 3, "engine not reused: %d processes for 4 evaluations" % n)


def node_eval(engine, expr, timeout, **kw):
    from cwl_utils.errors import JavascriptException

    scan = expr[1:]
    try:
        return engine.eval(scan, timeout=timeout, **kw), None
    except JavascriptException as exc:
        return None, exc


def run_node(events, rec):
    from cwl_utils.sandboxjs import NodeJSEngine

    def body():
        engine = NodeJSEngine()
        res = []
        for i in events:
            name, expr, want, slow = EVENTS[i]
            res.append(node_eval(engine, expr, 0.4 if slow else 60))
        procs = list(engine.processes_to_kill)
        for p in procs:
            p.kill()
        return res

    res = in_thread(body)
    for i, (r, e) in zip(events, res):
        name, expr, want, slow = EVENTS[i]
        rec.step()
        rec.trace()
        if not want(r, e):
            rec.fail("history %s: %s answered %r / %s" % ([EVENTS[j][0] for j in events], name, str(r)[:100], str(e)[:200]))
        rec.outcome("node-error" if e is not None else "node-value")


def run_boundary(rec):
    """Multi-byte characters at every offset around the read size."""
    from cwl_utils.sandboxjs import NodeJSEngine

    def body():
        engine = NodeJSEngine()
        out = []
        for ch in ("\u00e9", "\u20ac", "\U0001f600"):
            for n in list(range(4080, 4100)) + list(range(8180, 8196)) + [65530, 65535, 65536]:
                s = "a" * n + ch * 40
                r, e = node_eval(engine, "${return %s;}" % json.dumps(s), 60)
                r2, e2 = node_eval(engine, "$(%d+1)" % n, 60)
                out.append((n, ch, r == s, e, r2 == n + 1, e2))
        for p in list(engine.processes_to_kill):
            p.kill()
        return out

    for n, ch, ok, e, ok2, e2 in in_thread(body):
        rec.state(["boundary", n, ch])
        rec.step(2)
        rec.trace(2)
        rec.check(ok, "string of %d bytes then %r not returned intact (%s)" % (n, ch, e))
        rec.check(ok2, "evaluation after a string of %d bytes then %r answered wrongly (%s)" % (n, ch, e2))


def run_console(rec):
    from cwl_utils.sandboxjs import NodeJSEngine

    def body():
        engine = NodeJSEngine()
        out = []
        for n in range(3):
            out.append(engine.exec_js_process('(function(){console.log("m%d"); console.error("e\\nf"); return %d;})()' % (n, n), 60, js_console=True))
            out.append(engine.exec_js_process("(function(){return typeof console})()", 60))
        for p in list(engine.processes_to_kill):
            p.kill()
        return out

    out = in_thread(body)
    want = []
    for n in range(3):
        want.append((0, str(n), "[log] m%d\n[err] e\n[err] f" % n))
        want.append((0, '"object"', ""))
    rec.state("console")
    rec.step(6)
    rec.trace(6)
    norm = [(a, b.strip(), c.strip()) for a, b, c in out]
    # without console support the engine's own console object is not part of the property
    rec.check([x for i, x in enumerate(norm) if i % 2 == 0] == [x for i, x in enumerate(want) if i % 2 == 0],
              "console evaluations returned %r" % (norm,))


def run_context(rec):
    from cwl_utils.sandboxjs import NodeJSEngine

    def body():
        engine = NodeJSEngine()
        out = []
        for n in range(3):
            for ctx in ("({k: 'one'})", "({k: 'two'})"):
                out.append(engine.exec_js_process("k", 60, context=ctx))
                out.append(engine.exec_js_process("nope.x", 60, context=ctx)[:2])
        for p in list(engine.processes_to_kill):
            p.kill()
        return out

    out = in_thread(body)
    rec.state("context")
    rec.step(len(out))
    rec.trace(len(out))
    for i, r in enumerate(out):
        if i % 2 == 0:
            rec.check(r[:2] == (0, '"%s"' % ("one" if i % 4 == 0 else "two")), "evaluation in a context answered %r" % (r,))
        else:
            rec.check(r[1].strip() == "", "failing evaluation in a context answered %r" % (r,))


def run_item(item, rec):
    kind = item["kind"]
    rec.sample(kind, item)
    if kind == "cuts":
        value = VALUES[item["value"]]
        out, _ = answer(value)
        if "cuts" in item:
            run_cuts(value, tuple(item["cuts"]), item["order"], rec, item)
            return
        cutsets = [(i,) for i in range(1, len(out))]
        if item["two"]:
            cutsets += list(itertools.combinations(range(1, len(out)), 2))
        for cuts in cutsets:
            for order in ("oe", "eo", "mix") if len(cuts) == 1 else ("mix",):
                rec.state([item["value"], cuts, order])
                run_cuts(value, cuts, order, rec, item)
        return
    rec.state(item)
    if kind == "fault":
        run_fault(item["point"], item["how"], item["polls"], rec, item)
    elif kind == "seq":
        run_seq(item["seq"], item["polls"], rec)
    elif kind == "idle":
        run_idle(rec)
    elif kind == "threads":
        run_threads(item["order"], item["per"], rec, item)
    elif kind == "node":
        run_node(item["events"], rec)
    elif kind == "boundary":
        run_boundary(rec)
    elif kind == "console":
        run_console(rec)
    elif kind == "context":
        run_context(rec)
