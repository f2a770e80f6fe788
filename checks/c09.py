"""C09: file formats against the subclass closure of an ontology."""

import itertools

PID = "C09"
LEVEL = "model_checking"
RULE = (
    "every ontology graph over 3 formats (each ordered pair: none, subclass, equivalent, both, each in both "
    "directions), every graph over 4 formats up to the edge bound, every chain of subclass and equivalence "
    "steps in every direction up to the length bound, each with every query; every list of files up to the "
    "bound against every list of allowed formats over selected ontologies; the oracle is a transitive closure"
)
ASSUMPTIONS = ["formats are IRIs; edges to blank nodes are not followed, as rdflib ontologies have no IRI for them"]
REQUIRED_OUTCOMES = ("reachable", "unreachable", "accepted", "rejected", "no-format")
ITEM_TIMEOUT = 600
B = "http://x.org/f"
EX = {}


def BOUNDS(tier):
    return {"graph3": "4096 graphs x 9 queries + every self loop combination",
            "graph4_edges": 12 if tier == "thorough" else 4,
            "chain_length": 8 if tier == "thorough" else 6,
            "files_in_list": 3, "allowed_formats": 2}


def setup(tier):
    from rdflib import OWL, RDFS, Graph, URIRef
    from schema_salad.exceptions import ValidationException

    from cwl_utils import file_formats

    EX.update(F=file_formats, OWL=OWL, RDFS=RDFS, Graph=Graph, U=URIRef, VE=ValidationException)


def items(tier):
    for first in range(64):
        yield ["g3", first]
    yield ["loops"]
    if tier == "thorough":
        for first in range(81):
            yield ["g4", first, 12]
    else:
        for first in range(16):
            yield ["g4few", first, 4]
    n = BOUNDS(tier)["chain_length"]
    for ln in range(1, n + 1):
        for k in range(4 if ln > 2 else 1):
            yield ["chain", ln, k, 4 if ln > 2 else 1]
    for o in range(len(ONTOLOGIES)):
        yield ["files", o]
    yield ["noise"]


def closure(nodes, sub, eq):
    reach = {u: {u} for u in nodes}
    succ = {u: set() for u in nodes}
    for u, v in sub:
        succ[u].add(v)
    for u, v in eq:
        succ[u].add(v)
        succ[v].add(u)
    for u in nodes:
        todo = [u]
        while todo:
            for y in succ[todo.pop()]:
                if y not in reach[u]:
                    reach[u].add(y)
                    todo.append(y)
    return reach


def graph(sub, eq):
    g = EX["Graph"]()
    for u, v in sub:
        g.add((EX["U"](B + u), EX["RDFS"].subClassOf, EX["U"](B + v)))
    for u, v in eq:
        g.add((EX["U"](B + u), EX["OWL"].equivalentClass, EX["U"](B + v)))
    return g


def queries(rec, nodes, sub, eq, queries=None):
    g = graph(sub, eq)
    want = closure(nodes, sub, eq)
    rec.plain_states += 1
    n = 0
    for u, v in queries or itertools.product(nodes, nodes):
        got = EX["F"].formatSubclassOf(B + u, B + v, g, set())
        n += 1
        if bool(got) != (v in want[u]):
            rec.fail("formatSubclassOf(%s, %s) is %r" % (u, v, got),
                     key="%s>%s %s %s" % (u, v, sorted(sub), sorted(eq)), sub=list(sub), eq=list(eq))
        rec.outcome("reachable" if v in want[u] else "unreachable")
    rec.step(n)
    rec.trace(n)


ONTOLOGIES = [
    None,
    ([], []),
    ([("a", "b")], []),
    ([("a", "b"), ("b", "c")], []),
    ([("a", "b")], [("c", "b")]),
    ([("a", "b"), ("b", "a")], [("c", "c")]),
    ([("a", "b"), ("a", "c")], []),
]


def run_item(item, rec):
    kind = item[0]
    if kind == "g3":
        nodes = "abc"
        pairs = [(u, v) for u in nodes for v in nodes if u != v]
        for rest in range(64):
            subm, eqm = item[1], rest
            queries(rec, nodes, [p for i, p in enumerate(pairs) if subm >> i & 1],
                    [p for i, p in enumerate(pairs) if eqm >> i & 1])
    elif kind == "loops":
        nodes = "abc"
        pairs = [("a", "b"), ("b", "c"), ("c", "a")]
        for subm, eqm, l1, l2 in itertools.product(range(8), range(8), range(8), range(8)):
            sub = [p for i, p in enumerate(pairs) if subm >> i & 1] + [(n, n) for i, n in enumerate(nodes) if l1 >> i & 1]
            eq = [p for i, p in enumerate(pairs) if eqm >> i & 1] + [(n, n) for i, n in enumerate(nodes) if l2 >> i & 1]
            queries(rec, nodes, sub, eq)
    elif kind in ("g4", "g4few"):
        nodes = "abcd"
        pairs = [(u, v) for u in nodes for v in nodes if u != v]
        if kind == "g4":
            f = item[1]
            head = [f // 27 % 3, f // 9 % 3, f // 3 % 3, f % 3]
            for rest in itertools.product(range(3), repeat=8):
                labels = head + list(rest)
                queries(rec, nodes, [p for p, x in zip(pairs, labels) if x == 1],
                        [p for p, x in zip(pairs, labels) if x == 2], [("a", "d"), ("d", "a"), ("b", "c")])
        else:
            combos = [(k, c) for k in range(item[2] + 1) for c in itertools.combinations(pairs, k)]
            for i, (k, c) in enumerate(combos):
                if i % 16 != item[1]:
                    continue
                for labels in itertools.product((0, 1), repeat=k):
                    queries(rec, nodes, [p for p, x in zip(c, labels) if x == 0],
                            [p for p, x in zip(c, labels) if x == 1])
    elif kind == "chain":
        ln = item[1]
        nodes = ["n%d" % i for i in range(ln + 1)]
        for i, steps in enumerate(itertools.product(range(4), repeat=ln)):
            if i % item[3] != item[2]:
                continue
            sub, eq = [], []
            for j, s in enumerate(steps):
                e = (nodes[j], nodes[j + 1])
                if s % 2:
                    e = e[::-1]
                (sub if s < 2 else eq).append(e)
            queries(rec, nodes, sub, eq, [(nodes[0], nodes[-1]), (nodes[-1], nodes[0])])
    elif kind == "noise":
        # other relations between formats mean nothing
        for pred in ("seeAlso", "subPropertyOf", "isDefinedBy", "domain"):
            for sub, eq in (([], []), ([("a", "b")], []), ([], [("b", "c")]), ([("a", "b"), ("b", "c")], [])):
                g = graph(sub, eq)
                want = closure("abc", sub, eq)
                for u, v in itertools.permutations("abc", 2):
                    g.add((EX["U"](B + u), EX["RDFS"][pred] if pred != "seeAlso" else EX["RDFS"].seeAlso, EX["U"](B + v)))
                for p in (EX["OWL"].disjointWith, EX["OWL"].sameAs):
                    g.add((EX["U"](B + "a"), p, EX["U"](B + "c")))
                rec.state([pred, sub, eq])
                for u, v in itertools.product("abc", "abc"):
                    got = EX["F"].formatSubclassOf(B + u, B + v, g, set())
                    rec.step()
                    rec.trace()
                    rec.check(bool(got) == (v in want[u]), "noise edges: formatSubclassOf(%s,%s) is %r" % (u, v, got),
                              key="noise %s %s%s" % (pred, u, v))
    else:
        o = ONTOLOGIES[item[1]]
        g = None if o is None else graph(*o)
        want = closure("abcd", *(o or ([], [])))
        files = [None, {}, "nofmt", "a", "b", "c"]

        def mk(f):
            if f is None or f == {}:
                return f
            d = {"class": "File", "location": "file:///x"}
            if f != "nofmt":
                d["format"] = B + f
            return d

        lists = [[f] for f in files] + [list(x) for n in (0, 2, 3) for x in itertools.product(files, repeat=n)]
        alloweds = [[x] for x in "abc"] + [list(x) for x in itertools.permutations("abc", 2)] + [[], ["d"], ["d", "b"], list("abc")]
        for fl in lists:
            for al in alloweds:
                forms = [([mk(f) for f in fl], [B + x for x in al])]
                if len(fl) == 1:
                    forms.append((mk(fl[0]), [B + x for x in al]))
                if len(al) == 1:
                    forms.append(([mk(f) for f in fl], B + al[0]))
                if len(fl) == 1 and len(al) == 1:
                    forms.append((mk(fl[0]), B + al[0]))
                ok = all(not f or (f != "nofmt" and any(x in want[f] for x in al)) for f in fl)
                for actual, allowed in forms:
                    rec.plain_states += 1
                    rec.step()
                    rec.trace()
                    try:
                        EX["F"].check_format(actual, allowed, g)
                        got = True
                    except EX["VE"]:
                        got = False
                    rec.outcome("accepted" if ok else "no-format" if "nofmt" in fl else "rejected")
                    if got != ok:
                        rec.fail("check_format accepts=%s but should be %s" % (got, ok),
                                 key="files %s allowed %s ontology %s" % (fl, al, item[1]))
