"""C20 expressions as values: combined, written out and read back."""
from values import *
import itertools

ATOMS = {
    "filter": ["012A?", "012A.a?", "ALL 012A.a?", "ANY 012A$a?", "012A/*.b?", "012A.a == 'b'", "ALL 012A/*.a != 'b'", "012A{a?}", "ALL 012A{a == 'b' || b?}", "#012A > 1",
               "#012A/*{a?} == 2", "(012A? || 013A?)", "!012A?", "!!013A?", "!(012A? && 013A?)", "012A? && 013A?", "012A? || 013A?", "012A? ^ 013A?",
               "012A? XOR 013A? || 101@?", "01[23]A/01-03?", "ALL 012A$ab == 'b'", "012A .a?", "012A . a?".replace(". ", "."), " 012A? ", "012A.a in ['a', 'b']",
               "012A.a =~ '^b'", "012A{ #a > 1 }", "!012A.a?", "!ALL 012A.a?", "!012A{ a? }", "!012A/* $a?",
               "012A? || (013A? && 101@?)", "(013A? || 101@?) ^ (012A.b?)", "(012A?) || 013A?", "013A? ^ !(012A.a?)"],
    "sub": ["a?", "a == 'b'", "ALL a != 'b'", "#a > 1", "(a? || b?)", "!a?", "!!a?", "!(a? && b?)", "a? && b?", "a? || b?", "a? ^ b?", "a? XOR b? || x?", "a in ['a', 'b']",
            "ALL a not in 'ab'", "a =~ 'b'", "a !~ ['a', 'b']", "a =? ['a', 'b',]", " a? ", "[ab] == \"b\"", "*?",
            "a? || (b? && x?)", "(b? || x?) ^ (a?)", "(a?) || b?", "b? ^ !(a?)"],
}
ATOMS["field"] = ATOMS["filter"]


def probes(rng, n=3):
    tags = ["012A", "013A", "012A", "003@", "101@", "028A"]
    return [enc(record(rng, tags=tags, nf=rng.randrange(1, 5))) for _ in range(n)]


FIXED = [enc([("003@", "", [("0", b"1")]), ("012A", "", [("a", b"b"), ("a", b"x"), ("b", b"ab")]), ("012A", "01", [("a", b"b"), ("x", b"b")]), ("013A", "00", [])]),
         enc([("013A", "", [("a", b"a")]), ("012A", "01", [("b", b"")])]),
         enc([("012A", "", [("a", b"b")]), ("012A", "", [("a", b"b"), ("b", b"a")]), ("101@", "", [("a", b"k")])]),
         enc([("012A", "", [])]), enc([("003@", "", [])])]

WS = ["new", "serde"]


def every_pair(c):
    """every operator over every pair of the forms, written out and read back"""
    rng = c.rng
    cases = []
    for kind in ("filter", "sub", "field"):
        A = ATOMS[kind]
        for x in A:
            for via in WS + (["builder"] if kind == "filter" else []):
                cases.append(Value(kind, [load(x, via), {"op": "print", "via": R(rng, WS)}], FIXED, mopts()))
            for n in (1, 2, 3):
                cases.append(Value(kind, [load(x)] + [{"op": "not"}] * n, FIXED, mopts()))
                cases.append(Value(kind, [load(x)] + [{"op": "not"}, {"op": "print", "via": "new"}] * n, FIXED, mopts()))
        for x, y in itertools.product(A, A):
            for op in ("and", "or", "xor"):
                k = rng.randrange(4)
                via = "assign" if rng.random() < 0.5 else "op"
                p = [load(x), load(y), {"op": op, "via": via}]
                if k == 1:
                    p = [load(x), {"op": "not"}] + p[1:]
                if k == 2:
                    p = p[:2] + [{"op": "not"}] + p[2:]
                if k == 3:
                    p += [{"op": "not"}]
                cases.append(Value(kind, p, FIXED, mopts()))
                cases.append(Value(kind, p + [{"op": "print", "via": R(rng, WS)}], FIXED, mopts()))
    judge_values(c, cases, "every-pair")


def every_nesting(c):
    """both ways to nest every pair of operators"""
    rng = c.rng
    cases = []
    for kind, (a, b, d) in {"filter": ("012A.a == 'b'", "013A?", "101@?"), "sub": ("a == 'b'", "b?", "x?"), "field": ("012A.a == 'b'", "013A?", "101@?")}.items():
        ops = ["and", "or", "xor"]
        # all truth assignments of the three atoms
        recs = []
        for t in itertools.product([0, 1], repeat=3):
            if kind == "sub":
                recs.append(enc([("012A", "", ([("a", b"b")] if t[0] else []) + ([("b", b"1")] if t[1] else []) + ([("x", b"1")] if t[2] else []))]))
            else:
                recs.append(enc([("003@", "", [("0", b"1")])] + ([("012A", "", [("a", b"b")])] if t[0] else []) + ([("013A", "", [])] if t[1] else [])
                                + ([("101@", "", [("a", b"1")])] if t[2] else [])))
        for o1, o2 in itertools.product(ops, ops):
            for neg in itertools.product([False, True], repeat=3):
                for via in ("op", "assign"):
                    for left in (True, False):
                        L = [[load(x)] + ([{"op": "not"}] if n else []) for x, n in zip((a, b, d), neg)]
                        p = L[0] + L[1] + [{"op": o1, "via": via}] + L[2] + [{"op": o2, "via": via}] if left \
                            else L[0] + L[1] + L[2] + [{"op": o1, "via": via}, {"op": o2, "via": via}]
                        cases.append(Value(kind, p, recs, mopts()))
                        cases.append(Value(kind, p + [{"op": "print", "via": R(rng, WS)}], recs, mopts()))
                        cases.append(Value(kind, p + [{"op": "not"}, {"op": "print", "via": "new"}], recs, mopts()))
    judge_values(c, cases, "every-nesting")


def history(rng, kind, g, size):
    """a random program that leaves one expression"""
    p, depth = [], 0
    for _ in range(size):
        m = rng.random()
        if depth == 0 or (depth < 4 and m < 0.3):
            if kind == "filter" and rng.random() < 0.25:
                p.append(builder(rng, g))
            else:
                p.append(load(g(rng), R(rng, ["new", "new", "serde"] + (["builder"] if kind == "filter" else []))))
            depth += 1
        elif depth > 1 and m < 0.65:
            p.append({"op": R(rng, ["and", "or", "xor"]), "via": R(rng, ["op", "assign"])})
            depth -= 1
        elif m < 0.8:
            p.append({"op": "not"})
        else:
            p.append({"op": "print", "via": R(rng, WS)})
    while depth > 1:
        p.append({"op": R(rng, ["and", "or", "xor"]), "via": R(rng, ["op", "assign"])})
        depth -= 1
    return p


def builder(rng, g):
    order = [R(rng, ["and", "or", "not"]) for _ in range(rng.randrange(0, 4))]
    upper = rng.random() < 0.5

    def text():
        s = g(rng)
        if upper and rng.random() < 0.5:
            s = s.replace("a", "~")
        if rng.random() < 0.03:
            s += R(rng, [" &&", "}", "x", ")"])
        return tx(s)
    return {"op": "build", "text": text(), "and": [text() for _ in range(rng.randrange(0, 3))], "or": [text() for _ in range(rng.randrange(0, 3))],
            "not": [text() for _ in range(rng.randrange(0, 3))], "order": order, "upper": upper}


def turns(rng, kind, recs):
    """the options an expression is asked with, one after the other"""
    os = [mopts(rng) for _ in range(R(rng, [1, 2, 3]))]
    if len(os) > 1:
        os[1]["ci"] = not os[0]["ci"]
    if kind in ("path", "format", "query"):
        try:
            b"".join(recs).decode()
            for o in os:
                o["utf8"] = rng.random() < 0.4      # of a record of texts
        except UnicodeDecodeError:
            pass
    return {"o": os[0], "then": os[1:]}


def small(rng, kind):
    return R(rng, ATOMS[kind]) if rng.random() < 0.6 else GENS[kind](rng)


def histories(c):
    rng = c.rng
    cases = []
    for kind in ("filter", "sub", "field"):
        g = lambda r, kind=kind: small(r, kind)
        for _ in range(c.scale(1200, 12000)):
            recs = FIXED[:2] + probes(rng, 2)
            cases.append(Value(kind, history(rng, kind, g, rng.randrange(3, 10)), recs, **turns(rng, kind, recs)))
    judge_values(c, cases, "history")


def round_trips(c):
    rng = c.rng
    cases = []
    for kind in ("path", "format", "query", "tag", "filter", "sub", "occ"):
        for _ in range(c.scale(500, 5000)):
            s = GENS[kind](rng)
            if rng.random() < 0.3:
                s = R(rng, ["", " "]) + s + R(rng, ["", " ", "\n"])
            if kind == "occ":
                p = [load(s)] + [{"op": "print", "via": "new"}]
            else:
                p = [load(s, R(rng, WS))] + [{"op": "print", "via": R(rng, WS)} for _ in range(rng.randrange(1, 3))]
            recs = probes(rng)
            cases.append(Value(kind, p, recs, **turns(rng, kind, recs)))
    judge_values(c, cases, "round-trip")


def check(c):
    build_harness()
    c.log("harness built")
    c.model("MCValues")
    every_pair(c)
    every_nesting(c)
    histories(c)
    round_trips(c)
