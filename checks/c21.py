"""C21 records as values."""
from records import *
import itertools

BASE = [enc([("003@", "", [("0", b"1")]), ("012A", "", [("a", b"x"), ("b", b""), ("a", b"y")]), ("012A", "01", []), ("203@", "02", [("0", b"\xc3\xa4")])]),
        enc([("012A", "", [("a", b"x")])]), enc([("012A", "00", [("a", b"x")])]), enc([("101@", "123", [("Z", b"\xff"), ("0", b"")])])]


def steps(rng):
    A = {"t": [{"k": "c", "c": b} for b in b"012A"], "tt": ints(b"012A"), "o": {"k": "any", "a": [], "b": []}, "ot": ints(b"/*")}
    N = dict(A, o={"k": "none", "a": [], "b": []}, ot=[])
    X = dict(A, o={"k": "exact", "a": ints(b"01"), "b": []}, ot=ints(b"/01"))
    W = dict(A, t=[{"k": "any", "c": 0}] * 4, tt=ints(b"...."))
    return ([{"op": op, "list": l} for op in ("keep", "discard") for l in ([], [A], [N], [X], [W], [X, A])]
            + [{"op": op, "pred": {"k": k, "tag": ints(b"012A"), "c": 97}} for op in ("retain", "through") for k in ("tag", "code", "occ", "odd", "all", "no")]
            + [{"op": "assign", "fields": given([("013A", None, [("a", "b")])])}, {"op": "assign", "fields": given([])},
               {"op": "copy"}, {"op": "serde", "via": "byte"}, {"op": "serde", "via": "ref"}, {"op": "string"}])


def every_short(c):
    """every sequence of two steps (three at depth) on a record and its untouched copies"""
    S = steps(c.rng)
    cases = []
    for base in BASE:
        first = [{"op": "load", "text": ints(base), "via": "byte"}]
        other = [{"op": "load", "text": ints(base), "via": "ref"}]
        for n in ((1, 2, 3) if c.thorough else (1, 2)):
            for p in itertools.product(S, repeat=n):
                if n == 3 and c.rng.random() > 0.4:
                    continue
                cases.append(RecCase("recs", prog=(first if n == 1 or c.rng.random() < 0.8 else other) + list(p) + [{"op": "load", "text": ints(base), "via": R(c.rng, ["byte", "ref"])}]))
    judge_records(c, cases, "every-short")


def histories(c):
    rng = c.rng
    judge_records(c, [RecCase("recs", prog=history(rng, rng.randrange(2, 9), 0.04)) for _ in range(c.scale(4000, 40000))], "history")
    judge_records(c, [RecCase("recs", prog=history(rng, rng.randrange(10, 25), 0.0)) for _ in range(c.scale(300, 4000))], "long-history")


def near_equal(c):
    """records that differ in one place only"""
    rng = c.rng
    cases = []
    for _ in range(c.scale(600, 6000)):
        rec = record(rng, bad=R(rng, [0, 0.3]), nf=rng.randrange(1, 4))
        b = enc(rec)
        t = bytearray(b)
        k = rng.randrange(len(t))
        m = rng.randrange(4)
        if m == 0:
            t[k] = rng.randrange(256)
        elif m == 1:
            del t[k]
        elif m == 2:
            t.insert(k, R(rng, b"0aZ /\x1f\x1e\xc3"))
        p = [{"op": "load", "text": ints(b), "via": R(rng, ["byte", "ref"])},
             {"op": "load", "text": ints(bytes(t)), "via": R(rng, ["byte", "ref"])}]
        if rng.random() < 0.5:
            p += [{"op": R(rng, ["retain", "through"]), "pred": {"k": "all", "tag": [], "c": 0}}]
        cases.append(RecCase("recs", prog=p))
    judge_records(c, cases, "near-equal")


ALPH = {"tag": b"0123A@Za[ /\xc3", "occ": b"0159/a \xd9*", "value": b"a\x1e\x1f\x00\n\xc3\xa4\xff", "subfield": b"\x1fa0$\x1e \xe4", "field": b"\x1e\x1fa /01A@"}


def every_part(c):
    """the constructors of tags, occurrences, codes, values, subfields, fields and records"""
    rng = c.rng
    cases = []
    P = lambda kind, s: cases.append(RecCase("part", kind=kind, text=s if isinstance(s, list) else ints(s)))
    for n in range(0, 5):
        for s in itertools.product(b"0123A@Za" if n >= 4 else ALPH["tag"], repeat=n):
            if n != 4 or c.thorough or rng.random() < 0.6:
                P("tag", bytes(s))
        for s in itertools.product(b"019/a " if n == 4 else ALPH["occ"], repeat=n):
            P("occ", bytes(s))
        for s in itertools.product(ALPH["value"], repeat=n):
            if n < 4 or c.thorough or rng.random() < 0.2:
                P("value", bytes(s))
        for s in itertools.product(ALPH["subfield"], repeat=n):
            if n < 4 or c.thorough or rng.random() < 0.4:
                P("subfield", bytes(s))
    for p in range(4):
        for b in range(256):
            t = bytearray(b"012A")
            t[p] = b
            P("tag", bytes(t))
            P("tag", bytes(t) + b"A")
    for p in range(3):
        for b in range(256):
            t = bytearray(b"012")
            t[p] = b
            P("occ", bytes(t))
            P("occ", bytes(t)[:2])
    for b in range(256):
        P("subfield", bytes([0x1f, b, 0x78]))
        P("value", bytes([0x78, b]))
        P("field", b"012A " + bytes([0x1f, b, 0x1e]))
        P("field", b"012A" + bytes([b, 0x1e]))
    for ch in list(range(0, 0x250)) + [0x660, 0x966, 0x2070, 0xff10, 0xff21, 0x10061, 0x1f600, 0x10161, 0x10041, 0x10030, 0xffff, 0x10ffff]:
        if not 0xd800 <= ch < 0xe000:
            P("code", [ch])
    for _ in range(c.scale(3000, 30000)):
        f = enc([record(rng, bad=R(rng, [0, 0.3]), nf=1)[0]])[:-1]
        if rng.random() < 0.7:
            t = bytearray(f)
            for _ in range(R(rng, [1, 1, 2])):
                k = rng.randrange(len(t) + 1)
                if rng.random() < 0.5 and k < len(t):
                    t[k] = R(rng, [rng.randrange(256), R(rng, b"\x1e\x1f /0A\n")])
                elif rng.random() < 0.5 and k < len(t):
                    del t[k]
                else:
                    t.insert(k, R(rng, b"\x1e\x1f /0A\na"))
                if not t:
                    break
            f = bytes(t)
        P("field", f)
        if rng.random() < 0.5:
            P("record", f + R(rng, [b"\n", b"", b"\n\n", f + b"\n", b"\r\n"]))
    for s in ["main", "local", "copy", "", "Main", "MAIN", "lokal", "copy ", " main", "mainlocal", "0", "1", "mai", "locals"]:
        P("level", s.encode())
    judge_records(c, cases, "parts", 20000)
    # pairs
    cases = []
    occs = ["00", "01", "10", "09", "99", "000", "001", "010", "099", "100", "999", "011", "110"]
    tags = ["003@", "012A", "012B", "002@", "101@", "203@", "013A", "012Z"]
    vals = ["", "a", "b", "ab", "A", "\u00e4", "a\u0308", "\x00", "a\x00", "aa", "\U0001f600", "z", "\n"]
    for kind, xs in (("occ", occs), ("tag", tags), ("value", vals)):
        for a, b in itertools.product(xs, xs):
            cases.append(RecCase("pair", kind=kind, a=ints(a.encode()), b=ints(b.encode())))
    judge_records(c, cases, "pairs")


def check(c):
    c.model("MCRecords", "MCRecords_deep" if c.thorough else None)
    build_harness()
    c.log("harness built")
    every_short(c)
    histories(c)
    near_equal(c)
    every_part(c)
