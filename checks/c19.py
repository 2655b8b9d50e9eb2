"""C19 the expression languages."""
from values import *
import itertools

TOKENS = {
    "filter": ["012A", "01[2-3]A", "....", "/01", "/*", "/00", "/01-03", ".", "$", "?", "{", "}", "(", ")", "!", "&&", "||", "^", "XOR",
               "#", "==", "!=", ">=", "<", "2", "a", "[ab]", "*", "'b'", "ALL ", "ANY ", "in", "not ", "['a', 'b']", "=~", "!~", "=^", "=?", " ", ","],
    "sub": ["a", "[a-c]", "*", "?", "#", "==", "!=", "=^", "!^", "=$", "!$", "=*", "=~", "!~", "=?", ">", "1", "'b'", "\"b\"", "in", "not ", "[", "]", ",",
            "'ab'", "ALL ", "ANY ", "(", ")", "!", "&&", "||", "^", "XOR", " ", "$", "x"],
    "path": ["012A", "....", "/01", "/*", ".", "$", "{", "}", "(", ")", ",", "a", "b", "[a-c]", "*", "|", "a == 'b'", "b?", " ", "ab", "?", "/00"],
    "format": ["012A", "/*", "{", "}", "(", ")", "a", "b", "[ab]", "*", "..", "2", "?l", "?uto", "'x'", "' '", "<*>", "<$>", "|", "b?", " ", "0"],
    "query": ["012A", "/*", ".", "{", "}", "a", "b", ",", "'x'", "<*>", "|", "b?", " ", "(", ")", "\"y\"", "?u", ".."],
    "tag": ["0", "1", "2", "3", "[", "]", "-", ".", "A", "Z", "@", "a", "9"],
    "occ": ["/", "0", "1", "9", "-", "*", "00", " "],
}
ALPHA = list("0129aAzZ@.$/*-[](){}|!&^#?=<>~'\",\\ \tnotinALLXOR") + ["\u00fc", "\n"]
OPEN, CLOSE = "([{'\"", ")]}'\""


def mutate(rng, s, other):
    s = list(s)
    for _ in range(R(rng, [1, 1, 1, 2, 3])):
        k = rng.randrange(len(s) + 1)
        m = rng.randrange(7)
        if m == 0 and s:
            del s[min(k, len(s) - 1)]
        elif m == 1:
            s.insert(k, R(rng, ALPHA))
        elif m == 2 and s:
            s[min(k, len(s) - 1)] = R(rng, ALPHA)
        elif m == 3 and len(s) > 1:
            k = rng.randrange(len(s) - 1)
            s[k], s[k + 1] = s[k + 1], s[k]
        elif m == 4:
            s.insert(k, R(rng, [" ", "  ", "\t", "\r\n"]))
        elif m == 5 and other:
            i = rng.randrange(len(other))
            s[k:k] = list(other[i:i + rng.randrange(1, 6)])
        elif s:
            i = rng.randrange(len(s))
            s[i:i + rng.randrange(1, 5)] = []
    return "".join(s)


def blanks(rng, s):
    """blanks between the characters at a few places"""
    s = list(s)
    for _ in range(rng.randrange(1, 4)):
        s.insert(rng.randrange(len(s) + 1), R(rng, [" ", " ", "\t", "\n"]))
    return "".join(s)


def probes(rng, n=2):
    tags = ["012A", "013A", "012A", "003@", "101@", "028A"]
    return [enc(record(rng, tags=tags, nf=rng.randrange(1, 5))) for _ in range(n)]


def short(kind, depth):
    """all texts of at most depth tokens"""
    for n in range(1, depth + 1):
        for ts in itertools.product(TOKENS[kind], repeat=n):
            yield "".join(ts)


DEEP = [("filter", "(" * n + "012A?" + ")" * n) for n in (1, 30, 31, 32, 254, 255, 256, 300)] \
    + [("sub", "(" * n + "a?" + ")" * n) for n in (1, 31, 32, 254, 255, 256)] \
    + [("filter", "012A{" + "(" * n + "a?" + ")" * n + "}") for n in (254, 255, 256)] \
    + [("filter", "!(" * n + "012A.a?" + ")" * n) for n in (100, 127, 128, 256)] \
    + [("filter", "(!!" * n + "012A{a?}" + ")" * n) for n in (85, 86)] \
    + [("filter", "!" * n + "012A?") for n in (1, 2, 100, 255, 256, 6000)] \
    + [("sub", "!" * n + "a?") for n in (1, 2, 100, 255, 256, 6000)] \
    + [("sub", "! (" * n + "a?" + ")" * n) for n in (127, 128)] \
    + [("filter", "!" * 200 + "012A{" + "!" * n + "a?}" ) for n in (200, 255, 256)] \
    + [("format", "012A{" + "(a <$> " * n + "b" + ")" * n + "}") for n in (1, 2, 3, 4)] \
    + [("filter", "#012A > %s" % n) for n in ("0", "007", "999999999", "4294967296", "18446744073709551615", "18446744073709551616",
                                             "000000000000000000000000000001", "99999999999999999999")] \
    + [("sub", "#a == %s" % n) for n in ("1", "01", "18446744073709551615", "18446744073709551616")] \
    + [("format", "012A{a..%s}" % n) for n in ("0", "1", "01", "18446744073709551615", "18446744073709551616")]
RETEXT = ["a", "", "a|", "(a", "a)", "*", "a**", "(?:a)", "(?i)a", "[a", "a]", "[]", "[^]", "[b-a]", "[a-b-c]", "a{2}", "{2}", "a{", "^*", "()", "(|)", "a+?",
          "^", "$", "^$", "[^a]", "x{0}", "a{2}{2}", "a??", "(?:", "a|*", "(*a)", "\\d", "[a-z0-9]", "+", "?", "(a|b)*c"]


def grammar(c):
    rng = c.rng
    cases = []
    n = c.scale(700, 6000)
    for kind, g in GENS.items():
        if kind == "list":
            continue
        last = ""
        m = n if kind not in ("tag", "occ", "field") else n // 4
        for _ in range(m):
            s = g(rng)
            cases.append(Value(kind, [load(s, R(rng, ["new", "new", "serde"]))], probes(rng), mopts(rng), "generated"))
            for _ in range(2):
                cases.append(Value(kind, [load(mutate(rng, s, last))], probes(rng, 1), mopts(rng), "mutated"))
            cases.append(Value(kind, [load(blanks(rng, s))], probes(rng, 1), mopts(rng), "blanks"))
            last = s
    judge_values(c, cases, "generated")


def soup(c):
    rng = c.rng
    cases = []
    for kind in TOKENS:
        for _ in range(c.scale(700, 8000)):
            s = "".join(R(rng, TOKENS[kind]) for _ in range(rng.randrange(1, 8)))
            cases.append(Value(kind, [load(s)], probes(rng, 1), mopts(), "tokens"))
    judge_values(c, cases, "token-soup")


def every_short(c):
    rng = c.rng
    depth = {"filter": (2, 3), "sub": (2, 3), "path": (3, 4), "format": (2, 3), "query": (2, 3), "tag": (3, 4), "occ": (4, 6)}
    pr = [enc([("003@", "", [("0", b"1")]), ("012A", "", [("a", b"b"), ("a", b"x"), ("b", b"ab")]), ("012A", "01", [("a", b"ab"), ("x", b"b")]), ("013A", "00", [])])]
    cases = []
    pre = {"tag": ["", "0", "01", "012"], "path": ["", "012A{a", "012A"], "filter": ["", "012A", "012A?"], "sub": ["", "a", "a == 'b'"],
           "format": ["", "012A{a", "012A{"], "query": ["", "012A.a", "012A{a"], "occ": ["", "/0"]}
    for kind, (q, t) in depth.items():
        seen = set()
        for s in short(kind, t if c.thorough else q):
            for p in pre[kind]:
                for e in ("", "}") if "{" in p else ("",):
                    seen.add(p + s + e)
        cases += [Value(kind, [load(s)], pr, mopts(), "short") for s in sorted(seen)]
    judge_values(c, cases, "every-short-text")


def command_line(c):
    """every command refuses what is no expression, before it writes"""
    rng = c.rng
    cases = []
    for kind, places in CLI_AT.items():
        for k in range(c.scale(240 if kind == "filter" else 120, 1500)):
            s = GENS[kind](rng)
            if rng.random() < 0.6:
                s = mutate(rng, s, GENS[kind](rng))
            args = places[k % len(places)]
            if s.startswith("-") or "\0" in s or ("expr" in args and s.strip() != s):
                continue
            cases.append(AtCli(kind, s, args, probes(rng, 3)))
    judge_cli(c, cases, "command-line")


def corners(c):
    rng = c.rng
    cases = [Value(k, [load(s)], probes(rng, 1), mopts(), "corner") for k, s in DEEP]
    for r in RETEXT:
        for s in ("a =~ '%s'" % r, "a !~ ['%s', 'b']" % r, "ALL a =~ ['b', '%s',]" % r):
            s = s.replace("\\", "\\\\")
            cases.append(Value("sub", [load(s)], probes(rng, 2), mopts(), "regex"))
    for q in "'\"":
        for e in "nrtbf\\/'\"xu0 \t\na":
            s = "a == %sx\\%sy%s" % (q, e, q)
            cases.append(Value("sub", [load(s)], [enc([("012A", "", [("a", v)])]) for v in
                                                  (b"xy", b"x\ny", b"x\ry", b"x\ty", b"x\x08y", b"x\x0cy", b"x\\y", b"x/y", b"x'y", b'x"y', b"xay", b"x y")], mopts(), "escape"))
    for cp in list(range(0, 256)) + [0x100, 0x20ac, 0x2028, 0x1f600]:
        ch = chr(cp)
        cases.append(Value("sub", [load("a == '%s'" % ch)], [enc([("012A", "", [("a", ch.encode() if ch not in "\x1e\x1f\n" else b"?")])])], mopts(), "character"))
        cases.append(Value("sub", [load("%s?" % ch)], probes(rng, 1), mopts(), "character"))
        cases.append(Value("sub", [load("[%s]?" % ch)], probes(rng, 1), mopts(), "character"))
        cases.append(Value("tag", [load("012%s" % ch)], probes(rng, 1), mopts(), "character"))
        cases.append(Value("tag", [load("[0%s]12A" % ch)], probes(rng, 1), mopts(), "character"))
        cases.append(Value("filter", [load("012A%s?" % ch)], probes(rng, 1), mopts(), "character"))
        cases.append(Value("sub", [load("a%s== 'a'" % ch)], probes(rng, 1), mopts(), "character"))
        cases.append(Value("format", [load("012A{?%s a}" % ch)], probes(rng, 1), mopts(), "character"))
    for a in range(48, 123):
        for b in (a - 1, a, a + 1, 122, 48):
            s = "[%c-%c]?" % (a, b)
            cases.append(Value("sub", [load(s)], probes(rng, 1), mopts(), "range"))
            cases.append(Value("tag", [load("01[%c-%c]@" % (a, b))], probes(rng, 1), mopts(), "range"))
    for a in ["00", "01", "0", "000", "001", "10", "99", "100", "999", "1"]:
        for b in ["00", "01", "02", "000", "001", "010", "99", "100", "9", "0999"]:
            cases.append(Value("occ", [load("/%s-%s" % (a, b))], [enc([("012A", o, []) for o in ("", "00", "01", "02", "10", "99", "000", "001", "010", "100")])], mopts(), "range"))
        cases.append(Value("occ", [load("/" + a)], [enc([("012A", o, []) for o in ("", "00", "01", "02", "10", "99", "000", "001", "010", "100")])], mopts(), "exact"))
    judge_values(c, cases, "corners")


def lengths(c):
    """as many parts as it takes, of everything that is repeated; once with the last one not as the grammar has it"""
    rng = c.rng
    cases = []
    recs = [enc([("003@", "", [("0", b"1")]), ("012A", "", [("a", b"b"), ("b", b"x")]), ("012A", "01", [("a", b"c")])]), enc([("013A", "", [("a", b"b")])])]
    for n in (9, 17, 33, 65, 129, 257):
        for kind, parts in (
                ("filter", [("", "012B?", " && ", "012A?", ""), ("", "012B?", " || ", "012A?", ""), ("", "012A?", "^", "!013A?", ""), ("012A{", "b?", "||", "a == 'b'", "}"),
                            ("012A{a in [", "'q'", ", ", "'b'", "]}"), ("012A.a =? ['b', '", "q", "", "q", "']"), ("", "!", "", "012A?", ""), ("012A.a == '", "\\'", "", "\\'", "'"),
                            ("", " ", "", "012A?", "")]),
                ("sub", [("", "b?", " && ", "a?", ""), ("", "x?", "||", "a?", ""), ("", "a?", " XOR ", "b?", ""), ("a in [", "'q'", ",", "'b'", ",]"), ("a =? [", "'q'", ",", "'b'", "]"),
                         ("a =~ [", "'q'", ", ", "'b'", "]"), ("[", "x", "", "a", "]?"), ("a == '", "b", "", "b", "'"), ("a == \"", "\\n", "", "\\n", "\""), ("", "!", "", "a?", "")]),
                ("path", [("012A{", "a", ", ", "b", "}"), ("012A{(", "a", ",", "b", ")}"), ("012A.[", "x", "", "a", "]"), ("012A{a | ", "x?", " || ", "a?", "}")]),
                ("query", [("", "012A.a", ", ", "003@.0", ""), ("012A{", "a", ", ", "b", "}"), ("", "003@.0", ",", "'x'", "")]),
                ("format", [("012A{", "a", " <*> ", "b", "}"), ("012A{", "a", " <$> ", "b", "}"), ("012A{?", "l", "", "u", " a}"), ("012A{'", "x", "", "y", "' a}")]),
                ("tag", [("01[", "2", "", "3", "]A"), ("[", "0", "", "1", "]12A")])):
            if n > c.scale(129, 257) and kind in ("format", "query"):
                continue
            for pre, x, sep, last, post in parts:
                if kind == "query" and n > 33:
                    continue
                for s in (pre + sep.join([x] * (n - 1) + [last]) + post, pre + sep.join([x] * (n - 1) + ["\u00fc"]) + post, pre + sep.join([x] * n) + sep + post):
                    cases.append(Value(kind, [load(s)], recs, mopts(), "length"))
    for n in (5, 20, 60):
        for kind, o, x, q in (("filter", "(", "012A?", ")"), ("sub", "(", "a?", ")"), ("filter", "!(", "012A?", ")"), ("sub", "!(", "a?", ")"), ("filter", "012A{" + "(" * n, "a?", ")" * n + "}")):
            m = 1 if "{" in o else n
            for k in (0, 1):
                cases.append(Value(kind, [load(o * m + x + q * m + ")" * k)], recs, mopts(), "depth"))
    judge_values(c, cases, "lengths")


def check(c):
    build_harness()
    c.log("harness built")
    c.model("MCSyntax", "MCSyntax_deep" if c.thorough else "MCSyntax")
    grammar(c)
    soup(c)
    every_short(c)
    corners(c)
    lengths(c)
    command_line(c)
