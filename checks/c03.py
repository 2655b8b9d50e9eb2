"""C03 filter atoms: what one condition on a field or subfield means."""
from mk import *
import big
import itertools

VALS = ["", "a", "A", "ab", "aB", "ba", "abab", "b", "ü", "Ü", "ß", "1", "\u212a", "k", "e\u0301", "é"]


def grid():
    """records of 012A with every multiset of at most two values, and records with two such fields"""
    out = []
    one = [[("a", v)] for v in VALS]
    two = [[("a", v), ("a", w)] for v in VALS[:8] for w in VALS[:8]]
    oth = [[], [("b", "a")], [("a", "a"), ("b", "b")], [("b", "ab"), ("a", "ab"), ("b", "")]]
    for k, subs in enumerate(one + two + oth):
        out.append(enc([("003@", "", [("0", b"%d" % k)]), ("012A", "", [(c, v.encode()) for c, v in subs])]))
    sets = [[("a", "a")], [("a", "ab")], [("b", "a")], [], [("a", "a"), ("a", "b")]]
    for k, (x, y) in enumerate(itertools.product(sets, repeat=2)):
        out.append(enc([("003@", "", [("0", b"x%d" % k)])] +
                       [("012A", o, [(c, v.encode()) for c, v in s]) for o, s in (("", x), ("", y))]))
    out.append(enc([("003@", "", [("0", b"none")])]))
    return out


def job(rng, files, toks, s, ci=False, th=75):
    b = B(rng, "filter", files)
    b.o["hasw"], b.o["w"] = True, {"e": toks, "and": [], "or": [], "not": []}
    b.o["mo"] = {"ci": ci, "th": th}
    if ci:
        b.args.append("-i")
    if th != 75:
        b.args += ["--strsim-threshold", str(th)]
    b.post = [s]
    return b.job(note=s)


def atoms(rng):
    """one of every form, over every value"""
    cs = {"all": False, "r": [[97, 97]]}
    t, o = lit_tag("012A"), {"k": "none"}
    top = lambda a: [{"k": "atom", "a": a}]
    for qf, qft in (("ANY", ""), ("ANY", "ANY "), ("ALL", "ALL ")):
        for q, qt in (("ANY", ""), ("ALL", "ALL ")):
            wrap = lambda a, s: (top({"k": "sub", "q": qf, "t": t, "o": o, "e": top(a)}), "%s012A{%s%s}" % (qft, qt, s))
            for op in ("==", "!=", "=^", "!^", "=$", "!$", "=*"):
                for v in VALS:
                    yield wrap({"k": "rel", "q": q, "cs": cs, "op": op, "v": vb(v)}, "a %s %s" % (op, qstr(rng, v)))
            for v in VALS[1:10]:
                yield wrap({"k": "has", "q": q, "cs": cs, "vals": [vb(v)]}, "a =? %s" % qstr(rng, v))
            for vs in (["a", "b"], ["ba", "Ü"], ["ab"], ["", "1"], ["A", "ü", "b"]):
                lst = "[" + ", ".join(qstr(rng, v) for v in vs) + "]"
                if all(vs):
                    yield wrap({"k": "has", "q": q, "cs": cs, "vals": [vb(v) for v in vs]}, "a =? " + lst)
                for inv in (False, True):
                    yield wrap({"k": "in", "q": q, "cs": cs, "inv": inv, "vals": [vb(v) for v in vs]},
                               "a %sin %s" % ("not " if inv else "", lst))
            for inv in (False, True):
                for _ in range(6):
                    r, rs = regex_top(rng)
                    yield wrap({"k": "re", "q": q, "cs": cs, "inv": inv, "res": [r]}, "a %s %s" % ("!~" if inv else "=~", qstr(rng, rs)))
                for k in range(4):          # sets: an expression is an expression of its own
                    rs = [regex_top(rng) for _ in range(R(rng, [2, 2, 3]))]
                    if k < 2:
                        a, t1 = R(rng, [([{"k": "c", "c": ord(y)} for y in x], x) for x in ("a", "ba", "ü", "A")])
                        rs[0] = ({"k": "ci", "on": True, "x": {"k": "cat", "xs": a}}, "(?i)" + t1) if k else \
                            ({"k": "cat", "xs": [{"k": "bol"}] + a}, "^" + t1)
                    yield wrap({"k": "re", "q": q, "cs": cs, "inv": inv, "res": [r[0] for r in rs]},
                               "a %s [%s]" % ("!~" if inv else "=~", ", ".join(qstr(rng, r[1]) for r in rs)))
            for _ in range(1):
                yield wrap({"k": "ex", "cs": cs}, "a?") if not qt else wrap({"k": "ex", "cs": {"all": True, "r": []}}, "*?")[:1] + ("%s012A{*?}" % qft,)
        for op in OPS:
            for n in range(0, 4):
                yield top({"k": "sub", "q": qf, "t": t, "o": o, "e": top({"k": "card", "cs": cs, "op": op, "n": n})}), \
                    "%s012A{#a %s %d}" % (qft, op, n)
    for op in OPS:
        for n in range(0, 4):
            yield top({"k": "fcard", "t": t, "o": o, "has": False, "e": [], "op": op, "n": n}), "#012A %s %d" % (op, n)
            e = top({"k": "rel", "q": "ANY", "cs": cs, "op": "==", "v": vb("a")})
            yield top({"k": "fcard", "t": t, "o": o, "has": True, "e": e, "op": op, "n": n}), "#012A{a == 'a'} %s %d" % (op, n)
    yield top({"k": "fex", "t": t, "o": o}), "012A?"


FOLDS = ["\u0130", "i\u0307", "\u023a", "\u2c65", "\u212a", "k", "K", "\u2126", "\u03c9", "\u212b", "å", "Å", "\u1e9e", "ß", "Ü", "ü",
         "\u2c62", "\u026b", "Я", "я", "\u01c5", "ab", "Ab", "Σ", "σ", "ς", "ΑΣ", "Ας", "ασ"]


def folding(c, rng):
    """letters whose lower case has another length, on either side of every operator"""
    vals = FOLDS + [a + b for a, b in (("\u0130", "x"), ("x", "\u212a"), ("ü", "\u023a"), ("i\u0307", "x"), ("xk", ""), ("", "Ü\u2c65"))]
    # no letter of the title case digraph: the specification's tables leave it alone
    vals = [v for v in vals if "\u01c5" not in v]
    recs = [enc([("003@", "", [("0", b"%d" % k)]), ("012A", "", [("a", v)])]) for k, v in enumerate([v.encode() for v in vals] + [b"\xffAB", b"AB\xff", b"k\xc3", b"\xbcAb", "ΑΣ".encode() + b"\xff"])]
    cs = {"all": False, "r": [[97, 97]]}
    jobs = []
    for v in vals:
        for op in ("==", "!=", "=^", "!^", "=$", "!$", "=?", "in"):
            if op == "=?":
                a, s = {"k": "has", "q": "ANY", "cs": cs, "vals": [vb(v)]}, "012A.a =? " + qstr(rng, v)
            elif op == "in":
                a, s = {"k": "in", "q": "ANY", "cs": cs, "inv": False, "vals": [vb(v), vb("zz")]}, "012A.a in [%s, 'zz']" % qstr(rng, v)
            else:
                a, s = {"k": "rel", "q": "ANY", "cs": cs, "op": op, "v": vb(v)}, "012A.a %s %s" % (op, qstr(rng, v))
            toks = [{"k": "atom", "a": {"k": "sub", "q": "ANY", "t": lit_tag("012A"), "o": NOOCC, "e": [{"k": "atom", "a": a}]}}]
            for ci in (True, False) if c.thorough else (True,):
                jobs.append(job(rng, [recs], toks, s, ci))
    c.judge(jobs, kind="folding")


def check(c):
    rng = c.rng
    c.judge(big.atoms(random.Random(c.seed), c), kind="scale")
    c.model("MCMatcher", "MCMatcher_deep" if c.thorough else None)
    g = grid()
    jobs, every = [], list(atoms(rng))
    for k, (toks, s) in enumerate(every):
        for ci in (False, True) if c.thorough else (k % 2 == 0,):
            jobs.append(job(rng, [g], toks, s, ci, R(rng, [75, 75, 0, 49, 50, 99])))
    c.judge(jobs, kind="every-form")
    folding(c, rng)
    # random values, tags, occurrences, codes
    jobs = []
    for _ in range(c.scale(250)):
        files = [corpus(rng, 14, inv=0.0, bad=0.05, long=True)]
        a, s = field_atom(rng, lit=0.7)
        jobs.append(job(rng, files, a, s, rng.random() < 0.4, R(rng, [75, 75, 0, 33, 50, 60, 80, 99])))
    c.judge(jobs, kind="random-atoms")
    # thresholds of the similarity operator around the similarity itself
    jobs = []
    for _ in range(c.scale(40)):
        w = R(rng, ["Goethe", "abcdefgh", "äöü", "kitten", "ab", "x"])
        recs = []
        for k in range(24):
            v = list(w)
            for _ in range(rng.randrange(0, 5)):
                m = rng.randrange(3)
                p = rng.randrange(len(v) + 1)
                if m == 0:
                    v.insert(p, R(rng, "abxÜ€"))
                elif v and m == 1:
                    del v[min(p, len(v) - 1)]
                elif v:
                    v[min(p, len(v) - 1)] = R(rng, "aGxé")
            recs.append(enc([("003@", "", [("0", b"%d" % k)]), ("028A", "", [("a", "".join(v).encode())])]))
        a = {"k": "rel", "q": "ANY", "cs": {"all": False, "r": [[97, 97]]}, "op": "=*", "v": vb(w)}
        toks = [{"k": "atom", "a": {"k": "sub", "q": "ANY", "t": lit_tag("028A"), "o": NOOCC, "e": [{"k": "atom", "a": a}]}}]
        jobs.append(job(rng, [recs], toks, "028A.a =* " + qstr(rng, w), rng.random() < 0.3, rng.randrange(0, 100)))
    # similarity equal to the threshold, and one point to either side
    ab = "abcdefghijklmnopqrstuvwxyzäöüßαβγδ0123456789€éèABCDEFGHIJKL"
    cases = [(n, n - n * t // 100, t + k) for n in (4, 5, 10, 20, 25, 50) for t in range(100) if n * t % 100 == 0 for k in (-1, 0, 1)]
    cases = [x for x in cases if 0 <= x[2] < 100]
    rng.shuffle(cases)
    aimed = [(10, 7, 30), (20, 17, 15), (50, 9, 82), (10, 1, 90), (10, 3, 70), (10, 6, 40), (20, 11, 45), (20, 13, 35), (25, 21, 16), (25, 22, 12)]
    for n, d, t in aimed + cases[:c.scale(60)]:
        w = ab[:n]
        ps = rng.sample(range(n), d)
        recs = []
        for k, more in enumerate((0, -1, 1, 2, -2)):
            if not 0 <= d + more <= n:
                continue
            qs = ps[:d + more] if more <= 0 else ps + rng.sample([p for p in range(n) if p not in ps], more)
            v = "".join("#" if p in qs else x for p, x in enumerate(w))
            recs.append(enc([("003@", "", [("0", b"%d" % k)]), ("028A", "", [("a", v.encode())])]))
        a = {"k": "rel", "q": "ANY", "cs": {"all": False, "r": [[97, 97]]}, "op": "=*", "v": vb(w)}
        toks = [{"k": "atom", "a": {"k": "sub", "q": "ANY", "t": lit_tag("028A"), "o": NOOCC, "e": [{"k": "atom", "a": a}]}}]
        jobs.append(job(rng, [recs], toks, "028A.a =* " + qstr(rng, w), False, t))
    c.judge(jobs, kind="similarity")
