"""C16 rule sets."""
from rules import *
import big
import itertools


def one(rng, files, kind, **over):
    """a rule set with one rule"""
    b = B(rng, "check", files)
    b.o.update(rs=[], txt=False, delim=44, hdr=CHECKHDR, hasre=False, res=[], hastags=False, tags=[], skip=True)
    r, text = rule(rng, "R", b.extra, files, kind)
    b.o["rs"] = [{"hasscope": False, "scope": [], "fast": False, "rules": [r]}]
    b.extra["rules.toml"] = text.encode()
    b.args += ["-s", "-R", "rules.toml"]
    return b


def fixed(rng, files, r, text):
    b = B(rng, "check", files)
    base_rule = {"id": ints(b"R"), "ci": False, "th": 80, "hastags": False, "tags": [], "level": ints(b"error")}
    b.o.update(rs=[{"hasscope": False, "scope": [], "fast": False, "rules": [dict(base_rule, **r)]}], txt=False, delim=44, hdr=CHECKHDR,
               hasre=False, res=[], hastags=False, tags=[])
    b.extra["rules.toml"] = ("[rule.R]\n" + text).encode()
    b.args += ["-R", "rules.toml"]
    return b


def rec1(k, tag, code, v):
    return enc([("003@", "", [("0", b"%d" % k)]), (tag, "", [(code, v.encode() if isinstance(v, str) else v)])])


def every_value(c, rng):
    """all values of the finite domains, one record each"""
    jobs = []

    def sweep(kind, tag, code, values, r, text):
        values = list(values)
        for a in range(0, len(values), 400):
            part = values[a:a + 400]
            files = [[rec1(k, tag, code, v) for k, v in enumerate(part)]]
            jobs.append(fixed(rng, files, dict(r, kind=kind, path=P1(tag, code)[0]), 'check = "%s"\npath = "%s.%s"\n%s' % (kind, tag, code, text)).job())
    az = "abcdefghijklmnopqrstuvwxyz"
    lang = ["".join(x) for x in itertools.product(az, repeat=3)]
    sweep("iso639-2b", "010@", "a", lang + LANG + [x.upper() for x in lang[::97]], {}, "")
    AZ = az.upper()
    sweep("jelc", "045Z", "a", [a + b + d for a in AZ for b in "0123456789" for d in [""] + list("0123456789")] + JEL, {}, "")
    for fmt, values in (
            ("%Y-%m-%d", ["%d-%02d-%02d" % (y, m, d) for y in (0, 4, 100, 1900, 1999, 2000, 2023, 2024, 2100, 9999) for m in range(0, 14) for d in range(0, 33)]),
            ("%d.%m.%y", ["%02d.%02d.%02d" % (d, m, y) for y in (0, 1, 4, 68, 69, 99) for m in (1, 2, 12, 13) for d in (1, 28, 29, 30, 31, 32)]),
            ("%F %T", ["2021-03-04 %02d:%02d:%02d" % (h, m, s) for h in (0, 1, 12, 23, 24, 25) for m in (0, 59, 60) for s in (0, 59, 60, 61)])):
        sweep("datetime", "010@", "D", values, {"format": ints(fmt.encode()), "offset": 0}, 'format = "%s"\n' % fmt)
    # every check digit for a set of numbers
    vals = []
    for _ in range(60 if not c.thorough else 500):
        d = "".join(R(rng, "0123456789") for _ in range(15))
        vals += [d + x for x in "0123456789Xx:"]
    sweep("isni", "028A", "y", vals + [isni(rng) for _ in range(300)], {"hasprefix": False, "prefix": []}, "")
    c.judge(jobs, kind="every-value")


def link_orders(c, rng):
    """dangling links, for every order of the records"""
    recs = [enc([("002@", "", [("0", b"Tp1")]), ("003@", "", [("0", b"1")]), ("041A", "", [("9", b"2")]), ("041A", "", [("9", b"4"), ("9", b"3")])]),
            enc([("002@", "", [("0", b"Tg1")]), ("003@", "", [("0", b"2")]), ("041A", "", [("9", b"2"), ("9", b"9")])]),
            enc([("002@", "", [("0", b"Tp2")]), ("003@", "", [("0", b"3")]), ("041A", "", [("9", b"1")])]),
            enc([("003@", "", [("0", b"4")]), ("041A", "", [("9", b"9")]), ("041A", "", [("9", b"")])]),
            enc([("041A", "", [("9", b"9")])])]
    jobs = []
    for n in (1, 2, 3, 4, 5):
        perms = list(itertools.permutations(range(5), n))
        for p in perms if c.thorough or n < 4 else rng.sample(perms, 40):
            files = [[recs[i] for i in p]]
            flt = rng.random() < 0.5
            r = {"kind": "link", "source": P1("041A", "9")[0], "target": P1("003@", "0")[0], "hasfilter": flt, "filter": []}
            t = 'check = "link"\nsource.path = "041A.9"\n'
            if flt:
                r["filter"] = [{"k": "atom", "a": {"k": "sub", "q": "ANY", "t": lit_tag("002@"), "o": NOOCC,
                                                   "e": [{"k": "atom", "a": {"k": "rel", "q": "ANY", "cs": codes("0"), "op": "=^", "v": ints(b"Tp")}}]}}]
                t += 'target = { path = "003@.0", filter = "002@.0 =^ \'Tp\'" }\n'
            else:
                t += 'target.path = "003@.0"\n'
            b = fixed(rng, files, r, t)
            if rng.random() < 0.4:
                b.o["rs"][0].update(hasscope=True, scope=[{"k": "atom", "a": {"k": "fex", "t": lit_tag("002@"), "o": NOOCC}}])
                b.extra["rules.toml"] = b'scope = "002@?"\n' + b.extra["rules.toml"]
            if rng.random() < 0.2:
                b.o["limit"] = rng.randrange(1, n + 1)
                b.args += ["-l", str(b.o["limit"])]
            jobs.append(b.job())
    c.judge(jobs, kind="link-orders")


def atom0(v):
    """002@.0 == v"""
    return [{"k": "atom", "a": {"k": "sub", "q": "ANY", "t": lit_tag("002@"), "o": NOOCC,
                                "e": [{"k": "atom", "a": {"k": "rel", "q": "ANY", "cs": codes("0"), "op": "==", "v": ints(v)}}]}}]


def selection(c, rng):
    """which rules run: all combinations of rule tags, --tags, --rule, termination, scope and inversion"""
    TAGS = [("R1", None), ("R2", []), ("R3", ["a"]), ("R10", ["b"]), ("xR1", ["b", "a"]), ("R", ["a b"]), ("q", [""])]
    OPT = [None, "a", "b", "a,b", " b , x ", "x", "a,x", "", ",", "a b", "A", "a,,"]
    RES = [[], [("R1", lit("R1"))], [("^R1$", [{"k": "bol"}] + lit("R1") + [{"k": "eol"}])], [("R3", lit("R3")), ("^x", [{"k": "bol"}] + lit("x"))], [("y", lit("y"))]]
    recs = [enc([("003@", "", [("0", b"%d" % k)]), ("002@", "", [("0", v)])]) for k, v in enumerate((b"T", b"O", b"T"))]
    jobs = []
    for opt in OPT:
        for res in RES:
            b = B(rng, "check", [recs])
            b.o.update(rs=[], txt=False, delim=44, hdr=CHECKHDR, hasre=bool(res), res=[Cat(a) for _, a in res], hastags=opt is not None,
                       tags=ints((opt or "").encode()))
            for k, half in enumerate((TAGS[:4], TAGS[4:])):
                # with fast termination: one finding per record, of any of the rules
                fast, scope = rng.random() < 0.3, rng.random() < 0.3
                rs = {"hasscope": scope, "scope": atom0(b"T") if scope else [], "fast": fast, "rules": []}
                text = ('scope = "002@.0 == \'T\'"\n' if scope else "") + ('termination = "fast"\n' if fast else "")
                for rid, tags in half:
                    v, inv = R(rng, [(b"T", False), (b"O", True), (b"T", True), (b"O", False)])
                    rs["rules"].append({"id": vb(rid), "kind": "filter", "ci": False, "th": 80, "hastags": tags is not None, "tags": [vb(t) for t in tags or []],
                                        "level": ints(b"error"), "e": atom0(v), "inv": inv})
                    text += "\n[rule.%s]\ncheck = \"filter\"\nfilter = \"002@.0 == '%s'\"\n" % (rid, v.decode())
                    text += ("invert-match = true\n" if inv else "") + ("tags = %s\n" % ts(tags) if tags is not None else "")
                b.o["rs"].append(rs)
                b.extra["rules%d.toml" % k] = text.encode()
                b.args += ["-R", "rules%d.toml" % k]
            for s, _ in res:
                b.args += [R(rng, ["-r", "--rule"]), s]
            if opt is not None:
                b.args += ["--tags=" + opt]
            jobs.append(b.job())
    c.judge(jobs, kind="selection")


def repeats(c, rng):
    """all short sequences of values in one record, for the checks that look at all of a record's values"""
    jobs = []
    seqs = [q for n in range(0, 5) for q in itertools.product((b"a", b"b", b""), repeat=n)]
    recs = []
    for k, q in enumerate(seqs):
        fs, cur = [("003@", "", [("0", b"%d" % k)])], []
        for v in q:                                     # some in one field, some in several
            cur.append(("e", v))
            if rng.random() < 0.6:
                fs.append(("045E", "", cur))
                cur = []
        recs.append(enc(fs + ([("045E", "", cur)] if cur else [])))
    for th in (1, 2, 3, 4):
        jobs.append(fixed(rng, [recs], {"kind": "duplicates", "q": [{"k": "path", "p": P1("045E", "e")[0]}], "threshold": th, "sep": ints(b"|")},
                          'check = "duplicates"\nquery = "045E.e"\nthreshold = %d\n' % th))
    jobs = [b.job() for b in jobs]
    # each value of a record is judged: the bad one first, last, in the middle, twice, in another field
    for kind, tag, code, good, bad, r, text in (
            ("isni", "028A", "y", b"000000012281955X", b"0000000122819551", {"hasprefix": False, "prefix": []}, ""),
            ("isni", "028A", "y", b"(o)000000012281955X", b"(o)0000000122819551", {"hasprefix": True, "prefix": ints(b"(o)")}, 'prefix = "(o)"\n'),
            ("iso639-2b", "010@", "a", b"ger", b"deu", {}, ""),
            ("jelc", "045Z", "a", b"A10", b"A1x", {}, ""),
            ("datetime", "010@", "D", b"2024-02-29", b"2023-02-29", {"format": ints(b"%Y-%m-%d"), "offset": 0}, ""),
            ("link", "041A", "9", b"1", b"x", {"source": P1("041A", "9")[0], "target": P1("003@", "0")[0], "hasfilter": False, "filter": []},
             'source.path = "041A.9"\ntarget.path = "003@.0"\n')):
        recs = []
        for k, q in enumerate(q for n in range(0, 5) for q in itertools.product((good, bad, b""), repeat=n)):
            fs, cur = [("003@", "", [("0", b"%d" % k)])], []
            for v in q:
                cur.append((code, v))
                if rng.random() < 0.5:
                    fs.append((tag, "", cur))
                    cur = []
            recs.append(enc(fs + ([(tag, "", cur)] if cur else [])))
        if kind != "link":
            r, text = dict(r, path=P1(tag, code)[0]), 'path = "%s.%s"\n' % (tag, code) + text
        jobs.append(fixed(rng, [recs], dict(r, kind=kind), 'check = "%s"\n%s' % (kind, text)).job())
    c.judge(jobs, kind="repeats")


def near(c, rng):
    """values next to the good ones, with and without case-ignore, which is about the conditions of a path and not about what is judged"""
    jobs = []
    base = [b"ger", "Stra\u00dfe".encode(), "\u00c4b".encode(), "A\u0308b".encode(), b"A10", b"a b", "\ufb01x".encode(), b"7X", b"npi"]
    plain = lambda k, tag, code, vs: enc([("003@", "", [("0", b"p%d" % k)])] + [(tag, "", [(code, v)]) for v in vs])
    for ci in (False, True):
        def put(kind, recs, r, text, extra={}):
            text = 'check = "%s"\n%s%s' % (kind, "case-ignore = true\n" if ci else "", text)
            for a in range(0, len(recs), 500 if kind != "link" else len(recs)):
                b = fixed(rng, [recs[a:a + 500] if kind != "link" else recs], dict(r, kind=kind, ci=ci), text)
                b.extra.update(extra)
                jobs.append(b.job())
        every = [x for v in base for x in big.variants(v)]
        # a value of the list, or not quite
        for lst in (base, base[:4], [b"GER", "STRASSE".encode()]):
            put("allow", [plain(k, "010@", "a", [v]) for k, v in enumerate(every)], {"path": P1("010@", "a")[0], "list": [ints(v) for v in lst]},
                'path = "010@.a"\nlist = { filename = "l.csv", column = "c" }\n', {"l.csv": b"c\n" + b"".join(v + b"\n" for v in lst)})
        # equal, or not quite
        pairs = [(v, x) for v in base for x in big.variants(v)]
        q = [{"k": "path", "p": P1("045E", "e")[0]}]
        put("duplicates", [plain(k, "045E", "e", p) for k, p in enumerate(pairs)], {"q": q, "threshold": 2, "sep": ints(b"|")}, 'query = "045E.e"\n')
        q2 = [{"k": "path", "p": {"t": lit_tag("045E"), "o": NOOCC, "codes": [codes("e"), codes("g")], "has": False, "m": []}}]
        put("duplicates", [enc([("003@", "", [("0", b"p%d" % k)]), ("045E", "", [("e", a), ("g", b)]), ("045E", "", [("e", a), ("g", a)]), ("045E", "", [("e", b), ("g", a)])])
                           for k, (a, b) in enumerate(pairs)], {"q": q2, "threshold": 2, "sep": ints(b"-")}, 'query = "045E{e, g}"\nseparator = "-"\n')
        # the target of a link, or not quite
        put("link", [plain(0, "012A", "b", base)] + [plain(k, "041A", "9", [v]) for k, v in enumerate(every)],
            {"source": P1("041A", "9")[0], "target": P1("012A", "b")[0], "hasfilter": False, "filter": []}, 'source.path = "041A.9"\ntarget.path = "012A.b"\n')
        # codes, numbers and dates
        for kind, tag, code, vs, r, text in (
                ("iso639-2b", "010@", "a", [b"ger", b"zxx"], {}, ""), ("jelc", "045Z", "a", [b"A10", b"Z39", b"Y"], {}, ""),
                ("isni", "028A", "y", [b"000000012281955X", b"0000 0001 2281 955X", b"0000-0001-2281-955X", b"0000000121032683"], {"hasprefix": False, "prefix": []}, ""),
                ("isni", "028A", "y", [b"(Or)000000012281955X", b"(or)0000000121032683", b"(Or)0000000121032684"], {"hasprefix": True, "prefix": ints(b"(Or)")}, 'prefix = "(Or)"\n'),
                ("datetime", "010@", "D", [b"2024-02-29"], {"format": ints(b"%Y-%m-%d"), "offset": 0}, "")):
            put(kind, [plain(k, tag, code, [x]) for k, x in enumerate(x for v in vs for x in big.variants(v))], dict(r, path=P1(tag, code)[0]), 'path = "%s.%s"\n%s' % (tag, code, text))
        # what the offset passes over: bytes, whatever they stand for
        lead = ["", "x", "\u00e4", "\u20ac", "a\u0308", "xy", "\U0001d11e", "20", "2", " ", "-", "\u00e4\u00e4", "abcd"]
        for off in range(0, 6):
            put("datetime", [plain(k, "010@", "D", [l.encode() + d]) for k, (l, d) in enumerate(itertools.product(lead, (b"2024-02-29", b"2023-02-29", b"", b"\xff2024-02-29")))],
                {"path": P1("010@", "D")[0], "format": ints(b"%Y-%m-%d"), "offset": off}, 'path = "010@.D"\noffset = %d\n' % off)
    c.judge(jobs, kind="near")


def siblings(c, rng):
    """rules that say the same but for one thing, in one set and in several: what one looks at has no bearing on the next"""
    jobs = []
    words = WORDS + ["GER", "Ger", "ger", "STRASSE", "straße", "Straße"]
    for _ in range(c.scale(60)):
        k = R(rng, ["filter", "filter", "filter", "allow", "duplicates", "link", "link"])
        f = [enc(check_record(rng, 0.02, FOCUS[k]) + ([("012A", "", [("a", R(rng, words).encode()), (R(rng, "abc"), R(rng, words).encode())])] if k == "filter" else []))
             for _ in range(12)]
        b = B(rng, "check", [f[:7], f[7:]])
        b.o.update(rs=[], txt=False, delim=44, hdr=CHECKHDR, hasre=False, res=[], hastags=False, tags=[], skip=True)
        b.args += ["-s"]
        r, text = rule(rng, "R", b.extra, b.files, k)
        if k == "filter" and rng.random() < 0.7:
            a, t = sub_atom(rng, ["rel", "rel", "has", "in", "re"], words=lambda x: R(x, words))
            if rng.random() < 0.4:
                w = R(rng, ["ger", "GER", "tra", "er"])
                a, t = {"k": "re", "q": "ANY", "cs": codes("a"), "inv": rng.random() < 0.3, "res": [Cat(lit(w))]}, ""
                t = "a %s '%s'" % ("!~" if a["inv"] else "=~", w)
            t = "012A{%s}" % t
            r["e"], text = [{"k": "atom", "a": {"k": "sub", "q": "ANY", "t": lit_tag("012A"), "o": NOOCC, "e": [{"k": "atom", "a": a}]}}], 'check = "filter"\nfilter = %s\n%s' % (ts(t), "invert-match = true\n" if r["inv"] else "")
        lines = [x for x in text.split("\n") if x and not x.startswith(("[rule", "level", "tags", "description", "link =", "case-ignore", "strsim"))]
        turns = [(False, 80), (True, 80), (True, 50), (False, 95), (True, 95), (False, 50)]
        rng.shuffle(turns)
        for n in range(R(rng, [1, 2])):
            rs, body = {"hasscope": False, "scope": [], "fast": False, "rules": []}, ""
            for i, (ci, th) in enumerate(turns[n * 3:n * 3 + 3]):
                rid = "R%d-%d" % (n, i)
                if k == "link":     # nor which targets count for another
                    v = R(rng, [None, b"Tp", b"Tg", b"O", b"T"])
                    r = dict(r, source=P1("041A", "9")[0], target=P1("003@", "0")[0], hasfilter=v is not None, filter=[])
                    lines = ['check = "link"', 'source.path = "041A.9"', 'target.path = "003@.0"']
                    if v:
                        r["filter"] = [{"k": "atom", "a": {"k": "sub", "q": "ANY", "t": lit_tag("002@"), "o": NOOCC,
                                                           "e": [{"k": "atom", "a": {"k": "rel", "q": "ANY", "cs": codes("0"), "op": "=^", "v": ints(v)}}]}}]
                        lines[2] = "target = { path = \"003@.0\", filter = \"002@.0 =^ '%s'\" }" % v.decode()
                rs["rules"].append(dict(r, id=vb(rid), ci=ci, th=th, level=ints(b"error"), hastags=False, tags=[]))
                body += "[rule.%s]\n%s\n%s%s\n" % (rid, "\n".join(lines), "case-ignore = true\n" if ci else "", "" if th == 80 else "strsim-threshold = %.2f\n" % (th / 100))
            b.o["rs"].append(rs)
            b.extra["r%d.toml" % n] = body.encode()
            b.args += ["-R", "r%d.toml" % n]
        jobs.append(b.job())
    c.judge(jobs, kind="siblings")


def check(c):
    rng = c.rng
    c.judge(big.checks(random.Random(c.seed), c), kind="scale")
    c.model("MCRules", "MCRules_deep" if c.thorough else None)
    every_value(c, rng)
    link_orders(c, rng)
    selection(c, rng)
    repeats(c, rng)
    near(c, rng)
    siblings(c, rng)
    jobs = []
    for kind in ("allow", "datetime", "duplicates", "filter", "isni", "iso639-2b", "jelc", "link", "unicode"):
        for _ in range(c.scale(30)):
            files = [check_corpus(rng, R(rng, [3, 8, 14]), focus=kind) for _ in range(R(rng, [1, 1, 2]))]
            jobs.append(one(rng, files, kind).job())
    c.judge(jobs, kind="one-rule")
    jobs = []
    for _ in range(c.scale(260)):
        files = [check_corpus(rng, R(rng, [0, 2, 5, 9]), R(rng, [0, 0, 0.15]), R(rng, sorted(FOCUS))) for _ in range(R(rng, [1, 1, 2]))]
        jobs.append(j_check(rng, files, R(rng, [0, 0.2, 0.4])).job())
    c.judge(jobs, kind="rule-sets")
