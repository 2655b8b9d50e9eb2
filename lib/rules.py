"""Rule sets and records that are worth checking."""
from mk import *

LANG = ["ger", "eng", "fre", "deu", "zxx", "mul", "und", "qaa", "GER", "ge", "gerx", "cze", "ces", "", "ger ", "xxx", "zza", "aar"]
JEL = ["A00", "A0", "A10", "P0", "P00", "Z39", "Z3", "Q37", "Q36", "A", "a00", "A000", "", "Y92", "Z00", "X10", "P15", "P16", "B59", "B58"]
DATES = ["2024-02-29", "2023-02-29", "1900-02-29", "2000-02-29", "2021-04-31", "2021-12-31", "2021-13-01", "2021-00-10", "2021-1-5",
         "2021-01-00", "2021-01-32", " 2021-01-05", "2021-01-05 ", "2021-01-05x", "+2021-01-05", "-2021-01-05", "21-01-05", "2021/01/05",
         "20210105", "", "2021", "2021-01", "abcd-ef-gh", "0000-02-29", "9999-12-31", "12021-01-01", "2021 -01-05", "2021- 1- 5", "\u0661",
         "2021-06-30", "2021-06-31", "2100-02-29", "2400-02-29", "--2021-01-05", "2021-01-5", "0-1-1"]
TIMES = ["2021-03-01 12:30:59", "2021-03-01 24:00:00", "2021-03-01T00:00:60", "2021-03-01T23:59:61", "2021-03-01 1:2:3", "2021-03-0112:30:00",
         "2021-03-01  12:30", "2021-03-01 12:60", "2021-03-01T12:30", "2021-03-01 23:59"]
SHORTD = ["05.03.21", "31.02.69", "29.02.68", "29.02.00", "1.1.99", "32.01.20", "01.13.20", "01.01.2021", "31.12.68", "5.3.2021", "05.03.21%"]
FMTS = ["%Y-%m-%d", "%Y-%m-%d", "%F", "%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M", "%FT%T", "%d.%m.%y", "%d.%m.%Y", "%Y%m%d", "%D", "%Y", "%Y-%m", "%H:%M %F",
        "%d.%m.%y%%", "%F %R", "%m/%d/%Y", "%Y-%m-%e", "%F:%M", "%F %S"]


def isni(rng):
    d = [rng.randrange(10) for _ in range(15)]
    m = rng.random()
    if m < 0.12:
        d[rng.randrange(15)] = R(rng, [10, 17, 40, 50, 25])
    t = 0
    for x in d:
        t = (t + x) * 2
    r = (12 - t % 11) % 11
    s = "".join(chr(48 + x) for x in d) + ("X" if r == 10 else chr(48 + r))
    if m > 0.55:
        k = rng.random()
        p = rng.randrange(16)
        if k < 0.35:
            s = s[:p] + chr(48 + rng.randrange(10)) + s[p + 1:]
        elif k < 0.5:
            s = s[:p] + s[p + 1:]
        elif k < 0.6:
            s = s[:p] + "0" + s[p:]
        elif k < 0.75 and p < 15:
            s = s[:p] + s[p + 1] + s[p] + s[p + 2:]
        elif k < 0.85:
            s = s[:15] + "x"
        else:
            s = s[:15] + "X"
    k = rng.random()
    if k < 0.3:
        s = " ".join(s[i:i + 4] for i in range(0, len(s), 4))
    elif k < 0.5:
        s = "-".join(s[i:i + 4] for i in range(0, len(s), 4))
    return R(rng, ["", "", "(orcid)", "(isni) ", "(orcid"]) + s


def check_record(rng, bad=0.03, focus=None):
    rec = []
    if rng.random() < 0.7:
        rec.append(("002@", "", [("0", R(rng, [b"Tp1", b"Tg1", b"Tpx", b"Oaa", b"Tu"]))]))
    if rng.random() < 0.92:
        rec.append(("003@", "", [("0", R(rng, ["1", "2", "3", "4", "5", "6", "7X", "a,b", "9"]).encode())]))
    gens = {
        "010@": lambda: [("a", R(rng, LANG)), ("D", R(rng, DATES + TIMES + SHORTD))],
        "028A": lambda: [("y", isni(rng))],
        "045Z": lambda: [("a", R(rng, JEL)), ("b", R(rng, ["jelc", "x"]))],
        "041A": lambda: [("9", R(rng, ["1", "2", "3", "4", "5", "6", "8", "7X", "", "10"])), ("4", R(rng, ["ortw", "orts"]))],
        "045E": lambda: [("e", R(rng, ["100", "200", "x", ""])), ("H", R(rng, ["npi", "a"])), ("g", R(rng, ["a|b", "b", "a", ""]))],
        "012A": lambda: [(R(rng, "abc"), R(rng, WORDS))],
    }
    for _ in range(rng.randrange(0, 7)):
        tag = R(rng, focus) if focus and rng.random() < 0.7 else R(rng, sorted(gens))
        occ = R(rng, ["", "", "", "", "01", "02"])
        subs = []
        for _ in range(R(rng, [0, 1, 1, 1, 2])):
            for c, v in gens[tag]():
                if rng.random() < 0.85:
                    subs.append((c, v.encode()))
        if rng.random() < bad:
            subs.append(("a", R(rng, BADBYTES)))
        rec.append((tag, occ, subs))
    if not rec:
        rec.append(("012A", "", [("a", b"x")]))
    return rec


FOCUS = {"allow": ["010@", "045E"], "datetime": ["010@"], "duplicates": ["045E", "045E", "012A"], "isni": ["028A"], "iso639-2b": ["010@"],
         "jelc": ["045Z"], "link": ["041A"], "filter": None, "unicode": ["012A"]}


def check_corpus(rng, n, inv=0.0, focus=None):
    return [badline(rng) if rng.random() < inv else enc(check_record(rng, 0.03, FOCUS.get(focus))) for _ in range(n)]


ts = lambda s: json.dumps(s, ensure_ascii=False)


def P1(tag, code, occ=False):
    return ({"t": lit_tag(tag), "o": {"k": "any"} if occ else NOOCC, "codes": [codes(code)], "has": False, "m": []},
            tag + ("/*" if occ else "") + "." + code)


def pathfor(rng, tag, code, **kw):
    if rng.random() < 0.7:
        return P1(tag, code, rng.random() < 0.3)
    return path(rng, tags=[tag, tag, "012A"], pool=code * 3 + "a", **kw)


VALS = WORDS + LANG + JEL[:8] + DATES[:6]


def rule(rng, rid, extra, files, kind=None):
    k = kind or R(rng, ["allow", "datetime", "datetime", "duplicates", "filter", "isni", "iso639-2b", "jelc", "link", "link", "unicode"])
    r = {"id": vb(rid), "kind": k, "ci": False, "th": 80, "hastags": False, "tags": [], "level": ints(b"error")}
    L = ["[rule.%s]" % (rid if re.fullmatch(r"[A-Za-z0-9_-]+", rid) else ts(rid)), "check = " + ts(k)]
    if rng.random() < 0.5:
        lv = R(rng, ["error", "warning", "info"])
        r["level"] = ints(lv.encode())
        L.append("level = " + ts(lv))
    if rng.random() < 0.5:
        tags = [R(rng, ["a", "b", "IE", "FE", "a b", ""]) for _ in range(rng.randrange(0, 3))]
        r["hastags"], r["tags"] = True, [vb(t) for t in tags]
        L.append("tags = " + ts(tags))
    if rng.random() < 0.2:
        L.append("description = " + ts("Regel <%s>" % rid))
    if rng.random() < 0.2:
        L.append("link = " + ts("https://example.org/%d" % rng.randrange(9)))
    if k != "unicode":
        if rng.random() < 0.3:
            r["ci"] = rng.random() < 0.8
            L.append("case-ignore = " + ("true" if r["ci"] else "false"))
        if rng.random() < 0.3:
            r["th"] = R(rng, [0, 50, 75, 90])
            L.append("strsim-threshold = %.2f" % (r["th"] / 100))
    put = lambda key, p: (r.__setitem__(key, p[0]), p[1])[1]
    if k == "allow":
        L.append("path = " + ts(put("path", pathfor(rng, R(rng, ["010@", "045E"]), R(rng, "aegH")))))
        vs = [R(rng, VALS) for _ in range(rng.randrange(1, 12))] + [R(rng, ["ger", "100", "eng", "npi", "x"]) for _ in range(2)]
        vs = [v for v in vs if v and not set(v) & set('\t"\r') and "," not in v and v == v.strip()]
        name = "l%d.%s" % (len(extra), R(rng, ["csv", "tsv", "csv"]))
        sep = "\t" if name.endswith("tsv") else ","
        col = R(rng, ["hsg", "v w", "ppn"])
        data = sep.join(["z", col]) + "\n" + "".join("q%s%s\n" % (sep, v) for v in vs)
        extra[name] = data.encode()
        r["list"] = [ints(v.encode()) for v in vs]
        L.append("list = { filename = %s, column = %s }" % (ts(name), ts(col)))
    elif k == "datetime":
        L.append("path = " + ts(put("path", pathfor(rng, "010@", "D"))))
        f = R(rng, FMTS)
        if f != "%Y-%m-%d" or rng.random() < 0.3:
            L.append("format = " + ts(f))
        r["format"], r["offset"] = vb(f), 0
        if rng.random() < 0.25:
            r["offset"] = R(rng, [1, 2, 3, 10, 11])
            L.append("offset = %d" % r["offset"])
    elif k == "duplicates":
        q, s = query(rng, R(rng, [1, 1, 2]), tags=["045E", "045E", "012A"], pool="eHgab") if rng.random() < 0.4 else \
            R(rng, [([{"k": "path", "p": P1("045E", "e")[0]}], "045E.e"),
                    ([{"k": "path", "p": {"t": lit_tag("045E"), "o": NOOCC, "codes": [codes("e"), codes("g")], "has": False, "m": []}}], "045E{e, g}"),
                    ([{"k": "path", "p": {"t": lit_tag("045E"), "o": NOOCC, "codes": [codes("g"), codes("H")], "has": True,
                                         "m": [{"k": "atom", "a": {"k": "ex", "cs": codes("e")}}]}}], "045E{(g, H) | e?}")])
        r["q"], r["threshold"], r["sep"] = q, 2, ints(b"|")
        L.append("query = " + ts(s))
        if rng.random() < 0.35:
            r["threshold"] = R(rng, [1, 2, 3, 4])
            L.append("threshold = %d" % r["threshold"])
        if rng.random() < 0.3:
            sep = R(rng, ["", "-", ", ", "ü", "; "])
            r["sep"] = vb(sep)
            L.append("separator = " + ts(sep))
    elif k == "filter":
        e, s = field_expr(rng, R(rng, [1, 1, 2]), 1)
        if rng.random() < 0.4:
            v = R(rng, [b"Tp1", b"T", b"tp"])
            e = [{"k": "atom", "a": {"k": "sub", "q": "ANY", "t": lit_tag("002@"), "o": NOOCC,
                                     "e": [{"k": "atom", "a": {"k": "rel", "q": "ANY", "cs": codes("0"), "op": "=^", "v": ints(v)}}]}}]
            s = "002@.0 =^ '%s'" % v.decode()
        r["e"], r["inv"] = e, False
        L.append("filter = " + ts(s))
        if rng.random() < 0.3:
            r["inv"] = rng.random() < 0.8
            L.append("invert-match = " + ("true" if r["inv"] else "false"))
    elif k == "isni":
        L.append("path = " + ts(put("path", pathfor(rng, "028A", "y"))))
        r["hasprefix"], r["prefix"] = False, []
        if rng.random() < 0.4:
            p = R(rng, ["(orcid)", "(isni) ", "(", "0"])
            r["hasprefix"], r["prefix"] = True, vb(p)
            L.append("prefix = " + ts(p))
    elif k == "iso639-2b":
        L.append("path = " + ts(put("path", pathfor(rng, "010@", "a"))))
    elif k == "jelc":
        L.append("path = " + ts(put("path", pathfor(rng, "045Z", "a"))))
    elif k == "link":
        L.append("source.path = " + ts(put("source", pathfor(rng, "041A", "9"))))
        tgt = ts(put("target", P1("003@", "0") if rng.random() < 0.8 else pathfor(rng, "041A", "4")))
        r["hasfilter"], r["filter"] = False, []
        if rng.random() < 0.4:
            v = R(rng, [b"Tp", b"Tg", b"O"])
            r["hasfilter"] = True
            r["filter"] = [{"k": "atom", "a": {"k": "sub", "q": "ANY", "t": lit_tag("002@"), "o": NOOCC,
                                               "e": [{"k": "atom", "a": {"k": "rel", "q": "ANY", "cs": codes("0"), "op": "=^", "v": ints(v)}}]}}]
            L.append("target = { path = %s, filter = %s }" % (tgt, ts("002@.0 =^ '%s'" % v.decode())))
        else:
            L.append("target.path = " + tgt)
    elif k == "unicode":
        r["notnf"] = []
        if rng.random() < 0.7:
            nf = R(rng, sorted(NFS))
            L.append("normalization = " + ts(nf))
            r["notnf"] = [x["a"] for x in rowcells_nf(NFS[nf], lossy_values(files))]
    return r, "\n".join(L) + "\n"


IDS = ["R1", "R2", "R10", "abc", "A-b", "x_y", "R 3", "a,b", "Rx", "LINK1", "LINK2", "ü", "q\"r", "1"]


def ruleset(rng, extra, files, n=None, kinds=None, fast=None):
    rs = {"hasscope": False, "scope": [], "fast": rng.random() < 0.3 if fast is None else fast, "rules": []}
    head = ""
    if rng.random() < 0.4:
        if rng.random() < 0.5:
            e, s = field_expr(rng, R(rng, [1, 1, 2]), 1)
        else:
            tag = R(rng, ["041A", "010@", "028A", "045E"])
            e, s = [{"k": "atom", "a": {"k": "fex", "t": lit_tag(tag), "o": NOOCC}}], tag + "?"
        rs["hasscope"], rs["scope"] = True, e
        head += "scope = %s\n" % ts(s)
    if rs["fast"] or rng.random() < 0.2:
        head += "termination = %s\n" % ts("fast" if rs["fast"] else "default")
    body = ""
    ids = rng.sample(IDS, n if n is not None else rng.randrange(0, 5))
    if rs["fast"] and kinds is None:      # whether a link rule gets its turn depends on the order the rules are kept in
        kinds = R(rng, [["link"], ["allow", "datetime", "duplicates", "filter", "isni", "iso639-2b", "jelc", "unicode"]])
        if kinds == ["link"]:
            ids = ids[:1]
    for rid in ids:
        r, s = rule(rng, rid, extra, files, R(rng, kinds) if kinds else None)
        rs["rules"].append(r)
        body += "\n" + s
    return rs, head + body


CHECKHDR = [ints(x) for x in (b"ppn", b"rule", b"level", b"message")]


def j_check(rng, files, p=0.3, sets=None, **kw):
    b = B(rng, "check", files).common(p)
    b.o.update(rs=[], txt=False, delim=44, hdr=CHECKHDR, hasre=False, res=[], hastags=False, tags=[])
    for k in range(sets or R(rng, [1, 1, 1, 2, 3])):
        rs, text = ruleset(rng, b.extra, b.files, **kw)
        b.o["rs"].append(rs)
        name = "rules%d.toml" % k
        b.extra[name] = text.encode()
        b.args += [R(rng, ["-R", "--rule-set"]), name]
    if rng.random() < 0.2:
        b.o["hasre"] = True
        for _ in range(R(rng, [1, 1, 2])):
            a, s = R(rng, [lambda: regex_top(rng), lambda: (Cat(lit("R")), "R"), lambda: (Cat([{"k": "bol"}] + lit("R1") + [{"k": "eol"}]), "^R1$"),
                           lambda: (Cat(lit("1")), "1"), lambda: (Cat([{"k": "any"}]), ".")])()
            b.o["res"].append(a)
            b.args += [R(rng, ["-r", "--rule"]), s]
    if rng.random() < 0.2:
        t = R(rng, ["a", "b,a", " IE , FE ", "a b", "x", "", "FE,,x", "a, b", "IE"])
        b.o["hastags"], b.o["tags"] = True, ints(t.encode())
        b.args += [R(rng, ["-t", "--tags"]) + "=" + t] if False else ["--tags=" + t]
    # an empty rule file has no findings
    m = rng.random()
    if m < 0.25:
        name = R(rng, ["o.txt", "o.tsv", "o.csv", "o.dat", "txt"])
        b.kw["out"] = name
        b.o["txt"] = name.endswith(".txt")
        b.o["delim"] = 9 if name.endswith(".tsv") else 44
    return b.io(0.15)


lit = lambda s: [{"k": "c", "c": ord(c)} for c in s]
Cat = lambda xs: {"k": "cat", "xs": xs}
