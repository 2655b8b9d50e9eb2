"""Input generators: records, filter expressions, paths, formats, queries.

Every generator returns the abstract form the specification reads (plain
JSON) together with its concrete pica syntax.
"""
from pica import *
import contextlib

TAGS = ["002@", "003@", "012A", "012A", "012A", "013D", "028A", "041A", "045Q", "047A", "101@", "203@", "209A", "231B"]
OCCS = ["", "", "", "", "00", "01", "02", "03", "10", "99", "001", "010", "100"]
WORDS = ["a", "b", "A", "B", "ab", "aB", "abc", "Abc", "abcab", "ba", "", "1", "10", "007", "Goethe", "goethe",
         "Göthe", "GÖTHE", "ü", "Ü", "x y", " x ", "a,b", 'q"r', "it's", "a|b", "$", "a$b", "@Die", "Die @Abc", "é", "e\u0301",
         "\u212a", "k", "ß", "äöü", "a\tb", "2021-03-01", "Tp1", "Tp3", "Tn", "aab", "x", "y", "\\", "a/b", "0", "-", "\u20ac", "\U0001f600"]
BADBYTES = [b"\xff", b"a\xc3", b"\xe2\x82", b"b\xffa", b"\xc0\x80", b"\xed\xa0\x80"]
CODES = "abcA019xX"


# canonical form the abstract syntax is in (the concrete text stays as generated)
NORM = [None]


def nrm(s):
    return unicodedata.normalize(NORM[0], s) if NORM[0] else s


def vb(s):
    return ints(nrm(s).encode())


@contextlib.contextmanager
def raw():
    """text the configured normal form is not applied to"""
    nf, NORM[0] = NORM[0], None
    try:
        yield
    finally:
        NORM[0] = nf


def R(rng, seq):
    return seq[rng.randrange(len(seq))]


def value(rng, bad=0.0, long=False):
    if bad and rng.random() < bad:
        return R(rng, BADBYTES)
    if long and rng.random() < 0.05:
        return (R(rng, WORDS) or "z").encode() * rng.randrange(200, 3000)
    n = 1 if rng.random() < 0.8 else 2
    return "".join(R(rng, WORDS) for _ in range(n)).encode()


def ppn(rng):
    return "%s%d%s" % (R(rng, ["", "", "", "0"]), rng.randrange(1, 40), R(rng, ["", "X", "7"]))


def field(rng, bad=0.0, tag=None, occ=None, codes=CODES, maxsub=4, long=False):
    tag = tag or R(rng, TAGS)
    if occ is None:
        occ = R(rng, OCCS)
    subs = [(R(rng, codes), value(rng, bad, long)) for _ in range(rng.randrange(0, maxsub + 1))]
    return (tag, occ, subs)


def record(rng, bad=0.0, nf=None, ppnp=0.9, long=False, codes=CODES, tags=None):
    rec = []
    if rng.random() < 0.5:
        rec.append(("002@", "", [("0", R(rng, WORDS[:12]).encode())]))
    if rng.random() < ppnp:
        rec.append(("003@", "", [("0", ppn(rng).encode())]))
    n = nf if nf is not None else rng.randrange(0, 7)
    for _ in range(n):
        rec.append(field(rng, bad, long=long, codes=codes, tag=R(rng, tags) if tags else None))
    if not rec:
        rec.append(field(rng, bad))
    return rec


BADLINES = [b"\n", b"003@ \x1f0123\n", b"003@ \x1f0\x1e", b"003@\x1f0a\x1e\n", b"303@ \x1f0a\x1e\n", b"00a@ \x1f0a\x1e\n",
            b"003a \x1f0a\x1e\n", b"003@/1 \x1f0a\x1e\n", b"003@/0001 \x1f0a\x1e\n", b"003@/ \x1f0a\x1e\n",
            b"003@/01\x1f0a\x1e\n", b"003@  \x1f0a\x1e\n", b"003@ \x1f?a\x1e\n", b"003@ \x1f\x1e\n", b"003@ x\x1f0a\x1e\n",
            b"003@ \x1f0a\x1e003@\n", b"003@ \x1f0a\x1e\x1e\n", b" 003@ \x1f0a\x1e\n", b"003@ \x1f0a\x1e \n", b"003@ \x1f0a\x1e\r\n",
            b"hello\n", b"\xff\xfe\n", b"003@ \x1f0a\x1f\x1e\n", b"003@/0a \x1f0a\x1e\n", b"0033@ \x1f0a\x1e\n", b"00@ \x1f0a\x1e\n",
            b"003@ \x1f0a\x1e012A \x1fa\x1eb\x1e\n", b"\x1e\n", b"003@ \x1f_a\x1e\n", b"00:@ \x1f0a\x1e\n", b"003[ \x1f0a\x1e\n",
            b"/03@ \x1f0a\x1e\n", b"003@/:1 \x1f0a\x1e\n", b"003@ \x1f{a\x1e\n", b"003@ \x1f@a\x1e\n", b"003@ \x1f`a\x1e\n", b"003@ \x1f[a\x1e\n",
            b"003@ \x1f/a\x1e\n", b"003@ \x1f:a\x1e\n"]


def badline(rng):
    if rng.random() < 0.6:
        return R(rng, BADLINES)
    # damage a good line in one byte
    b = bytearray(enc(record(rng, nf=rng.randrange(1, 3))))
    for _ in range(50):
        c = bytearray(b)
        k = rng.randrange(len(c))
        m = rng.randrange(3)
        if m == 0:
            del c[k]
        elif m == 1:
            c[k] = R(rng, [0x1e, 0x1f, 0x20, 0x30, 0x41, 0x61, 0x2f, 0xff, 0x00, 0x40])
        else:
            c.insert(k, R(rng, [0x1e, 0x1f, 0x20, 0x30, 0x41, 0x61, 0x2f, 0xff, 0x00]))
        if b"\n" not in bytes(c[:-1]) and c[-1:] == b"\n":
            return bytes(c)
    return b"x\n"


def corpus(rng, n, inv=0.0, bad=0.0, **kw):
    return [badline(rng) if rng.random() < inv else enc(record(rng, bad, **kw)) for _ in range(n)]


# ------------------------------------------------------------------ syntax
def qstr(rng, s, quote=None):
    q = quote or R(rng, ["'", '"'])
    out = ""
    for i, ch in enumerate(s):
        if ch in (q, "\\"):
            out += "\\" + ch
        elif ch in "\n\r\t\b\f" and (ch != "\t" or rng.random() < 0.5):
            out += "\\" + {"\n": "n", "\r": "r", "\t": "t", "\b": "b", "\f": "f"}[ch]
        elif ch == "/" and rng.random() < 0.3:
            out += "\\/"
        else:
            out += ch
            # (text is brought to a form before it is read: nothing between a letter and its mark)
            if rng.random() < 0.01 and not s[i + 1:i + 2].isspace() and not unicodedata.combining(s[i + 1:i + 2] or "x"):
                out += "\\  "      # escaped blanks are skipped
    return q + out + q


def sp(rng):
    return " " if rng.random() < 0.8 else R(rng, ["", "  ", "\t"])


CLASS4 = ["012", "0123456789", "0123456789", "ABCDEFGHIJKLMNOPQRSTUVWXYZ@"]


def tagm(rng, lit=0.6, tags=TAGS):
    """tag matcher: (abstract, concrete)"""
    t = R(rng, tags)
    if rng.random() < lit:
        return lit_tag(t), t
    a, c = [], ""
    for k in range(4):
        m = rng.random()
        if m < 0.5:
            a.append({"k": "c", "c": ord(t[k])})
            c += t[k]
        elif m < 0.75:
            a.append({"k": "any"})
            c += "."
        else:
            r, s = [], ""
            al = CLASS4[k]
            for _ in range(rng.randrange(1, 4)):
                if rng.random() < 0.5 and k < 3:
                    i = rng.randrange(len(al) - 1)
                    j = rng.randrange(i + 1, len(al))
                    r.append([ord(al[i]), ord(al[j])])
                    s += al[i] + "-" + al[j]
                elif k == 3 and rng.random() < 0.4:
                    i = rng.randrange(26)
                    if i == 25 or rng.random() < 0.3:
                        i, j = 26, rng.randrange(26)        # @ comes before A
                    else:
                        j = rng.randrange(i + 1, 26)
                    r.append([ord(al[i]), ord(al[j])])
                    s += al[i] + "-" + al[j]
                else:
                    x = t[k] if rng.random() < 0.5 else R(rng, al)
                    r.append([ord(x), ord(x)])
                    s += x
            a.append({"k": "cls", "r": r})
            c += "[" + s + "]"
    return a, c


def occm(rng, simple=False):
    m = rng.random()
    if m < (0.7 if simple else 0.4):
        return {"k": "none"}, R(rng, ["", "", "/00"])
    if m < 0.6:
        return {"k": "any"}, "/*"
    if m < 0.8:
        o = R(rng, [x for x in OCCS if x and x != "00"])
        return {"k": "exact", "a": ints(o.encode())}, "/" + o
    a, b = R(rng, [("01", "03"), ("00", "02"), ("02", "99"), ("001", "100"), ("01", "10"), ("099", "101"), ("03", "10"), ("000", "010")])
    return {"k": "range", "a": ints(a.encode()), "b": ints(b.encode())}, "/%s-%s" % (a, b)


def codem(rng, pool=CODES, star=True):
    m = rng.random()
    if m < 0.6:
        c = R(rng, pool)
        return {"all": False, "r": [[ord(c), ord(c)]]}, c
    if m < 0.7 and star:
        return {"all": True, "r": []}, "*"
    r, s = [], ""
    for _ in range(rng.randrange(1, 4)):
        if rng.random() < 0.3:
            a, b = R(rng, [("a", "c"), ("0", "9"), ("A", "Z"), ("a", "z"), ("0", "1"), ("b", "x"), ("A", "a"), ("9", "A")])
            r.append([ord(a), ord(b)])
            s += a + "-" + b
        else:
            c = R(rng, pool)
            r.append([ord(c), ord(c)])
            s += c
    return {"all": False, "r": r}, "[" + s + "]"


# ------------------------------------------------------------------ regular expressions
RELIT = "abABx1 e"


def regex(rng, depth=2):
    m = rng.random()
    if depth == 0 or m < 0.35:
        k = rng.random()
        if k < 0.6:
            c = R(rng, RELIT if NORM[0] or rng.random() < 0.85 else "üÜkKßÅéΩs")
            return {"k": "c", "c": ord(c)}, c
        if k < 0.75:
            return {"k": "any"}, "."
        neg = rng.random() < 0.4
        r, s = [], ""
        for _ in range(rng.randrange(1, 3)):
            a, b = R(rng, [("a", "c"), ("0", "9"), ("A", "B"), ("x", "x"), ("b", "b"), ("A", "A"), ("i", "l")] + [("à", "ü")] * (NORM[0] is None))
            r.append([ord(a), ord(b)])
            s += a if a == b else a + "-" + b
        return {"k": "cls", "neg": neg, "r": r}, "[" + ("^" if neg else "") + s + "]"
    if m < 0.6:
        xs = [regex(rng, depth - 1) for _ in range(rng.randrange(2, 4))]
        return {"k": "cat", "xs": [x[0] for x in xs]}, "".join(x[1] for x in xs)
    if m < 0.72:
        xs = [regex(rng, depth - 1) for _ in range(2)]
        return {"k": "alt", "xs": [x[0] for x in xs]}, R(rng, ["(?:", "("]) + "|".join(x[1] for x in xs) + ")"
    if m < 0.78:
        x = regex(rng, depth - 1)
        on = rng.random() < 0.6
        return {"k": "ci", "on": on, "x": x[0]}, ("(?i:" if on else "(?-i:") + x[1] + ")"
    x = regex(rng, depth - 1)
    k, s = R(rng, [("star", "*"), ("plus", "+"), ("opt", "?"), ("rep", "{2}"), ("between", "{1,2}"), ("between", "{0,1}")])
    a = {"k": k, "x": x[0]}
    if k == "rep":
        a["n"] = 2
    if k == "between":
        a["n"], a["m"] = int(s[1]), int(s[3])
    if rng.random() < 0.1:
        s += "?"               # the shortest match is a match all the same
    return a, "(?:" + x[1] + ")" + s


def regex_top(rng):
    a, s = regex(rng)
    xs, c = [a], s
    if rng.random() < 0.3:
        xs, c = [{"k": "bol"}] + xs, "^" + c
    if rng.random() < 0.3:
        xs, c = xs + [{"k": "eol"}], c + "$"
    a = {"k": "cat", "xs": xs}
    if rng.random() < 0.15:
        on = rng.random() < 0.7
        a, c = {"k": "ci", "on": on, "x": a}, ("(?i)" if on else "(?-i)") + c
    return a, c


def rx_text(rng, r):
    """a text the expression is likely to match"""
    k = r["k"]
    if k == "c":
        return chr(r["c"])
    if k == "any":
        return R(rng, "aBx1ü")
    if k == "cls":
        if r["neg"]:
            return R(rng, "zZ9_")
        a, b = R(rng, r["r"])
        return chr(rng.randint(a, b))
    if k == "cat":
        return "".join(rx_text(rng, x) for x in r["xs"])
    if k == "alt":
        return rx_text(rng, R(rng, r["xs"]))
    if k == "ci":
        s = rx_text(rng, r["x"])
        return s.swapcase() if rng.random() < 0.5 else s
    if k in ("bol", "eol"):
        return ""
    n = {"opt": (0, 1), "star": (0, 2), "plus": (1, 2)}.get(k) or (r["n"], r.get("m", r["n"]))
    return "".join(rx_text(rng, r["x"]) for _ in range(rng.randint(*n)))


# ------------------------------------------------------------------ records made for an expression
def tag_text(rng, t):
    s = ""
    for k, p in enumerate(t):
        if p["k"] == "c":
            s += chr(p["c"])
        elif p["k"] == "any":
            s += R(rng, ["012", "0123456789", "0123456789", "ABQZ@"][k])
        else:
            a, b = R(rng, p["r"])
            c = chr(rng.randint(a, b))
            s += c if k < 3 or c == "@" or c.isupper() else "@"
    return s


def occ_text(rng, o):
    if o["k"] == "none":
        return R(rng, ["", "", "", "00"])
    if o["k"] == "any":
        return R(rng, OCCS)
    if o["k"] == "exact":
        return bytes(o["a"]).decode()
    a, b = bytes(o["a"]).decode(), bytes(o["b"]).decode()
    return "%0*d" % (len(a), rng.randint(int(a), int(b)))


def parts(x, out):
    """the places of fields an expression speaks of: tag, occurrence, codes, texts"""
    if isinstance(x, dict):
        if "t" in x and "o" in x and isinstance(x["t"], list):
            codes, texts = [], []
            inside(x, codes, texts)
            out.append((x["t"], x["o"], codes, texts))
        else:
            for y in x.values():
                parts(y, out)
    elif isinstance(x, list):
        for y in x:
            parts(y, out)
    return out


def inside(x, codes, texts):
    if isinstance(x, dict):
        if set(x) == {"all", "r"}:
            codes.append(x)
        if isinstance(x.get("v"), list):
            texts.append(("v", x["v"]))
        for v in x.get("vals", []):
            texts.append(("v", v))
        for r in x.get("res", []):
            texts.append(("r", r))
        for y in x.values():
            inside(y, codes, texts)
    elif isinstance(x, list):
        for y in x:
            inside(y, codes, texts)


def code_text(rng, cs, pool=CODES):
    rs = [r for r in cs["r"] if r[0] <= r[1]]
    if not rs:
        return R(rng, pool)
    a, b = R(rng, rs)
    c = chr(rng.randint(a, b))
    return c if c.isalnum() and c.isascii() else R(rng, pool)


def near(rng, text):
    """the text or one that is almost it"""
    kind, v = text
    try:
        s = bytes(v).decode() if kind == "v" else rx_text(rng, v)
    except (UnicodeDecodeError, ValueError):
        return bytes(v)
    s = s.replace("\n", "").replace("\x1e", "").replace("\x1f", "")
    m = rng.random()
    if m < 0.35:
        return s.encode()
    if m < 0.6:
        return s.swapcase().encode() if m < 0.53 else s.title().encode()
    if m < 0.8:
        w = R(rng, ["x", "A", "1", " ", "ü"])
        return (s + w if m < 0.68 else w + s if m < 0.75 else w + s + w).encode()
    if m < 0.9 and s:
        k = rng.randrange(len(s))
        return (s[:k] + R(rng, ["", "y", "Q"]) + s[k + 1:]).encode()
    return R(rng, WORDS).encode()


def focus(rng, asts, n):
    """n lines with records that lie close to the border of what the expressions select"""
    places = parts(asts, [])
    if not places:
        return []
    out = []
    for _ in range(n):
        rec = [("003@", "", [("0", ppn(rng).encode())])] if rng.random() < 0.9 else []
        for t, o, codes, texts in rng.sample(places, min(len(places), rng.randint(1, 4))):
            for _ in range(R(rng, [1, 1, 1, 2, 3])):
                subs = []
                for _ in range(R(rng, [1, 1, 2, 2, 3, 0])):
                    c = code_text(rng, R(rng, codes)) if codes and rng.random() < 0.9 else R(rng, CODES)
                    v = near(rng, R(rng, texts)) if texts and rng.random() < 0.85 else R(rng, WORDS).encode()
                    subs.append((c, v))
                rec.append((tag_text(rng, t), occ_text(rng, o) if rng.random() < 0.9 else R(rng, OCCS), subs))
        if rng.random() < 0.3:
            rng.shuffle(rec)
        out.append(enc(rec or [field(rng)]))
    return out


# ------------------------------------------------------------------ filter atoms
QUANT = ["ANY", "ANY", "ANY", "ALL", "ALL"]
OPS = ["==", "!=", ">=", ">", "<=", "<"]


def quant(rng):
    q = R(rng, QUANT)
    return q, ("ALL " if q == "ALL" else R(rng, ["", "", "ANY "]))


def word(rng):
    return R(rng, WORDS)


def sub_atom(rng, kinds=None, dot=False, words=word, star=True):
    k = R(rng, kinds or ["rel"] * 6 + ["has", "in", "in", "re", "re", "card", "ex"])
    cs, c = codem(rng, star=star)
    q, qs = quant(rng)
    if k == "rel":
        op = R(rng, ["==", "==", "!=", "=^", "!^", "=$", "!$", "=*"])
        v = words(rng)
        return {"k": "rel", "q": q, "cs": cs, "op": op, "v": vb(v)}, \
            "%s%s%s%s%s%s" % (qs, c, sp(rng), op, sp(rng), qstr(rng, v))
    if k == "has":
        vs = [words(rng) or "a" for _ in range(rng.randrange(1, 4))]
        s = qstr(rng, vs[0]) if len(vs) == 1 and rng.random() < 0.7 else \
            "[" + (sp(rng) + "," + sp(rng)).join(qstr(rng, v) for v in vs) + "]"
        return {"k": "has", "q": q, "cs": cs, "vals": [vb(v) for v in vs]}, "%s%s =? %s" % (qs, c, s)
    if k == "in":
        inv = rng.random() < 0.4
        if rng.random() < 0.2:
            s0 = R(rng, ["ab", "aB1", "xyz", "öü1"])
            vs, s = list(nrm(s0)), qstr(rng, s0, "'")
        else:
            vs = [words(rng) for _ in range(rng.randrange(1, 5))]
            s = "[" + (sp(rng) + "," + sp(rng)).join(qstr(rng, v) for v in vs) + "]"
        return {"k": "in", "q": q, "cs": cs, "inv": inv, "vals": [vb(v) for v in vs]}, \
            "%s%s %sin %s" % (qs, c, "not " if inv else "", s)
    if k == "re":
        inv = rng.random() < 0.4
        n = 1 if rng.random() < 0.6 else rng.randrange(1, 4)
        rs = [regex_top(rng) for _ in range(n)]
        s = qstr(rng, rs[0][1]) if n == 1 and rng.random() < 0.7 else "[" + ", ".join(qstr(rng, r[1]) for r in rs) + "]"
        return {"k": "re", "q": q, "cs": cs, "inv": inv, "res": [r[0] for r in rs]}, \
            "%s%s %s %s" % (qs, c, "!~" if inv else "=~", s)
    if k == "card":
        op, n = R(rng, OPS), rng.randrange(0, 4)
        return {"k": "card", "cs": cs, "op": op, "n": n}, "#%s%s %s %d" % (" " if rng.random() < .2 else "", c, op, n)
    return {"k": "ex", "cs": cs}, c + "?"


T = lambda k: {"k": k}
CONN = [("and", "&&"), ("or", "||"), ("xor", "^"), ("xor", "XOR")]


def expr(rng, atom, n, notp=0.25, depth=2):
    """boolean expression over atoms: (tokens, concrete). atom(neg) -> (token list, text)"""
    toks, s = [], ""
    for k in range(n):
        if k:
            op, txt = R(rng, CONN)
            toks.append(T(op))
            s += " " + txt + " "
        a, c = operand(rng, atom, notp, depth)
        toks += a
        s += c
    return toks, s


def operand(rng, atom, notp, depth):
    m = rng.random()
    if m < notp:
        a, c = operand(rng, lambda rng, neg=True: atom(rng, True), 0.15, depth) if rng.random() < 0.6 else group(rng, atom, notp, depth)
        if a[0]["k"] == "atom" and not a[0].get("negok", True):
            return a, c
        return [T("not")] + a, "!" + (" " if rng.random() < 0.2 else "") + c
    if m < notp + 0.2 and depth > 0:
        return group(rng, atom, notp, depth)
    return atom(rng, False)


def group(rng, atom, notp, depth):
    a, c = expr(rng, atom, rng.randrange(1, 4), notp, max(depth - 1, 0))
    return [T("(")] + a + [T(")")], "(" + c + ")"


def sub_operand(rng, neg=False):
    a, c = sub_atom(rng, ["ex"] if neg else None)
    return [{"k": "atom", "a": a}], c


def sub_expr(rng, n=None):
    n = n if n is not None else R(rng, [1, 1, 2, 2, 3])
    if n == 1 and rng.random() < 0.6:
        return sub_operand(rng)
    return expr(rng, sub_operand, n, depth=1)


def field_atom(rng, neg=False, lit=0.6, subn=None):
    """neg: the atom stands behind '!', where the grammar admits fewer forms"""
    t, ts = tagm(rng, lit)
    o, os_ = occm(rng)
    q, qs = quant(rng)
    m = rng.random()
    atom = lambda a: [{"k": "atom", "a": a}]
    if m < 0.15:
        return atom({"k": "fex", "t": t, "o": o}), ts + os_ + "?"
    if m < 0.3 and not neg:
        has = rng.random() < 0.6
        e, es = sub_expr(rng, subn) if has else ([], "")
        op, n = R(rng, OPS), rng.randrange(0, 4)
        return atom({"k": "fcard", "t": t, "o": o, "has": has, "e": e, "op": op, "n": n}), \
            "#%s%s%s %s %d" % (ts, os_, "{%s}" % es if has else "", op, n)
    if m < 0.6 and not neg:
        a, c = sub_atom(rng)
        return atom({"k": "sub", "q": q, "t": t, "o": o, "e": atom(a)}), qs + ts + os_ + R(rng, "...$") + c
    if m < 0.4 and neg:
        a, c = sub_atom(rng, ["ex"])
        return atom({"k": "sub", "q": "ANY", "t": t, "o": o, "e": atom(a)}), ts + os_ + "." + c
    e, es = sub_expr(rng, subn)
    return atom({"k": "sub", "q": q, "t": t, "o": o, "e": e}), \
        "%s%s%s{%s%s%s}" % (qs, ts, os_, sp(rng), es, sp(rng))


def field_expr(rng, n=None, depth=2, lit=0.6):
    n = n if n is not None else R(rng, [1, 1, 1, 2, 2, 3, 4])
    if n == 1:
        return field_atom(rng, lit=lit)
    return expr(rng, lambda r, neg=False: field_atom(r, neg, lit), n, depth=depth)


# ------------------------------------------------------------------ paths, formats, queries
def path(rng, lit=0.8, matcher=0.3, tags=TAGS, pool=CODES):
    t, ts = tagm(rng, lit, tags)
    o, os_ = occm(rng)
    if rng.random() < 0.4:
        cs, c = codem(rng, pool)
        return {"t": t, "o": o, "codes": [cs], "has": False, "m": []}, ts + os_ + "." + c
    n = R(rng, [1, 1, 2, 2, 3])
    cc = [codem(rng, pool) for _ in range(n)]
    body = (sp(rng) + "," + sp(rng)).join(c[1] for c in cc)
    if n > 1 and rng.random() < 0.4:
        body = "(" + body + ")"
    has = rng.random() < matcher
    m, ms = sub_expr(rng) if has else ([], "")
    return {"t": t, "o": o, "codes": [c[0] for c in cc], "has": has, "m": m}, \
        "%s%s{%s%s}" % (ts, os_, body, " | " + ms if has else "")


def modifier(rng, p=0.3):
    if rng.random() > p:
        return [], ""
    ms = [m for m in "lutwo" if rng.random() < 0.35]
    if not ms:
        ms = [R(rng, "lutwo")]
    rng.shuffle(ms)
    return ms, "?" + "".join(ms)


FMTSTR = ["", ", ", " / ", "a", "(", ")", "ü", "x", "|", "'", "\""]


def fmt_value(rng, pool="abcA019x"):
    mod, ms = modifier(rng)
    cs, c = codem(rng, pool)
    pre = suf = ""
    hp, hs = rng.random() < 0.4, rng.random() < 0.4
    if hp:
        pre = R(rng, FMTSTR)
    if hs:
        suf = R(rng, FMTSTR)
    m = rng.random()
    n, ns = (1, "") if m < 0.5 else (-1, "..") if m < 0.8 else (lambda k: (k, "..%d" % k))(rng.randrange(0, 4))
    s = (ms + " " if ms else "") + (qstr(rng, pre) + " " if hp else "") + c + ns + (" " + qstr(rng, suf) if hs else "")
    return {"k": "val", "cs": cs, "pre": vb(pre), "suf": vb(suf), "n": n, "mod": mod}, s


def fmt_group(rng, depth):
    mod, ms = modifier(rng, 0.5)
    if rng.random() < 0.4:
        x, s = fmt_value(rng)
    else:
        x, s = fmt_list(rng, depth - 1)
    if not mod and s.startswith("?"):      # would be read as the modifier of the group
        mod, ms = ["l"], "?l"
    return {"k": "grp", "mod": mod, "x": x}, "(" + ms + (" " if ms else "") + s + ")"


def fmt_item(rng, depth):
    return fmt_group(rng, depth) if depth > 0 and rng.random() < 0.35 else fmt_value(rng)


def fmt_then(rng, depth):
    xs = [fmt_item(rng, depth) for _ in range(rng.randrange(2, 4))]
    return {"k": "then", "xs": [x[0] for x in xs]}, " <$> ".join(x[1] for x in xs)


def fmt_list(rng, depth):
    if rng.random() < 0.5:
        return fmt_then(rng, depth)
    xs = [fmt_then(rng, depth) if rng.random() < 0.3 else fmt_item(rng, depth) for _ in range(rng.randrange(2, 4))]
    return {"k": "cons", "xs": [x[0] for x in xs]}, " <*> ".join(x[1] for x in xs)


def fmt_body(rng, depth=2):
    """a fragment that cannot be mistaken for a path"""
    m = rng.random()
    if m < 0.7:
        return fmt_list(rng, depth)
    if m < 0.85:
        x, s = fmt_group(rng, depth)
        if x["mod"] or x["x"]["k"] != "val" or any(c in s for c in "?.'\""):
            return x, s
    for _ in range(50):
        x, s = fmt_value(rng)
        if x["mod"] or ".." in s or "'" in s or '"' in s:
            return x, s
    return fmt_list(rng, depth)


def fmt(rng, lit=0.8, matcher=0.3, tags=TAGS):
    t, ts = tagm(rng, lit, tags)
    o, os_ = occm(rng)
    x, s = fmt_body(rng)
    has = rng.random() < matcher
    m, ms = sub_expr(rng) if has else ([], "")
    return {"t": t, "o": o, "has": has, "m": m, "x": x}, "%s%s{%s%s}" % (ts, os_, s, " | " + ms if has else "")


def query(rng, n=None, fmts=True, tags=TAGS, pool=CODES, matcher=0.3):
    n = n if n is not None else R(rng, [1, 1, 2, 2, 3])
    xs, ss = [], []
    for _ in range(n):
        m = rng.random()
        if m < 0.75 or (m < 0.9 and not fmts):
            p, s = path(rng, tags=tags, pool=pool, matcher=matcher)
            xs.append({"k": "path", "p": p})
        elif m < 0.9:
            f, s = fmt(rng, tags=tags, matcher=matcher)
            xs.append({"k": "fmt", "f": f})
        else:
            v = word(rng)
            s = qstr(rng, v)
            xs.append({"k": "lit", "v": vb(v)})
        ss.append(s)
    return xs, (sp(rng) + "," + sp(rng)).join(ss)
