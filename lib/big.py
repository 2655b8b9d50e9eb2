"""Jobs at a scale the other generators do not reach: many records, files, fields,
subfields, values, rows, copies; long values; the one odd line late in the input."""
import unicodedata

from rules import *

CS = lambda s: {"all": s == "*", "r": [] if s == "*" else [[ord(x)] * 2 for x in s]}
PA = lambda tag, *cs, occ=NOOCC, m=None: {"t": lit_tag(tag), "o": occ, "codes": [CS(x) for x in cs], "has": bool(m), "m": m or []}
QP = lambda tag, *cs, **kw: {"k": "path", "p": PA(tag, *cs, **kw)}
ANYO = {"k": "any"}
ATOM = lambda a: [{"k": "atom", "a": a}]
SUB = lambda tag, a, q="ANY", occ=NOOCC: ATOM({"k": "sub", "q": q, "t": lit_tag(tag), "o": occ, "e": ATOM(a)})


def crowd(rng, n, d=400, bad=(), ids=None):
    """n small records; 012A.a ranges over d values"""
    out = []
    for k in range(n):
        if k in bad:
            out.append(b"bad %d\n" % k)
            continue
        out.append(enc([("003@", "", [("0", b"%d" % (k % ids if ids else k))]),
                        ("012A", "", [("a", b"v%d" % (k * k * 7 % d)), ("b", b"w%d" % (k % 3))])]))
    return out


def variants(v):
    """byte strings that some notion of equality takes for v"""
    t = v.decode()
    xs = [v, b" " + v, v + b" ", b"\t" + v, v + b"\xc2\xa0", v.upper(), v.lower(), t.swapcase().encode(), t.title().encode(), v + v, v[:-1], v[1:],
          v + b"x", b"x" + v, v[::-1], v + b"\0", v + b"\xff", b"\xff" + v, v.replace(b" ", b""), v + b",", v + b"|", v + b";", v + b".", b"@" + v,
          b'"' + v + b'"', b"0" + v, v.replace(b"-", b""), v + "\u0308".encode(), "\u200d".encode() + v, "\ufeff".encode() + v]
    xs += [unicodedata.normalize(f, t).encode() for f in ("NFC", "NFD", "NFKC", "NFKD")] + [t.casefold().encode()]
    return list(dict.fromkeys(xs))


WORDS = [b"ger", "Stra\u00dfe".encode(), "\u00c4b".encode(), "A\u0308b".encode(), b"A10", b"a b", "\ufb01x".encode(), b"7X", b"01", "\u03a3\u03c2".encode(), b"x-y"]


def twins(rng, size, again=True):
    """long values that differ in one byte, or in their last, and some of them twice; of no size, short values next to each other"""
    if not size:
        vs = list(dict.fromkeys(x for w in rng.sample(WORDS, 4) for x in variants(w)))
        vs += rng.sample(vs, 8) if again else []
        rng.shuffle(vs)
        return vs
    base = (b"abcdefghijklmnopqrstuvwxyz0123456789" * (size // 36 + 1))[:size]
    vs = [base, base[:-1] + b"!", base[:-1], base + b"!", b"!" + base[1:], base[:size // 2] + b"!" + base[size // 2 + 1:]]
    vs += [base[:p] + b"#" + base[p + 1:] for p in rng.sample(range(size), 3)]
    if again:
        vs += rng.sample(vs, 4)
    rng.shuffle(vs)
    return vs


def twinrecs(rng, size, tag="012A", code="a", ids=None, again=True):
    return [enc(([] if tag == "003@" else [("003@", "", [("0", b"1" if ids == 1 else b"%d" % k)])]) + [(tag, "", [(code, v)])])
            for k, v in enumerate(twins(rng, size, again))]


def plainly(vs):
    """of these values those that can stand in a filter or a list as they are"""
    out = []
    for v in vs:
        try:
            t = v.decode()
        except UnicodeDecodeError:
            continue
        if t.strip() == t and t.isprintable() and not set(t) & set("'\",;|\\\ufeff\u00a0"):
            out.append(v)
    return out


def skipping(b):
    if not b.o["skip"]:
        b.o["skip"] = True
        b.args.append("-s")
    return b


def limited(b, n):
    for k, a in enumerate(b.args):
        if a in ("-l", "--limit"):
            del b.args[k:k + 2]
            break
    b.o["limit"] = n
    b.args += ["-l", str(n)]
    return b


def fat(rng, k, fields=0, subs=0, size=0, tag="012A", bad=False):
    """one record with many fields, many subfields in one field, or a long value"""
    rec = [("003@", "", [("0", b"%d" % k)])]
    rec += [(tag, "", [("a", b"f%d" % i)]) for i in range(fields)]
    if subs:
        rec.append((tag, "", [("aaaaaab"[i % 7], b"s%d" % i) for i in range(subs)]))
    if size:
        v = (b"0123456789abcdef" * (size // 16 + 1))[:size]
        rec.append((tag, "", [("a", v), ("b", b"x")]))
    rec.append(("013D", "", [("a", b"\xff" if bad else b"end")]))
    return enc(rec)


SIZES = (127, 128, 255, 256, 257, 300)


def fats(rng, extra=()):
    return [fat(rng, k, **kw) for k, kw in enumerate(
        [dict(fields=n) for n in SIZES] + [dict(subs=n) for n in SIZES] +
        [dict(size=n) for n in (127, 128, 255, 256, 1023, 1024, 9999, 65535, 65536, 70001) + tuple(extra)])]


def halves(lines, *cuts):
    out, a = [], 0
    for x in cuts + (len(lines),):
        out.append(lines[a:x])
        a = x
    return out


def records(rng, c):
    """C01"""
    jobs = []
    f = fats(rng)
    for g in (lambda: j_always(rng, [f]), lambda: j_convert(rng, [f], "plus"), lambda: j_concat(rng, [f], False)):
        jobs.append(g().job())
    b = j_always(rng, [f])
    b.o["keep"] = [{"t": ANYTAG, "o": {"k": "any"}}]
    b.args += ["-k", "..../*"]
    jobs.append(b.job())
    b = B(rng, "explode", [f])
    b.o.update(level="main", skip=True)
    b.args.append("-s")
    b.post = ["main"]
    jobs.append(b.job())
    # the fault is the last thing in a long record
    g = [l[:-2] + b"\n" for l in f[:8]] + [l[:-3] + b"\x1f\x1e\n" for l in f[8:]]
    jobs.append(j_always(rng, [f[:3] + g + f[3:6]]).job())
    jobs.append(j_invalid(rng, [f[:3] + g + f[3:6]]).job())
    # many records with one keep list: fields are rebuilt a thousand times
    f = crowd(rng, 1100)
    b = j_always(rng, [f])
    b.o["keep"] = [{"t": lit_tag("012A"), "o": NOOCC}]
    b.args += ["-k", "012A"]
    jobs.append(b.job())
    jobs.append(j_convert(rng, [f], "plus").job())
    return jobs


def streams(rng, c):
    """C02"""
    jobs = []
    for skip in (True, False):
        for at in (256, 1000, 1299):
            f = crowd(rng, 1300, bad=(at,))
            jobs.append(R(rng, [lambda: j_always(rng, [f], skip=skip), lambda: j_always(rng, halves(f, 500), skip=skip),
                                lambda: j_always(rng, halves(f, 1000, 1200), skip=skip)])().job())
    many = tuple(range(3, 1300, 4))
    f = crowd(rng, 1300, bad=many)
    jobs.append(j_invalid(rng, halves(f, 700)).job())
    jobs.append(skipping(j_count(rng, [f], 0)).job())
    # very many files, of one record each or none
    for n in (70, 300):
        files = [crowd(rng, 1, ids=1) if k % 5 else [] for k in range(n)]
        files[n - 3] = [b"bad\n"]
        for skip in (True, False):
            b = j_always(rng, files, skip=skip)
            if skip:
                b.kw["gz"] = [k for k in range(n) if k % 3 == 0]
            jobs.append(b.job())
        jobs.append(j_invalid(rng, files).job())
    # a compressed file of many members
    f = crowd(rng, 600)
    b = j_always(rng, [f])
    b.kw["gz"], b.kw["members"] = [0], 200
    jobs.append(b.job())
    return jobs


def fjob(rng, files, toks, s, **kw):
    b = B(rng, "filter", files)
    b.o["hasw"], b.o["w"] = True, {"e": toks, "and": [], "or": [], "not": []}
    b.post = [s]
    return b.job(note=s[:80])


def atoms(rng, c):
    """C03"""
    jobs = []
    f = fats(rng)[:17]
    for n in SIZES:
        for op in ("==", ">=", "<", ">", "<=", "!="):
            jobs.append(fjob(rng, [f], ATOM({"k": "fcard", "t": lit_tag("012A"), "o": NOOCC, "has": False, "e": [], "op": op, "n": n}),
                             "#012A %s %d" % (op, n)))
            jobs.append(fjob(rng, [f], ATOM({"k": "sub", "q": "ANY", "t": lit_tag("012A"), "o": NOOCC,
                                            "e": ATOM({"k": "card", "cs": CS("*"), "op": op, "n": n})}), "012A{#* %s %d}" % (op, n)))
            half = n - n // 7
            jobs.append(fjob(rng, [f], ATOM({"k": "sub", "q": "ANY", "t": lit_tag("012A"), "o": NOOCC,
                                            "e": ATOM({"k": "card", "cs": CS("a"), "op": op, "n": half})}), "012A{#a %s %d}" % (op, half)))
    for big in (65535, 65536, 70000, 2 ** 31, 2 ** 32, 2 ** 32 + 300):
        # TLC's numbers end at 2^31; no record has that many subfields, so any such bound reads the same
        n = min(big, 10 ** 9)
        for op in ("==", "<", ">=", "!="):
            jobs.append(fjob(rng, [f[:4]], ATOM({"k": "fcard", "t": lit_tag("012A"), "o": NOOCC, "has": False, "e": [], "op": op, "n": n}),
                             "#012A %s %d" % (op, big)))
    # the value that decides comes last
    for q in ("ANY", "ALL"):
        for v in ("f126", "f127", "f254", "f255", "f256", "f299", "f0"):
            for op in ("==", "!="):
                a = {"k": "rel", "q": "ANY", "cs": CS("a"), "op": op, "v": vb(v)}
                jobs.append(fjob(rng, [f], SUB("012A", a, q), "%s012A.a %s '%s'" % ("ALL " if q == "ALL" else "", op, v)))
    for v in ("s126", "s254", "s256", "s298", "s0"):
        for q in ("ANY", "ALL"):
            for op in ("==", "!="):
                a = {"k": "rel", "q": q, "cs": CS("a"), "op": op, "v": vb(v)}
                jobs.append(fjob(rng, [f], SUB("012A", a), "012A{%sa %s '%s'}" % ("ALL " if q == "ALL" else "", op, v)))
    for n in (9, 17, 33, 65, 129):
        # the pattern that matches is the last of many
        es = [Cat(lit("q%dz" % i)) for i in range(n - 1)] + [Cat(lit("f5"))]
        lst = "[" + ", ".join("'q%dz'" % i for i in range(n - 1)) + ", 'f5']"
        for inv in (False, True):
            jobs.append(fjob(rng, [f[:3] + f[12:14]], SUB("012A", {"k": "re", "q": R(rng, ["ANY"]), "cs": CS("a"), "inv": inv, "res": es}), "012A.a %s %s" % ("!~" if inv else "=~", lst)))
    # long lists, long values, long needles
    for n in (64, 65, 255, 256, 300):
        vs = ["q%d" % i for i in range(n - 1)] + ["f5"]
        lst = "[" + ", ".join("'%s'" % v for v in vs) + "]"
        jobs.append(fjob(rng, [f], SUB("012A", {"k": "in", "q": "ANY", "cs": CS("a"), "inv": False, "vals": [vb(v) for v in vs]}), "012A.a in " + lst))
        jobs.append(fjob(rng, [f], SUB("012A", {"k": "in", "q": "ANY", "cs": CS("a"), "inv": True, "vals": [vb(v) for v in vs]}), "012A.a not in " + lst))
        jobs.append(fjob(rng, [f[:6]], SUB("012A", {"k": "has", "q": "ANY", "cs": CS("a"), "vals": [vb(v) for v in vs]}), "012A.a =? " + lst))
    for size in (0, 0, 40, 255, 1024, 5000):
        vs = twins(rng, size, False)
        t = [enc([("003@", "", [("0", b"%d" % k)]), ("012A", "", [("a", v)])]) for k, v in enumerate(vs)]
        for v in rng.sample(plainly(vs), 2 + 2 * (not size)):
            v = v.decode()
            for op in ("==", "=^", "=$", "!=", "!^", "!$"):
                jobs.append(fjob(rng, [t], SUB("012A", {"k": "rel", "q": "ANY", "cs": CS("a"), "op": op, "v": vb(v)}), "012A.a %s '%s'" % (op, v)))
            jobs.append(fjob(rng, [t], SUB("012A", {"k": "in", "q": "ANY", "cs": CS("a"), "inv": False, "vals": [vb(v), vb("x")]}), "012A.a in ['%s', 'x']" % v))
    for size in (127, 128, 255, 256, 1023, 1024, 9999):
        v = ("0123456789abcdef" * 700)[:size]
        for op in ("==", "=^", "=$", "!^", "!="):
            jobs.append(fjob(rng, [f[12:19]], SUB("012A", {"k": "rel", "q": "ANY", "cs": CS("a"), "op": op, "v": vb(v)}), "012A.a %s '%s'" % (op, v)))
        w = v[-100:] if size > 100 else v
        jobs.append(fjob(rng, [f[12:19]], SUB("012A", {"k": "has", "q": "ANY", "cs": CS("a"), "vals": [vb(w)]}), "012A.a =? '%s'" % w))
    return jobs


def selection(rng, c):
    """C08"""
    jobs = []
    f = crowd(rng, 1300, bad=(7, 800))
    for limit in (255, 256, 257, 1000, 1024):
        for g in (j_filter_all, lambda r, x: j_count(r, x, 0), lambda r, x: j_hash(r, x, 0)):
            b = g(rng, halves(f, 400) if limit % 2 else [f])
            jobs.append(limited(skipping(b), limit).job())
    for kind in ("allow", "deny"):
        for n in (255, 256, 257, 700):
            vals = ["%d" % (k * 2) for k in range(n)]
            b = j_filter_all(rng, [f])
            b.o["has" + kind], b.o[kind] = True, [ints(v.encode()) for v in vals]
            b.extra["l.csv"] = ("ppn\n" + "".join(v + "\n" for v in vals)).encode()
            b.args += ["-A" if kind == "allow" else "-D", "l.csv"]
            jobs.append(b.job())
    for size in (0, 0, 60, 300, 1024, 5000):
        vs = twins(rng, size, False)
        t = [enc([("003@", "", [("0", b"%d" % k)]), ("012A", "", [("a", v)])]) for k, v in enumerate(vs)]
        vals = [v.decode() for v in rng.sample(plainly(vs), 4)]
        for kind in ("allow", "deny"):
            b = j_filter_all(rng, [t])
            b.o["has" + kind], b.o[kind] = True, [ints(v.encode()) for v in vals]
            b.o["src"] = {"t": lit_tag("012A"), "o": NOOCC, "codes": [CS("a")], "has": False, "m": []}
            b.extra["l.csv"] = ("ppn\n" + "".join(v + "\n" for v in vals)).encode()
            b.args += ["-A" if kind == "allow" else "-D", "l.csv", "--filter-set-source", "012A.a"]
            jobs.append(b.job())
    # many keep and discard predicates; the last one decides
    g = fats(rng)[:10]
    for flag, key in (("-k", "keep"), ("-d", "disc")):
        for n in (40, 256):
            ps = ["0%02dA" % (k % 90 + 3) for k in range(n - 1)] + ["012A"]
            ps = [p for p in ps[:-1] if p != "012A"] + ps[-1:]
            b = j_filter_all(rng, [g])
            b.o[key] = [{"t": lit_tag(p), "o": NOOCC} for p in ps]
            b.args += [flag, ", ".join(ps)]
            jobs.append(b.job())
    # many --or, --and, --not
    for key, flag in (("or", "--or"), ("and", "--and"), ("not", "--not")):
        xs = ["v%d" % k for k in range(40)]
        op, neg = ("==", "!=")[key == "and"], False
        e = lambda v: SUB("012A", {"k": "rel", "q": "ANY", "cs": CS("a"), "op": op, "v": vb(v)})
        b = j_always(rng, [f[:300]])
        b.o["w"] = {"e": e("v0"), "and": [], "or": [], "not": []}
        b.o["w"][key] = [e(v) for v in xs]
        for v in xs:
            b.args += [flag, "012A.a %s '%s'" % (op, v)]
        b.post = ["012A.a %s 'v0'" % op]
        jobs.append(b.job())
    return jobs


def j_filter_all(rng, files):
    return j_always(rng, files)


def sel(rng, files, q, s, squash=False, merge=False, uniq=False, noempty=False):
    b = B(rng, "select", files)
    b.o.update(q=q, noempty=noempty, uniq=uniq, quote="necessary", hashdr=False, hdr=[], hasnf=False, nf=[], delim=44, skip=True)
    b.args += ["-s"] + (["--squash"] if squash else []) + (["--merge"] if merge else []) + (["-u"] if uniq else []) + (["--no-empty-columns"] if noempty else [])
    b.o["qo"] = {"squash": squash, "merge": merge, "sep": ints(b"|"), "ci": False, "th": 75}
    b.post = [s]
    return b


def queries(rng, c):
    """C06"""
    jobs = []
    f = crowd(rng, 1300, d=420, bad=(900,), ids=1000)
    for files in ([f], halves(f, 600), halves(f, 300, 1299)):
        for uniq in (True, False):
            jobs.append(sel(rng, files, [QP("012A", "a", "b")], "012A{a, b}", uniq=uniq).job())
    jobs.append(sel(rng, [f], [QP("003@", "0")], "003@.0", uniq=True).job())
    for size in (0, 0, 60, 300, 1024, 5000):
        t = twinrecs(rng, size)
        for uniq in (True, False):
            jobs.append(sel(rng, halves(t, 4), [QP("012A", "a")], "012A.a", uniq=uniq).job())
    g = fats(rng)
    for kw in ({}, {"squash": True}, {"merge": True}, {"uniq": True}, {"noempty": True}):
        jobs.append(sel(rng, [g], [QP("003@", "0"), QP("012A", "a")], "003@.0, 012A.a", **kw).job())
        jobs.append(sel(rng, [g[:12]], [QP("012A", "a", "b"), QP("013D", "a")], "012A{a, b}, 013D.a", **kw).job())
    # wide queries and large products
    h = crowd(rng, 40)
    for n in (20, 33, 65, 129, 257, 300):
        q = [QP("012A", "ab"[k % 2]) for k in range(n)]
        jobs.append(sel(rng, [h], q, ", ".join("012A." + "ab"[k % 2] for k in range(n))).job())
        jobs.append(sel(rng, [h], [QP("012A", *["ab"[k % 2] for k in range(n)])], "012A{%s}" % ", ".join("ab"[k % 2] for k in range(n))).job())
    p = [enc([("003@", "", [("0", b"%d" % k)])] + [("012A", "", [("a", b"x%d" % i)]) for i in range(35)] + [("013D", "", [("a", b"y%d" % i)]) for i in range(35)]) for k in range(2)]
    jobs.append(sel(rng, [p], [QP("012A", "a"), QP("013D", "a"), QP("003@", "0")], "012A.a, 013D.a, 003@.0").job())
    return jobs


def formats(rng, c):
    """C07"""
    jobs = []
    g = fats(rng)[:17]
    for n, t in ((-1, ".."), (255, "..255"), (256, "..256"), (257, "..257"), (300, "..300")):
        for mod, m in (([], ""), (["u"], "?u ")):
            v = {"k": "val", "cs": CS("a"), "pre": vb("; "), "suf": [], "n": n, "mod": mod}
            w = {"k": "val", "cs": CS("b"), "pre": [], "suf": vb("."), "n": 1, "mod": []}
            q = [{"k": "fmt", "f": {"t": lit_tag("012A"), "o": NOOCC, "has": False, "m": [], "x": {"k": "cons", "xs": [v, w]}}}]
            jobs.append(sel(rng, [g], q, "012A{%s'; ' a%s <*> b '.'}" % (m, t)).job())
    # formats of many parts
    h = [enc([("003@", "", [("0", b"1")]), ("012A", "", [("a", b"x"), ("b", b"Y"), ("c", b"z"), ("a", b"w")])]), enc([("012A", "", [("a", b"x")])])]
    for n in (9, 17, 33, 65, 129, 257):
        for kind, op in (("cons", " <*> "), ("then", " <$> ")):
            vs, ts = [], []
            for k in range(n):
                x = R(rng, "abc" if kind == "cons" else "a")
                vs.append({"k": "val", "cs": CS(x), "pre": vb("%d" % k), "suf": [], "n": 1, "mod": []})
                ts.append("'%d' %s" % (k, x))
            if kind == "then" and rng.random() < 0.5:
                vs[-1]["cs"] = CS("b")
                ts[-1] = ts[-1][:-1] + "b"
            jobs.append(sel(rng, [h], [{"k": "fmt", "f": {"t": lit_tag("012A"), "o": NOOCC, "has": False, "m": [], "x": {"k": kind, "xs": vs}}}], "012A{%s}" % op.join(ts)).job())
    return jobs


def part(rng, files, p, s, pre=b"", suf=b".dat", gz=False):
    b = B(rng, "partition", files)
    b.o.update(path=p, skip=True, tpl=[ints(pre), ints(suf + (b".gz" if gz else b""))])
    b.args += ["-s", "-o", "outd"] + (["-g"] if gz else [])
    if pre or suf != b".dat":
        b.args += ["-t", (pre + b"{}" + suf).decode()]
    b.post = [s]
    b.kw["outdir"] = "outd"
    return b


def spl(rng, files, size, limit=0):
    b = B(rng, "split", files)
    b.o.update(skip=True, size=size, limit=limit, tpl=[[], ints(b".dat")])
    b.args += ["-s", "-o", "outd"] + (["-l", str(limit)] if limit else [])
    b.post = [str(size)]
    b.kw["outdir"] = "outd"
    return b


def files(rng, c):
    """C09"""
    jobs = []
    for n, d in ((300, 129), (600, 300), (900, 700)) + (((2400, 1100),) if c.thorough else ()):
        f = [enc([("003@", "", [("0", b"%d" % (k % d))])]) for k in range(n)]
        jobs.append(part(rng, halves(f, n // 3), PPN_PATH, "003@.0").job())
        rng.shuffle(f)
        jobs.append(part(rng, [f], PPN_PATH, "003@.0", gz=d == 300).job())
    # one record with many values
    f = [fat(rng, k, subs=n) for k, n in enumerate((130, 257, 300))]
    jobs.append(part(rng, [f], PA("012A", "a"), "012A.a").job())
    f = [fat(rng, k, fields=n) for k, n in enumerate((130, 257, 300))]
    jobs.append(part(rng, [f], PA("012A", "*"), "012A.*").job())
    # few values, much content for each
    f = [fat(rng, k % 3, size=5000) for k in range(45)]
    jobs.append(part(rng, [f], PPN_PATH, "003@.0").job())
    f = crowd(rng, 1200, bad=(100, 700))
    for size, limit in ((1, 0), (3, 0), (255, 0), (256, 0), (257, 1000), (1000, 0), (1, 300), (1199, 0), (10, 1001)):
        jobs.append(spl(rng, halves(f, 500), size, limit).job())
    return jobs


def concats(rng, c):
    """C10"""
    jobs = []
    for ids in (300, 1000, None):
        f = crowd(rng, 1300, ids=ids, bad=(2,))
        if not ids:
            f = f[:650] + f[:650]
        for s in ("idn", "hash"):
            b = B(rng, "concat", halves(f, 200, 900))
            b.o.update(skip=True, uniq=True, strategy=s)
            b.args += ["-s", "-u", "--unique-strategy", s]
            b.kw["gz"] = [1]
            jobs.append(b.job())
    # records that are nearly the same
    for size in (0, 0, 60, 256, 1000, 4070, 4080, 4096, 5000, 8192, 20000):
        for s, f in (("hash", twinrecs(rng, size, ids=1)), ("idn", twinrecs(rng, size, "003@", "0"))):
            b = B(rng, "concat", halves(f, 5))
            b.o.update(uniq=True, strategy=s)
            b.args += ["-u", "--unique-strategy", s]
            jobs.append(b.job())
    # large outputs, teed, appended, compressed
    f = crowd(rng, 1000)
    for z in ("", ".gz"):
        for tee in (True, False):
            b = j_concat(rng, [f], False)
            b.kw["out"] = "out.dat" + z
            if tee:
                b.o["tee"], b.o["teename"], b.kw["tee"] = True, ints(b"tee.dat"), "tee.dat"
                b.args += ["--tee", "tee.dat"]
            b.args += ["--append"]
            b.kw["before"] = crowd(rng, 300)
            old = b"".join(b.kw["before"])
            b.kw["pre"] = {b.kw["out"]: gzip.compress(old, 1) if z else old}
            if tee:
                b.kw["pre"]["tee.dat"] = old
            jobs.append(b.job())
    files = [crowd(rng, 2, ids=1) for _ in range(150)]
    jobs.append(j_concat(rng, files, False).job())
    jobs.append(j_concat(rng, files, True).job())
    return jobs


def slices(rng, c):
    """C11"""
    jobs = []
    f = crowd(rng, 1300, bad=(5, 270, 1001))
    for start, end, length, limit in ((1000, 1100, 0, 0), (256, 0, 0, 0), (255, 0, 256, 0), (0, 1024, 0, 0), (1299, 0, 1, 0), (1290, 2000, 0, 0),
                                      (0, 0, 1000, 0), (300, 0, 900, 500), (1, 70000, 0, 0), (0, 0, 65536, 0)):
        b = B(rng, "slice", halves(f, 300) if limit else [f])
        b.o.update(start=start, end=end, length=length, limit=limit, skip=True)
        b.args += ["-s", "--start", str(start)] + (["--end", str(end)] if end else []) + (["--length", str(length)] if length else []) + \
            (["-l", str(limit)] if limit else [])
        jobs.append(b.job())
    for k in (100, 255, 256, 257, 600, 1296, 1297, 1298, 5000):
        b = B(rng, "sample", halves(f, 300))
        b.o.update(size=k, skip=True)
        b.args += ["-s", "--seed", str(rng.randrange(10 ** 6))]
        b.post = [str(k)]
        if k < 600 or k > 1290 or c.thorough:
            jobs.append(b.job())
    return jobs


def explodes(rng, c):
    """C12"""
    jobs = []

    def copies(k, locs, n, occ):
        rec = [("003@", "", [("0", b"%d" % k)]), ("012A", "", [("a", b"m")])]
        for l in range(locs):
            rec.append(("101@", "", [("a", b"%d" % l)]))
            for i in range(1, n + 1):
                o = occ % i
                rec += [("203@", o, [("0", b"%d.%d" % (l, i))]), ("208@", o, [("a", b"x")])]
        return enc(rec)
    recs = [copies(1, 1, 99, "%02d"), copies(2, 1, 120, "%03d"), copies(3, 1, 300, "%03d"), copies(4, 130, 1, "%02d"), copies(5, 260, 0, "%02d"), copies(6, 20, 12, "%02d"),
            copies(7, 1, 999 if c.thorough else 600, "%03d")]
    for level in ("main", "local", "copy"):
        for r in recs:
            for limit in (0, 100):
                b = B(rng, "explode", [[r, recs[0]]])
                b.o.update(level=level, limit=limit, skip=True)
                b.args += ["-s"] + (["-l", str(limit)] if limit else [])
                b.post = [level]
                jobs.append(b.job())
    # many ordinary records after one another
    f = [enc(levels_record(rng)) for _ in range(500)]
    for level in ("main", "local", "copy"):
        b = B(rng, "explode", halves(f, 200))
        b.o.update(level=level, skip=True)
        b.args += ["-s"]
        b.post = [level]
        jobs.append(b.job())
    return jobs


def tables(rng, c):
    """C13"""
    jobs = []
    f = crowd(rng, 1500, d=1013, bad=(77,))
    hot = [enc([("012A", "", [("a", b"hot")] * 300)]) for _ in range(300)]      # 90000 of one value
    for q, s in (([QP("012A", "a")], "012A.a"), ([QP("012A", "b")], "012A.b"), ([QP("012A", "a", "b")], "012A{a, b}")):
        for rev in (False, True):
            for n, th in ((0, 0), (256, 0), (0, 2), (300, 0)):
                if (n or th) and rng.random() < 0.5:
                    continue
                b = j_frequency(rng, [f], 0, q=(q, s))
                b = B(rng, "frequency", halves(f, 700))
                b.o.update(q=q, uniq=False, rev=rev, num=n, threshold=th, hashdr=False, hdr=[], nf=[], delim=44, skip=True)
                b.o["qo"] = {"squash": False, "merge": False, "sep": ints(b"|"), "ci": False, "th": 75}
                b.args += ["-s"] + (["-r"] if rev else []) + (["-n", str(n)] if n else []) + (["--threshold", str(th)] if th else [])
                b.post = [s]
                jobs.append(b.job())
    for size in (0, 0, 60, 300, 1024, 5000):
        b = B(rng, "frequency", halves(twinrecs(rng, size), 4))
        b.o.update(q=[QP("012A", "a")], uniq=size == 300, rev=False, num=0, threshold=0, hashdr=False, hdr=[], nf=[], delim=44)
        b.o["qo"] = {"squash": False, "merge": False, "sep": ints(b"|"), "ci": False, "th": 75}
        b.args += ["-u"] if size == 300 else []
        b.post = ["012A.a"]
        jobs.append(b.job())
    b = B(rng, "frequency", [hot + f[:5]])
    b.o.update(q=[QP("012A", "a")], uniq=False, rev=False, num=0, threshold=256, hashdr=False, hdr=[], nf=[], delim=44)
    b.o["qo"] = {"squash": False, "merge": False, "sep": ints(b"|"), "ci": False, "th": 75}
    b.args += ["--threshold", "256"]
    b.post = ["012A.a"]
    jobs.append(b.job())
    for g in (j_count, j_count, j_describe):
        jobs.append(g(rng, [hot], 0).job())
        jobs.append(skipping(g(rng, halves(f, 10), 0)).job())
    return jobs


def hashes(rng, c):
    """C14"""
    f = crowd(rng, 1300, bad=(1000,))
    jobs = []
    for x in ([f], halves(f, 256), halves(f, 1, 700, 1001)):
        jobs.append(skipping(j_hash(rng, x, 0)).job())
    jobs.append(j_hash(rng, [fats(rng)], 0).job())
    return jobs


def renders(rng, c):
    """C15"""
    jobs = []
    f, g = crowd(rng, 1100), fats(rng, (9999 - 40, 99999, 100001))
    for to in ("plus", "plain", "json", "xml", "binary", "import"):
        jobs.append(j_convert(rng, halves(f, 400), to).job())
        jobs.append(j_convert(rng, [g], to).job())
    jobs.append(j_print(rng, halves(f, 255), 0).job())
    jobs.append(j_print(rng, [g], 0).job())
    return jobs


def checks(rng, c):
    """C16"""
    jobs = []

    def one(files, r, text):
        b = B(rng, "check", files)
        rule0 = {"id": ints(b"R"), "ci": False, "th": 80, "hastags": False, "tags": [], "level": ints(b"error")}
        b.o.update(rs=[{"hasscope": False, "scope": [], "fast": False, "rules": [dict(rule0, **r)]}], txt=False, delim=44, hdr=CHECKHDR,
                   hasre=False, res=[], hastags=False, tags=[], skip=True)
        b.extra["rules.toml"] = ("[rule.R]\n" + text).encode()
        b.args += ["-s", "-R", "rules.toml"]
        return b
    n = 700
    recs = [enc([("003@", "", [("0", b"%d" % k)]), ("041A", "", [("9", b"%d" % (k * 3 % (n + 150)))])]) for k in range(n)]
    link = {"kind": "link", "source": P1("041A", "9")[0], "target": P1("003@", "0")[0], "hasfilter": False, "filter": []}
    for fs in ([recs], halves(recs, 255), halves(recs[::-1], 500)):
        jobs.append(one(fs, link, 'check = "link"\nsource.path = "041A.9"\ntarget.path = "003@.0"\n').job())
    # one record with many findings, many values, many duplicates
    # (the report names the repeated values in any order, so few are repeated)
    r = [enc([("003@", "", [("0", b"%d" % k)])] + [("045E", "", [("e", b"u%d" % i)]) for i in range(n)] +
             [("045E", "", [("e", b"d%d" % (i % m))]) for i in range(d)]) for k, (n, d, m) in enumerate(((256, 2, 1), (300, 0, 1), (300, 6, 3), (0, 256, 1), (5, 600, 2)))]
    for th in (2, 3, 30, 255, 256, 257, 301):
        jobs.append(one([r], {"kind": "duplicates", "q": [QP("045E", "e")], "threshold": th, "sep": ints(b"|")},
                        'check = "duplicates"\nquery = "045E.e"\nthreshold = %d\n' % th).job())
    for size in (0, 60, 300, 5000):
        r = []
        for k in range(4):
            vs = twins(rng, size, False)
            vs += rng.sample(vs, k)
            rng.shuffle(vs)
            r.append(enc([("003@", "", [("0", b"%d" % k)])] + [("045E", "", [("e", v)]) for v in vs]))
        jobs.append(one([r], {"kind": "duplicates", "q": [QP("045E", "e")], "threshold": 2, "sep": ints(b"|")},
                        'check = "duplicates"\nquery = "045E.e"\n').job())
    # the one bad value after hundreds of good ones
    lang = [enc([("003@", "", [("0", b"%d" % k)])] + [("010@", "", [("a", b"ger")])] * n + [("010@", "", [("a", b"zzz")])]) for k, n in enumerate((0, 127, 255, 256, 300))]
    jobs.append(one([lang], {"kind": "iso639-2b", "path": P1("010@", "a")[0]}, 'check = "iso639-2b"\npath = "010@.a"\n').job())
    # many rules in one set, many sets
    f = [enc([("003@", "", [("0", b"%d" % k)]), ("012A", "", [("a", b"x%d" % k)])]) for k in range(30)]
    b = B(rng, "check", [f])
    b.o.update(rs=[], txt=False, delim=44, hdr=CHECKHDR, hasre=False, res=[], hastags=False, tags=[])
    for i in range(3):
        rs, text = {"hasscope": False, "scope": [], "fast": i == 2, "rules": []}, ("termination = \"fast\"\n" if i == 2 else "")
        for k in range(15):
            v = "x%d" % rng.randrange(30)
            rs["rules"].append({"id": ints(b"R%d-%d" % (i, k)), "ci": False, "th": 80, "hastags": False, "tags": [], "level": ints(b"error"), "kind": "filter",
                                "inv": False, "e": SUB("012A", {"k": "rel", "q": "ANY", "cs": CS("a"), "op": "==", "v": vb(v)})})
            text += "[rule.R%d-%d]\ncheck = \"filter\"\nfilter = \"012A.a == '%s'\"\n" % (i, k, v)
        b.o["rs"].append(rs)
        b.extra["r%d.toml" % i] = text.encode()
        b.args += ["-R", "r%d.toml" % i]
    jobs.append(b.job())
    # a long report
    f = [enc([("003@", "", [("0", b"%d" % k)]), ("010@", "", [("a", b"bad%d" % k)])]) for k in range(1100)]
    for out in (None, "o.csv", "o.txt"):
        b = one(halves(f, 600), {"kind": "iso639-2b", "path": P1("010@", "a")[0]}, 'check = "iso639-2b"\npath = "010@.a"\n')
        if out:
            b.kw["out"], b.o["txt"] = out, out.endswith("txt")
        jobs.append(b.job())
    return jobs
