"""C06 paths and queries: the values and rows projected from records; select and its options."""
from mk import *
import big
import itertools


def qjob(rng, files, q, s, squash=False, merge=False, sep=None, noempty=False, uniq=False, delim=44):
    b = B(rng, "select", files)
    b.o.update(q=q, noempty=noempty, uniq=uniq, quote="necessary", hashdr=False, hdr=[], hasnf=False, nf=[], delim=delim)
    b.args += (["--squash"] if squash else []) + (["--merge"] if merge else []) + (["--separator=" + sep] if sep is not None else [])
    b.args += (["--no-empty-columns"] if noempty else []) + (["-u"] if uniq else []) + (["-t"] if delim == 9 else [])
    b.o["qo"] = {"squash": squash, "merge": merge, "sep": ints((sep if sep is not None else "|").encode()), "ci": False, "th": 75}
    b.post = [s]
    return b.job(note=s)


def small_records():
    """records whose 012A fields range over every short list of a/b subfields"""
    subs = [[], [("a", "1")], [("b", "2")], [("a", "1"), ("b", "2")], [("b", "2"), ("a", "1"), ("a", "3")], [("a", ""), ("b", "2")], [("c", "4")]]
    out = []
    for k, fs in enumerate(itertools.product([None] + subs, repeat=2)):
        rec = [("003@", "", [("0", b"%d" % k)])]
        rec += [("012A", "", [(x, v.encode()) for x, v in s]) for s in fs if s is not None]
        if k % 3 == 0:
            rec.append(("013D", "", [("a", b"x"), ("a", b"y")]))
        out.append(enc(rec))
    return out


def check(c):
    rng = c.rng
    c.judge(big.queries(random.Random(c.seed), c), kind="scale")
    c.model("MCQuery")
    recs = small_records()
    P = lambda tag, codes, m=None: {"k": "path", "p": {"t": lit_tag(tag), "o": NOOCC, "codes": [codes_(x) for x in codes], "has": bool(m), "m": m or []}}

    def codes_(s):
        return {"all": s == "*", "r": [] if s == "*" else [[ord(x)] * 2 for x in s]}
    frags = [(P("012A", ["a"]), "012A.a"), (P("012A", ["a", "b"]), "012A{a, b}"), (P("012A", ["b", "a"]), "012A{(b, a)}"),
             (P("012A", ["ab"]), "012A.[ab]"), (P("012A", ["*"]), "012A.*"), (P("012A", ["a", "ab", "c"]), "012A{a, [ab], c}"),
             (P("013D", ["a"]), "013D.a"), (P("003@", ["0"]), "003@.0"), ({"k": "lit", "v": vb("L|x")}, "'L|x'"),
             (P("012A", ["b"], [{"k": "atom", "a": {"k": "ex", "cs": codes_("a")}}]), "012A{b | a?}"),
             (P("012A", ["a", "a"]), "012A{a, a}")]
    jobs = []
    for n in (1, 2):
        for fs in itertools.product(frags, repeat=n):
            q, s = [f[0] for f in fs], ", ".join(f[1] for f in fs)
            for mode in ({}, {"squash": True}, {"merge": True}):
                if n == 2 and mode and not c.thorough and rng.random() < 0.6:
                    continue
                sep = R(rng, [None, ";", "", "--"])
                jobs.append(qjob(rng, [recs], q, s, sep=sep, noempty=rng.random() < 0.3, uniq=rng.random() < 0.3,
                                 delim=R(rng, [44, 9]), **mode))
    c.judge(jobs, kind="small-tables")
    jobs = []
    for _ in range(c.scale(420)):
        files = inputs(rng, nfiles=R(rng, [1, 1, 2]), n=R(rng, [2, 5, 8]), inv=R(rng, [0, 0.1]), bad=R(rng, [0, 0, 0.1]))
        jobs.append(j_select(rng, files, R(rng, [0.1, 0.5])).job())
    for _ in range(c.scale(12)):
        f = [[enc([("003@", "", [("0", b"1")]), ("012A", "", [("a", R(rng, WORDS[1:]).encode() * rng.randrange(100, 4000)), ("b", b"z")])])]]
        jobs.append(j_select(rng, f, 0, q=([{"k": "path", "p": PPN_PATH}, P("012A", ["a", "b"])], "003@.0, 012A{a, b}")).job())
    c.judge(jobs, kind="random-queries")
    # conditions inside paths and formats, with every setting of the options they obey
    vals = ["", "a", "A", "ab", "aB", "Ab", "b", "ü", "Ü", "abc", "xab", "abx", "1"]
    recs2 = [enc([("003@", "", [("0", b"%d" % k)]), ("012A", "", [("a", x.encode()), ("b", b"-")]),
                  ("012A", "01", [("b", x.encode()), ("a", R(rng, vals).encode())])]) for k, x in enumerate(vals)]
    a, top = {"all": False, "r": [[97, 97]]}, lambda x: [{"k": "atom", "a": x}]
    conds = [(top({"k": "rel", "q": q, "cs": a, "op": op, "v": vb(v)}), "%sa %s '%s'" % (t, op, v))
             for op in ("==", "!=", "=^", "!^", "=$", "!$", "=*") for v in ("aB", "Ü", "ab") for q, t in (("ANY", ""), ("ALL", "ALL "))]
    conds += [(top({"k": "has", "q": "ANY", "cs": a, "vals": [vb("b"), vb("Ü")]}), "a =? ['b', 'Ü']"),
              (top({"k": "in", "q": "ANY", "cs": a, "inv": False, "vals": [vb("AB"), vb("ü")]}), "a in ['AB', 'ü']"),
              (top({"k": "in", "q": "ANY", "cs": a, "inv": True, "vals": [vb("AB"), vb("ü")]}), "a not in ['AB', 'ü']"),
              (top({"k": "card", "cs": a, "op": ">=", "n": 1}), "#a >= 1")]
    for v in ("aB", "Ü"):
        r = {"k": "cat", "xs": [{"k": "bol"}] + [{"k": "c", "c": ord(x)} for x in v]}
        conds += [(top({"k": "re", "q": "ANY", "cs": a, "inv": inv, "res": [r]}), "a %s '^%s'" % (op, v)) for inv, op in ((False, "=~"), (True, "!~"))]
    jobs = []
    for k, (e, s) in enumerate(conds):
        for m, (ci, th) in enumerate(((False, 75), (True, 75), (False, 40), (True, 99))):
            if th != 75 and "=*" not in s:
                continue
            form = (k + m) % 3
            v = lambda x: {"k": "val", "cs": {"all": False, "r": [[ord(x)] * 2]}, "pre": [], "suf": [], "n": -1, "mod": []}
            o, t = [(NOOCC, ""), ({"k": "any"}, "/*")][k % 2]
            q, t = [({"k": "path", "p": {"t": lit_tag("012A"), "o": o, "codes": [a], "has": True, "m": e}}, "012A%s{a | %s}" % (t, s)),
                    ({"k": "path", "p": {"t": lit_tag("012A"), "o": o, "codes": [a, {"all": False, "r": [[98, 98]]}], "has": True, "m": e}},
                     "012A%s{(a, b) | %s}" % (t, s)),
                    ({"k": "fmt", "f": {"t": lit_tag("012A"), "o": o, "has": True, "m": e, "x": {"k": "cons", "xs": [v("a"), v("b")]}}},
                     "012A%s{a.. <*> b.. | %s}" % (t, s))][form]
            b = j_frequency(rng, [recs2], 0, q=([q], t)) if k % 5 == 0 and form < 2 else \
                j_select(rng, [recs2], 0, q=([{"k": "path", "p": PPN_PATH}, q], "003@.0, " + t), nf=False)
            b.o["qo"].update(ci=ci, th=th)
            b.args = [x for x in b.args if x not in ("-i", "--ignore-case")] + (["-i"] if ci else [])
            if "--strsim-threshold" in b.args:
                at = b.args.index("--strsim-threshold")
                del b.args[at:at + 2]
            b.args += ["--strsim-threshold", str(th)] if th != 75 else []
            jobs.append(b.job(note=t))
    c.judge(jobs, kind="conditions-in-queries")
    # matchers inside paths see the same option values as --where
    jobs = []
    for _ in range(c.scale(80)):
        files = [corpus(rng, 8)]
        q = query(rng, R(rng, [1, 2]), matcher=1.0)
        jobs.append(j_select(rng, files, 0.8, q=q).job())
        jobs.append(j_frequency(rng, files, 0.5).job())
        if safe_values(files):
            jobs.append(j_partition(rng, files, 0.5).job())
    c.judge(jobs, kind="paths-elsewhere")
