"""C08 selection is one thing: every command picks the same records for the same options."""
from mk import *
import big


def apply_sel(rng, b, sel):
    args, o, extra = sel
    b.args += args
    for k in ("skip", "limit", "mo", "hasw", "w", "src", "hasallow", "allow", "hasdeny", "deny"):
        b.o[k] = o[k]
    b.extra.update(extra)
    if "qo" in b.o:
        b.o["qo"].update(ci=o["mo"]["ci"], th=o["mo"]["th"])
    return b


def selection(rng, files):
    args, o, extra = [], base(), {}
    common(rng, args, o, extra, files, p=R(rng, [0.3, 0.8, 1.0]), n=R(rng, [1, 1, 2]))
    return args, o, extra


def as_filter(rng, sel, files):
    """filter takes the expression as an argument"""
    args, o, extra = sel
    b = B(rng, "filter", files)
    s = args[args.index("--where") + 1] if "--where" in args else ALWAYS_S
    rest = list(args)
    if "--where" in rest:
        k = rest.index("--where")
        del rest[k:k + 2]
    apply_sel(rng, b, (rest, o, extra))
    if "--where" not in args:
        b.o["hasw"], b.o["w"] = True, {"e": ALWAYS, "and": [], "or": [], "not": []}
    b.post = [s]
    return b


def settings(rng):
    """one setting of each option, and some pairs, that change what is selected from CORPUS"""
    cs = {"all": False, "r": [[97, 97]]}
    atom = lambda op, v: [{"k": "atom", "a": {"k": "sub", "q": "ANY", "t": lit_tag("012A"), "o": NOOCC,
                                             "e": [{"k": "atom", "a": {"k": "rel", "q": "ANY", "cs": cs, "op": op, "v": vb(v)}}]}}]
    w = lambda e, a=(), o=(), n=(): {"hasw": True, "w": {"e": e, "and": list(a), "or": list(o), "not": list(n)}}
    sim, simw = ["--where", "012A.a =* 'abcd'"], w(atom("=*", "abcd"))
    eq = lambda v: (["--where", "012A.a == '%s'" % v], w(atom("==", v)))
    sk = (["-s"], {"skip": True}, {})
    src = {"t": lit_tag("012A"), "o": NOOCC, "codes": [cs], "has": False, "m": []}
    L = lambda flag, key, vals, name="l.csv", head="ppn": ([flag, name], {"has" + key: True, key: [ints(v.encode()) for v in vals]},
                                                          {name: (head + "\n" + "".join(v + "\n" for v in vals)).encode()})
    yield sk
    for n in (1, 2, 3, 4, 6, 7):
        yield (["-l", str(n)], {"limit": n}, {})
    for th in (0, 24, 25, 26, 49, 50, 51, 74, 75, 76, 99):
        yield (["--strsim-threshold", str(th)] + sim, dict(simw, mo={"ci": False, "th": th}), {})
        yield (["-i", "--strsim-threshold", str(th)] + sim, dict(simw, mo={"ci": True, "th": th}), {})
    # ten letters, and thresholds that equal the similarity of one value
    ten, tenw = ["--where", "012A.a =* 'abcdefghij'"], w(atom("=*", "abcdefghij"))
    for th in (9, 10, 29, 30, 39, 40, 59, 60, 69, 70, 79, 80, 89, 90, 91):
        yield (["--strsim-threshold", str(th)] + ten, dict(tenw, mo={"ci": False, "th": th}), {})
    yield (sim, simw, {})
    for v in ("abcd", "ABCD", "zz"):
        a, o = eq(v)
        yield (a, o, {})
        yield (["-i"] + a, dict(o, mo={"ci": True, "th": 75}), {})
        yield (a + ["-l", "1"], dict(o, limit=1), {})
    a, _ = eq("abcd")
    for op, name, pos in (("and", "--and", 0), ("or", "--or", 1), ("not", "--not", 2)):
        for v in ("second", "ABCD", "abcd"):
            parts = [(), (), ()]
            parts[pos] = (atom("==", v),)
            yield (a + [name, "012A.a == '%s'" % v], w(atom("==", "abcd"), *parts), {})
    for vals in (["1"], ["01"], ["1", "3"], [], ["9"], ["2", "02"]):
        yield L("-A", "allow", vals)
        yield L("-D", "deny", vals)
        yield L("-A", "allow", vals, "l.tsv")
        yield L("-D", "deny", vals, "l.tsv", "idn")
        if vals:
            x = L("-D", "deny", vals, "l.txt")
            yield (x[0], x[1], {"l.txt": "".join(v + "\n" for v in vals).encode()})
    x, y = L("-A", "allow", ["1", "3", "02"]), L("-D", "deny", ["3", "7"], "d.csv", "idn")
    yield (x[0] + y[0], {**x[1], **y[1]}, {**x[2], **y[2]})
    x, y = L("-A", "allow", ["1"]), L("-A", "allow", ["02"], "m.csv", "idn")
    yield (x[0] + y[0], {"hasallow": True, "allow": x[1]["allow"] + y[1]["allow"]}, {**x[2], **y[2]})
    for key, flag in (("allow", "-A"), ("deny", "-D")):
        for vals in (["abcd"], ["second"], ["1"], ["abcx", "ABCD"]):
            x = L(flag, key, vals)
            yield (x[0] + ["--filter-set-source", "012A.a"], dict(x[1], src=src), x[2])
            x = L(flag, key, vals, "l.csv", "ppn,bbg")
            data = ("ppn,bbg\n" + "".join("1,%s\n" % v for v in vals)).encode()
            yield (x[0] + ["--filter-set-source", "012A.a", "--filter-set-column", "bbg"], dict(x[1], src=src), {"l.csv": data})


def rec(p, *vals):
    return enc(([("003@", "", [("0", p.encode())])] if p else []) + [("012A", "", [("a", v.encode())]) for v in vals])


CORPUS = [[rec("1", "abcd"), rec("02", "ABCD"), rec("3", "abcx", "second")],
          [rec("", "x"), rec("5", "abxx"), rec("1", "abcdefgh"), rec("7", "second", "abcd"), rec("3"), rec("8", "axxx", "ABcx")],
          [rec("1%d" % n, "abcdefghij"[:n] + "#" * (10 - n)) for n in (9, 8, 7, 6, 4, 3, 1)]]


def check(c):
    rng = c.rng
    c.judge(big.selection(random.Random(c.seed), c), kind="scale")
    c.model("MCSelect", "MCSelect_deep" if c.thorough else None)
    jobs = []
    J = [lambda r, f: j_count(r, f, 0), lambda r, f: j_hash(r, f, 0), lambda r, f: j_print(r, f, 0), lambda r, f: j_split(r, f, 0),
         lambda r, f: j_select(r, f, 0), lambda r, f: j_frequency(r, f, 0), lambda r, f: j_describe(r, f, 0), lambda r, f: j_slice(r, f, 0),
         lambda r, f: j_sample(r, f, 0), lambda r, f: j_explode(r, f, 0), lambda r, f: j_partition(r, f, 0)]
    for k, sel in enumerate(settings(rng)):
        for m, g in enumerate(J + [None]):
            args, o, extra = list(sel[0]), base(**sel[1]), dict(sel[2])
            files = [list(f) for f in CORPUS]
            if o["skip"] or rng.random() < 0.2:
                files[k % 2].insert(rng.randrange(3), b"003@ x\n")
                if "-s" not in args:
                    o["skip"] = True
                    args.append("-s")
            if g is None:
                jobs.append(as_filter(rng, (args, o, extra), files).job())
                continue
            b = g(rng, files)
            b.args = [a for k2, a in enumerate(b.args) if a not in ("-s", "--skip-invalid")
                      and not (a == "-l" or b.args[k2 - 1] == "-l")]
            jobs.append(apply_sel(rng, b, (args, o, extra)).job())
    c.judge(jobs, kind="every-option-everywhere")
    jobs = []
    for _ in range(c.scale(60)):
        files = inputs(rng, nfiles=R(rng, [1, 2, 3]), n=R(rng, [3, 6]), inv=R(rng, [0, 0.15]))
        while not safe_values(files):
            files = inputs(rng, nfiles=1, n=4, inv=0.1)
        sel = selection(rng, files)
        for k, g in enumerate(J):
            if g is J[-1] or c.thorough or rng.random() < 0.75:
                b = g(rng, files)
                # the generators' own selection options (p = 0) are --skip-invalid, -l 0 only
                b.args = [a for k2, a in enumerate(b.args) if a not in ("-s", "--skip-invalid")
                          and not (a == "-l" or b.args[k2 - 1] == "-l")]
                jobs.append(apply_sel(rng, b, sel).job())
        jobs.append(as_filter(rng, sel, files).job())
    c.judge(jobs, kind="same-selection-everywhere")
    # lists: formats, columns, big lists, several files
    jobs = []
    for _ in range(c.scale(150)):
        files = [corpus(rng, 8, inv=0.05)]
        b = R(rng, [j_always, lambda r, f: j_count(r, f, 0, ), lambda r, f: j_hash(r, f, 0)])(rng, files)
        if "-s" not in b.args and "--skip-invalid" not in b.args:
            b.o["skip"] = True
            b.args.append("-s")
        lists(rng, b.args, b.o, b.extra, files)
        jobs.append(b.job())
    c.judge(jobs, kind="lists")
