"""C05 tag, occurrence and code matching; keep and discard."""
from mk import *
import itertools

L4 = "ABCDEFGHIJKLMNOPQRSTUVWXYZ@"
ALLOCC = [""] + ["%02d" % k for k in range(100)] + ["%03d" % k for k in range(1000)]


def only(rng, files, preds, ss, disc=False, skip=False):
    """a filter run that keeps (discards) fields"""
    b = j_always(rng, files, skip=skip)
    b.o["disc" if disc else "keep"] = preds
    b.args += [R(rng, ["-d", "--discard"] if disc else ["-k", "--keep"]), ss]
    return b.job(note=ss)


def sel(rng, files, t, o, s):
    b = B(rng, "filter", files)
    b.o.update(hasw=True, w={"e": [{"k": "atom", "a": {"k": "fex", "t": t, "o": o}}], "and": [], "or": [], "not": []})
    b.post = [s + "?"]
    return b.job(note=s)


def check(c):
    rng = c.rng
    c.model("MCTags")
    jobs = []
    # every tag once (as one record of many fields), against many tag matchers
    tags = ["%s%s%s%s" % t for t in itertools.product("012", "0123456789", "0123456789", L4)]
    chunks = [tags[k::45] for k in range(45)]
    one = [[enc([(t, "", [("0", t.encode())]) for t in sorted(ch)])] for ch in chunks]
    full = [[f[0] for f in one]]
    for k in range(c.scale(60)):
        t, s = tagm(rng, 0.15, tags)
        jobs.append(only(rng, full if k % 12 == 0 or c.thorough else [R(rng, one), R(rng, one)], [{"t": t, "o": NOOCC}], s, rng.random() < 0.3))
    # every occurrence against every kind of occurrence matcher
    occrec = [[enc([("012A", o, [("0", b"1")]) for o in ALLOCC[k::10]]) for k in range(10)]]
    few = [[enc([("012A", o, [("0", b"1")]) for o in ["", "00", "01", "02", "03", "09", "10", "11", "50", "98", "99",
                                                       "000", "001", "002", "003", "009", "010", "011", "099", "100", "101", "500", "998", "999"]])]]
    ms = [({"k": "none"}, ""), ({"k": "none"}, "/00"), ({"k": "any"}, "/*")]
    ms += [({"k": "exact", "a": ints(o.encode())}, "/" + o) for o in ALLOCC if o and o != "00"]
    rs = []
    for w in (2, 3):
        for a, b in itertools.combinations(["0" * w, "0" * (w - 1) + "1", "0" * (w - 1) + "9", "1".rjust(w, "0"), "10".rjust(w, "0"), "9" * (w - 1) + "8", "9" * w, "5".ljust(w, "0")], 2):
            if a < b:
                rs.append(({"k": "range", "a": ints(a.encode()), "b": ints(b.encode())}, "/%s-%s" % (a, b)))
    for k in range(0, len(ms), 1 if c.thorough else 9):
        for o, s in ms[k:k + 1]:
            jobs.append(only(rng, few if k > 20 and not c.thorough else occrec, [{"t": lit_tag("012A"), "o": o}], "012A" + s, rng.random() < 0.3))
    for o, s in rs:
        jobs.append(only(rng, occrec if c.thorough or rng.random() < 0.3 else few, [{"t": lit_tag("012A"), "o": o}], "012A" + s))
    c.judge(jobs, kind="tags-and-occurrences")
    # the same through field selection in expressions: one record per occurrence
    jobs = []
    occs = [[enc([("003@", "", [("0", b"1")]), ("012A", o, [])]) for o in ALLOCC if len(o) != 3 or int(o) % 7 == 0 or int(o) < 12 or int(o) > 990]]
    for o, s in ms[:3] + [R(rng, ms[3:]) for _ in range(c.scale(10))] + rs:
        jobs.append(sel(rng, occs, lit_tag("012A"), o, "012A" + s))
    # codes: one field with every code
    allc = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
    f = [[enc([("003@", "", [("0", b"1")]), ("045Q", "", [(x, x.encode()) for x in allc])])]]
    for _ in range(c.scale(60)):
        cs, s = codem(rng, allc)
        jobs.append(j_select(rng, f, 0, q=([{"k": "path", "p": {"t": lit_tag("045Q"), "o": NOOCC, "codes": [cs], "has": False, "m": []}}], "045Q." + s), nf=False).job(note=s))
    c.judge(jobs, kind="selection")
    jobs = []
    for _ in range(c.scale(250)):
        files = inputs(rng, nfiles=1, n=8, inv=0.1)
        b = j_always(rng, files)
        keepdisc(rng, b.args, b.o, 0.7)
        b.args = [a for a in b.args]
        b.io(0.2)
        jobs.append(b.job())
        if rng.random() < 0.5:
            jobs.append(j_describe(rng, files, 0.3).job())
        if rng.random() < 0.3:
            jobs.append(j_explode(rng, [level_corpus(rng, 4)], 0.3).job())
    c.judge(jobs, kind="keep-and-discard")
