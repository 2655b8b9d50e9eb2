"""C04 boolean structure: precedence, negation, grouping, --and/--or/--not, -v."""
from mk import *
import itertools

TG = ["012A", "013D", "028A", "041A"]
CD = "abcd"


def table():
    """one record per truth assignment, at field level (tags) and at subfield level (codes of 045Q)"""
    out = []
    for k in range(16):
        rec = [("003@", "", [("0", b"%d" % k)])]
        rec += [(TG[i], "", [("x", b"1")]) for i in range(4) if k >> i & 1]
        rec += [("045Q", "", [(CD[i], b"1") for i in range(4) if k >> i & 1])]
        out.append(enc(rec))
    return out


def A(level, i):
    if level == "f":
        return [{"k": "atom", "a": {"k": "fex", "t": lit_tag(TG[i]), "o": NOOCC}}], TG[i] + "?"
    return [{"k": "atom", "a": {"k": "ex", "cs": {"all": False, "r": [[ord(CD[i])] * 2]}}}], CD[i] + "?"


OPT = {"and": ["&&"], "or": ["||"], "xor": ["^", "XOR"]}


def shapes(n):
    """every way to group n operands: nested tuples of operand indices; a flat tuple is ungrouped"""
    def seqs(items, total):
        # a flat sequence of operands and parenthesised runs shorter than the whole
        if not items:
            yield ()
            return
        for k in range(1, len(items) + 1):
            if k > 1 and k == total:
                continue
            for h in [items[0]] if k == 1 else [("g", x) for x in seqs(items[:k], k)]:
                for rest in seqs(items[k:], total):
                    yield (h,) + rest
    return list(seqs(list(range(n)), n))


def render(rng, level, shape, ops, negs, top=True):
    """ops and negs are iterators consumed left to right"""
    toks, s = [], ""
    for k, x in enumerate(shape):
        if k:
            op = next(ops)
            toks.append(T(op))
            s += " %s " % R(rng, OPT[op])
        neg = next(negs)
        if isinstance(x, tuple):
            a, c = render(rng, level, x[1], ops, negs, False)
            a, c = [T("(")] + a + [T(")")], "(" + c + ")"
        else:
            a, c = A(level, x)
        if neg:
            a, c = [T("not")] + a, "!" + c
        toks += a
        s += c
    return toks, s


def count_ops(shape):
    return len(shape) - 1 + sum(count_ops(x[1]) for x in shape if isinstance(x, tuple))


def count_negs(shape):
    return len(shape) + sum(count_negs(x[1]) for x in shape if isinstance(x, tuple))


def wrap(level, toks, s):
    if level == "f":
        return toks, s
    return [{"k": "atom", "a": {"k": "sub", "q": "ANY", "t": lit_tag("045Q"), "o": NOOCC, "e": toks}}], "045Q{%s}" % s


def job(rng, files, w, s, inv=False, args=()):
    b = B(rng, "filter", files)
    b.o.update(hasw=True, w=w, inv=inv)
    b.args += list(args) + (["-v"] if inv else [])
    b.post = [s]
    return b.job(note=s)


def chains(c, rng):
    """expressions of any length and depth: as long as it takes, decided by one operand somewhere"""
    jobs = []
    W = lambda e: {"e": e, "and": [], "or": [], "not": []}
    tab = [table()[k] for k in (0, 1, 2, 3, 5, 14, 15)]
    for level in "fs":
        for op in ("and", "or", "xor"):
            for n in (17, 33, 65, 129, 257, 300):
                base, odd = rng.sample(range(4), 2)
                at = R(rng, [n - 1, n - 1, n // 2, 0])
                toks, s = [], ""
                for k in range(n):
                    if k:
                        toks.append(T(op))
                        s += " %s " % R(rng, OPT[op])
                    a, t = A(level, odd if k == at else base)
                    toks += a
                    s += t
                toks, s = wrap(level, toks, s)
                jobs.append(job(rng, [tab], W(toks), s))
        for n in (20, 50, 100):
            for inner in (False, True):
                toks, s = A(level, 0)
                for k in range(n):
                    op = R(rng, ["and", "or", "xor"])
                    a, t = A(level, rng.randrange(4))
                    neg = rng.random() < 0.2
                    g, u = [T("(")] + toks + [T(")")], "(" + s + ")"
                    if neg:
                        g, u = [T("not")] + g, "!" + u
                    o = " %s " % R(rng, OPT[op])
                    toks, s = (a + [T(op)] + g, t + o + u) if inner else (g + [T(op)] + a, u + o + t)
                toks, s = wrap(level, toks, s)
                jobs.append(job(rng, [tab], W(toks), s))
            nots = [T("not")] * n + A(level, 1)[0], "!" * n + A(level, 1)[1]
            jobs.append(job(rng, [tab], W(wrap(level, *nots)[0]), wrap(level, *nots)[1]))
    for n in (17, 33, 65, 129, 257):        # one option as often as that
        for flag, key in (("--and", "and"), ("--or", "or"), ("--not", "not")):
            xs = [A("f", 0)] * (n - 1) + [A("f", 1)]
            w = W(A("f", 2)[0])
            w[key] = [x[0] for x in xs]
            jobs.append(job(rng, [tab], w, A("f", 2)[1], args=[a for x in xs for a in (flag, x[1])]))
    c.judge(jobs, kind="chains")


def check(c):
    rng = c.rng
    c.model("MCBool")
    tab = [table()]
    W = lambda e, a=(), o=(), n=(): {"e": e, "and": list(a), "or": list(o), "not": list(n)}
    jobs = []
    for level in "fs":
        for n in (1, 2, 3, 4):
            for shape in shapes(n):
                no, nn = count_ops(shape), count_negs(shape)
                everyop = list(itertools.product(("and", "or", "xor"), repeat=no))
                for ops in everyop:
                    pool = list(itertools.product((False, True), repeat=nn)) if n <= 2 or (c.thorough and n == 3) else \
                        [(False,) * nn] + [tuple(rng.random() < 0.35 for _ in range(nn)) for _ in range(3 if c.thorough or n == 3 else 1)]
                    if n == 4 and not c.thorough and rng.random() < 0.5 and shape != (0, 1, 2, 3):
                        pool = pool[1:]
                    for negs in pool:
                        toks, s = render(rng, level, shape, iter(ops), iter(negs))
                        toks, s = wrap(level, toks, s)
                        jobs.append(job(rng, tab, W(toks), s, rng.random() < 0.15))
    if not c.thorough:
        keep = [j for j in jobs if len(j.note) < 40]
        rest = [j for j in jobs if len(j.note) >= 40]
        rng.shuffle(rest)
        jobs = keep + rest[:1500 - min(len(keep), 900)]
        rng.shuffle(jobs)
    c.judge(jobs, kind="truth-tables")
    chains(c, rng)
    # several expressions combined on the command line
    jobs = []
    for _ in range(c.scale(150)):
        f = lambda n=None: expr(rng, lambda r, neg=False: A("f", r.randrange(4)), n or R(rng, [1, 1, 2, 3]), 0.25, 1)
        e, s = f()
        if rng.random() < 0.4:
            k = [f() for _ in range(R(rng, [1, 2, 3]))]
            w, args = W(e, o=[x[0] for x in k]), [a for x in k for a in ("--or", x[1])]
        else:
            k, m = [f() for _ in range(rng.randrange(3))], [f() for _ in range(rng.randrange(3))]
            w = W(e, a=[x[0] for x in k], n=[x[0] for x in m])
            args = [["--and", x[1]] for x in k] + [["--not", x[1]] for x in m]
            rng.shuffle(args)
            args = sum(args, [])
        cmd = R(rng, ["filter", "filter", "select", "count"])
        if cmd == "filter":
            jobs.append(job(rng, tab, w, s, rng.random() < 0.3, args))
        elif cmd == "select":
            b = j_select(rng, tab, 0, q=([{"k": "path", "p": PPN_PATH}], "003@.0"))
            b.o.update(hasw=True, w=w)
            b.args += ["--where", s] + args
            jobs.append(b.job(note=s))
        else:
            b = j_count(rng, tab, 0)
            b.o.update(hasw=True, w=w)
            b.args += ["--where", s] + args
            jobs.append(b.job(note=s))
    c.judge(jobs, kind="combined")
    # long chains, deep groups, full atoms
    jobs = []
    for _ in range(c.scale(120)):
        n, d = R(rng, [(5, 2), (8, 2), (14, 1), (3, 4), (2, 4), (25, 0)])
        if rng.random() < 0.5:
            lv = R(rng, "fs")
            toks, s = wrap(lv, *expr(rng, lambda r, neg=False: A(lv, r.randrange(4)), n, 0.25, d))
            files = tab
        else:
            toks, s = field_expr(rng, min(n, 8), min(d, 3))
            files = [corpus(rng, 10)]
        jobs.append(job(rng, files, W(toks), s, rng.random() < 0.2))
    c.judge(jobs, kind="long-and-deep")
