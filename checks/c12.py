"""C12 explode."""
from mk import *
import big
import itertools


def ex_job(rng, files, level, limit=0, **kw):
    b = B(rng, "explode", files)
    b.o.update(level=level, limit=limit, skip=True)
    b.args += ["-s"] + (["-l", str(limit)] if limit else [])
    b.post = [level]
    return b


def shapes(maxf):
    """every level structure with at most maxf fields: a string over M, L and copy digits"""
    out = []
    def go(s, item, n):
        out.append(s)
        if n == 0:
            return
        last = s[-1] if s else "M"
        if last == "M":
            go(s + "M", 0, n - 1)
        go(s + "L", 0, n - 1)
        if last in "L" or last.isdigit():
            if last.isdigit():
                go(s + last, item, n - 1)
            if item < 3:
                go(s + str(item + 1), item + 1, n - 1)
    go("", 0, maxf)
    return [s for s in out if s]


def build_shape(s):
    rec, k = [], 0
    for ch in s:
        k += 1
        v = [("a", b"%d" % k)]
        if ch == "M":
            rec.append(("003@", "", [("0", b"%d" % k)]) if k == 1 else ("012A", "", v))
        elif ch == "L":
            rec.append(("101@", "", v))
        else:
            rec.append(("203@", "0" + ch, v))
    return enc(rec)


def check(c):
    rng = c.rng
    c.judge(big.explodes(random.Random(c.seed), c), kind="scale")
    c.model("MCExplode", "MCExplode_deep" if c.thorough else None)
    sh = sorted(set(shapes(7 if c.thorough else 6)))
    recs = [build_shape(s) for s in sh]
    jobs = []
    for a in range(0, len(recs), 12):
        for level in ("main", "local", "copy"):
            jobs.append(ex_job(rng, [recs[a:a + 12]], level).job())
    for a in range(0, len(recs), 7):
        level = R(rng, ["local", "copy"])
        b = ex_job(rng, [recs[a:a + 7]], level, R(rng, [1, 2, 3, 5]))
        jobs.append(b.job())
    c.judge(jobs, kind="every-structure")
    jobs = []
    for _ in range(c.scale(330)):
        files = [level_corpus(rng, R(rng, [1, 2, 4]), R(rng, [0, 0.1])) for _ in range(R(rng, [1, 1, 2]))]
        b = j_explode(rng, files, R(rng, [0, 0.3, 0.7]))
        if not b.o["skip"]:
            b.o["skip"] = True
            b.args.append("-s")
        jobs.append(b.job())
    # selection and field reduction apply to the parts
    for _ in range(c.scale(120)):
        files = [level_corpus(rng, 3)]
        b = ex_job(rng, files, R(rng, ["local", "copy"]), R(rng, [0, 0, 1, 2, 4]))
        a, s = R(rng, [lambda: ({"k": "fex", "t": lit_tag(t := R(rng, ["101@", "144Z", "145S", "012A"])), "o": NOOCC}, t + "?"),
                       lambda: ({"k": "fex", "t": lit_tag(t := R(rng, ["203@", "208@", "201B"])), "o": {"k": "exact", "a": ints(b"02")}}, t + "/02?"),
                       lambda: ({"k": "fex", "t": lit_tag(t := R(rng, ["203@", "208@", "201B"])), "o": {"k": "any"}}, t + "/*?")])()
        b.o["hasw"], b.o["w"] = True, {"e": [{"k": "atom", "a": a}], "and": [], "or": [], "not": []}
        b.args += ["--where", s]
        keepdisc(rng, b.args, b.o, 0.3)
        if rng.random() < 0.3:
            b.args.append("-g")
            if rng.random() < 0.5:
                b.kw["out"] = "o.dat.gz"
        jobs.append(b.job())
    c.judge(jobs, kind="random")
