"""C13 frequency, count, describe: the numbers are true and in the promised order."""
from mk import *
import big


def check(c):
    rng = c.rng
    c.judge(big.tables(random.Random(c.seed), c), kind="scale")
    c.model("MCTables", "MCTables_deep" if c.thorough else None)
    jobs = []
    # few distinct values so that counts tie, thresholds and cuts fall inside groups
    for _ in range(c.scale(260)):
        vals = [R(rng, ["a", "A", "b", "ab", "B", "ü", "", "1", "10", "2", "z", "Z"]) for _ in range(rng.randrange(1, 6))]
        lines = []
        for k in range(R(rng, [0, 1, 6, 15, 30])):
            rec = [("003@", "", [("0", b"%d" % k)])]
            for _ in range(rng.randrange(0, 3)):
                rec.append(("012A", R(rng, ["", "01"]), [(R(rng, "ab"), R(rng, vals).encode()) for _ in range(rng.randrange(0, 4))]))
            lines.append(enc(rec))
        cut = rng.randrange(len(lines) + 1)
        files = [lines] if rng.random() < 0.6 else [lines[:cut], lines[cut:]]
        q = R(rng, [lambda: query(rng, 1, fmts=False, tags=["012A"], pool="ab", matcher=0.1),
                    lambda: query(rng, 2, fmts=False, tags=["012A"], pool="ab", matcher=0),
                    lambda: ([{"k": "path", "p": {"t": lit_tag("012A"), "o": {"k": "any"}, "codes": [codes("a")], "has": False, "m": []}}], "012A/*.a"),
                    lambda: ([{"k": "path", "p": {"t": lit_tag("012A"), "o": {"k": "any"}, "codes": [codes("a"), codes("b")], "has": False, "m": []}}], "012A/*{a, b}")])()
        jobs.append(j_frequency(rng, files, R(rng, [0, 0.4]), q=q).job())
    c.judge(jobs, kind="frequency-ties")
    jobs = []
    for k in range(c.scale(320)):
        files = inputs(rng, n=R(rng, [2, 6, 10]), inv=R(rng, [0, 0.1]), bad=R(rng, [0, 0.05]))
        b = [j_frequency, j_count, j_describe, j_table][k % 4](rng, files, R(rng, [0.2, 0.6]))
        if not b.o["skip"]:
            b.o["skip"] = True
            b.args.append("-s")
        jobs.append(b.job())
    c.judge(jobs, kind="random")
    # counts above small powers of two and ten
    jobs = []
    for n in (9, 10, 11, 99, 100, 101, 256) + ((1000, 1025, 4100) if c.thorough else ()):
        lines = [enc([("003@", "", [("0", b"%d" % (k % 7))]), ("012A", "", [("a", b"v%d" % (k * k % 11)), ("b", b"w")])]) for k in range(n)]
        jobs.append(j_count(rng, [lines], 0).job())
        jobs.append(j_describe(rng, [lines], 0).job())
        jobs.append(j_table(rng, [lines], 0).job())
        q = ([{"k": "path", "p": {"t": lit_tag("012A"), "o": NOOCC, "codes": [codes("a")], "has": False, "m": []}}], "012A.a")
        for _ in range(3):
            jobs.append(j_frequency(rng, [lines], 0, q=q).job())
    c.judge(jobs, kind="large-counts")
