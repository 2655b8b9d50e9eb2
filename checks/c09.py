"""C09 partition and split."""
from mk import *
import big
import itertools


def check(c):
    rng = c.rng
    c.judge(big.files(random.Random(c.seed), c), kind="scale")
    c.model("MCPipeline", "MCFiles")
    jobs = []
    # split: every size against every number of records, with limits and invalid lines between
    recs = [enc([("003@", "", [("0", b"%d" % k)])]) for k in range(12)]
    for n in range(0, 10 if c.thorough else 8):
        for size in range(1, 6):
            files = [recs[:n]] if rng.random() < 0.6 else [recs[:n // 2], recs[n // 2:n]]
            if rng.random() < 0.4:
                files[0] = list(files[0])
                files[0].insert(rng.randrange(len(files[0]) + 1), b"bad\n")
            b = B(rng, "split", files)
            b.o.update(skip=True, size=size)
            b.args.append("-s")
            if rng.random() < 0.4:
                b.o["limit"] = rng.randrange(1, 8)
                b.args += ["-l", str(b.o["limit"])]
            g = rng.random() < 0.25
            if g:
                b.args.append(R(rng, ["-g", "--gzip"]))
            tpl(rng, b, ["--template"], g)
            b.args += [R(rng, ["-o", "--outdir"]), "outd"]
            b.post = [str(size)]
            b.kw["outdir"] = "outd"
            jobs.append(b.job())
    for _ in range(c.scale(90)):
        jobs.append(j_split(rng, inputs(rng, n=R(rng, [3, 8, 12])), 0.4).job())
    c.judge(jobs, kind="split")
    jobs = []
    # partition: records with none, one, several and repeated values
    for _ in range(c.scale(330)):
        files = [[enc(record(rng, 0, tags=["012A", "012A", "013D", "028A"], codes="ab0")) if rng.random() < 0.93 else b"bad\n" for _ in range(R(rng, [2, 5, 9]))]
                 for _ in range(R(rng, [1, 1, 2]))]
        if not safe_values(files):
            continue
        b = j_partition(rng, files, R(rng, [0, 0, 0.5]))
        if "skip" in b.o and not b.o["skip"]:
            b.o["skip"] = True
            b.args.append("-s")
        if rng.random() < 0.6:
            b.o["path"], s = R(rng, [lambda: path(rng, 0.9, 0.2, ["012A", "013D"], "ab0"),
                                     lambda: ({"t": lit_tag("012A"), "o": NOOCC, "codes": [codes("a")], "has": False, "m": []}, "012A.a"),
                                     lambda: ({"t": lit_tag("012A"), "o": {"k": "any"}, "codes": [codes("*")], "has": False, "m": []}, "012A/*.*")])()
            b.post = [s]
        jobs.append(b.job())
    # values that are equal but for case or normalisation are different values
    for _ in range(c.scale(20)):
        vs = ["a", "A", "ä", "a\u0308", "b", " a", "a ", "aa", ".", "-"][1:]
        files = [[enc([("003@", "", [("0", b"%d" % k)]), ("028A", "", [("a", R(rng, vs).encode()) for _ in range(rng.randrange(0, 4))])]) for k in range(10)]]
        b = B(rng, "partition", files)
        b.o["path"] = {"t": lit_tag("028A"), "o": NOOCC, "codes": [codes("a")], "has": False, "m": []}
        b.o["tpl"] = [ints(b"p_"), ints(b".x")]
        b.args += ["-t", "p_{}.x", "-o", "outd"]
        b.post = ["028A.a"]
        b.kw["outdir"] = "outd"
        jobs.append(b.job())
    # values that are hardly names: not UTF-8, equal but for that, with a slash, too long, dots
    for k in range(c.scale(60)):
        vs = [b"\xff", b"\xfe", b"a\xff", b"a\xc3", b"\xc3\xa4", b"\xef\xbf\xbd", b"x", b"x y", b"*", b"{}", b"a.gz", b"-", b"~", b".", b"..", b"",
              b"n" * 240, b"n" * 241]
        odd = [b"a/b", b"../x", b"x/", b"./x", b"a\0b", b"m" * 256, b"m" * 252, b"a/../b"]
        files = [[enc([("003@", "", [("0", b"%d" % k)]), ("028A", "", [("a", R(rng, vs if rng.random() < 0.95 else odd)) for _ in range(rng.randrange(0, 3))])])
                  for k in range(R(rng, [3, 6, 12]))]]
        b = B(rng, "partition", files)
        b.o["path"] = {"t": lit_tag("028A"), "o": NOOCC, "codes": [codes("a")], "has": False, "m": []}
        if rng.random() < 0.3:
            b.o["limit"] = rng.randrange(1, 8)
            b.args += ["-l", str(b.o["limit"])]
        g = rng.random() < 0.25
        if g:
            b.args.append("-g")
        tpl(rng, b, ["-t", "--template"], g, True)
        b.args += ["-o", "outd"]
        b.post = ["028A.a"]
        b.kw["outdir"] = "outd"
        jobs.append(b.job())
    # many open files at once, values interleaved
    for n in (40, 130) if not c.thorough else (40, 130, 300, 600):
        files = [[enc([("003@", "", [("0", b"%d" % (k % n))])]) for k in range(2 * n)]]
        b = B(rng, "partition", files)
        b.o["path"] = PPN_PATH
        b.o["tpl"] = [[], ints(b".dat")]
        b.args += ["-o", "outd"]
        b.post = ["003@.0"]
        b.kw["outdir"] = "outd"
        jobs.append(b.job())
    c.judge(jobs, kind="partition")
