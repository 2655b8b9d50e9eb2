"""C10 concat: everything once, in order; --unique, --append, --tee, --gzip."""
from mk import *
import big
import itertools


def out_opts(rng, b):
    """--append, --gzip, --output and --tee as far as the command has them"""
    has_g = b.cmd in ("filter", "slice")
    append = rng.random() < 0.45
    g = has_g and not append and rng.random() < 0.4
    z = ".gz" if b.cmd not in ("select", "count") and rng.random() < 0.35 else ""
    tee = b.cmd in ("filter", "concat") and rng.random() < 0.35
    out = not (tee and b.cmd == "filter") and rng.random() < 0.75
    pre = {}
    if g:
        b.args.append(R(rng, ["-g", "--gzip"]))
    if append:
        b.args.append("--append")
    if out:
        b.kw["out"] = "out.dat" + z
        pre[b.kw["out"]] = 1
    if tee:
        t = "tee.dat" + z
        b.o["tee"], b.o["teename"] = True, ints(t.encode())
        b.args += ["--tee", t]
        b.kw["tee"] = t
        pre[t] = 1
    if append and pre and rng.random() < 0.8:
        old = b"".join(l for l in corpus(rng, rng.randrange(0, 4)))
        b.kw["before"] = split_lines(old)
        b.kw["pre"] = {n: gzip.compress(old, 1) if n.endswith(".gz") else old for n in pre}
    elif not append and rng.random() < 0.3:
        b.kw["pre"] = {n: b"old contents\n" * 50 for n in pre}
    return b


def check(c):
    rng = c.rng
    c.judge(big.concats(random.Random(c.seed), c), kind="scale")
    c.model("MCPipeline", "MCConcat")
    # every small multiset of identifiers, in one or two files, both strategies
    R1 = lambda k, x: enc([("003@", "", [("0", k)]), ("012A", "", [("a", x)])])
    alpha = [R1(b"1", b"x"), R1(b"1", b"y"), R1(b"2", b"x"), enc([("012A", "", [("a", b"x")])]), enc([("003@", "", [("0", b"")])]), b"bad\n"]
    jobs = []
    for n in range(0, 4):
        for s in itertools.product(alpha, repeat=n):
            if n == 3 and not c.thorough and rng.random() < 0.5:
                continue
            k = rng.randrange(n + 1)
            files = [list(s)] if rng.random() < 0.5 else [list(s[:k]), list(s[k:])]
            b = B(rng, "concat", files)
            b.o.update(skip=True, uniq=True, strategy=R(rng, ["idn", "hash"]))
            b.args += ["-s", R(rng, ["-u", "--unique"]), "--unique-strategy", b.o["strategy"]]
            jobs.append(b.job())
    c.judge(jobs, kind="unique-small")
    jobs = []
    for _ in range(c.scale(200)):
        files = inputs(rng, nfiles=R(rng, [1, 2, 3, 5]), n=R(rng, [2, 5, 10]), inv=R(rng, [0, 0.1]), bad=0.05)
        if rng.random() < 0.5:      # duplicates, near and far
            pool = [l for f in files for l in f] or [b"x\n"]
            for f in files:
                for _ in range(3):
                    f.insert(rng.randrange(len(f) + 1), R(rng, pool))
        b = j_concat(rng, files)
        if rng.random() < 0.5:
            b.kw["gz"] = [k for k in range(len(files)) if rng.random() < 0.5]
        jobs.append(out_opts(rng, b).job())
        b = j_filter(rng, files, 0.3)
        b.kw.pop("out", None)
        jobs.append(out_opts(rng, b).job())
        if rng.random() < 0.5:
            b = R(rng, [j_slice, j_select, lambda r, f: j_count(r, f, 0.3)])(rng, files)
            b.kw.pop("out", None)
            jobs.append(out_opts(rng, b).job())
    c.judge(jobs, kind="outputs")
    # identifiers that are nearly the same, or not the first of their record
    jobs = []
    ids = [b"1", b"01", b"1 ", b" 1", b"12X", b"12x", b"\xff", b"\xfe", b"\xef\xbf\xbd", b"\xc3\xa9", b"e\xcc\x81", b"\xc3\x89", b"", b"1\0", b"1\t",
           b"9" * 60, b"9" * 60 + b"8"]
    for _ in range(c.scale(40)):
        files = []
        for _ in range(R(rng, [1, 2, 3])):
            f = []
            for _ in range(R(rng, [4, 8, 16])):
                fs = [("003@", R(rng, ["", "", "", "", "01", "00"]), [(R(rng, "0000a"), R(rng, ids)) for _ in range(R(rng, [1, 1, 1, 2]))])
                      for _ in range(R(rng, [1, 1, 1, 2]))]
                if rng.random() < 0.3:
                    fs.insert(rng.randrange(len(fs) + 1), ("003U", "", [("0", R(rng, ids))]))
                f.append(enc(fs))
            files.append(f)
        b = B(rng, "concat", files)
        b.o.update(uniq=True, strategy=R(rng, ["idn", "idn", "hash"]))
        b.args += ["-u", "--unique-strategy", b.o["strategy"]]
        jobs.append(b.job())
    c.judge(jobs, kind="identifiers")
    # several runs appending to one file, plain and compressed, then read back
    c.judge(histories(c), kind="append-histories")


def histories(c):
    """the final file of a sequence of appending runs is the concatenation of what each run writes"""
    rng, jobs = c.rng, []
    for _ in range(c.scale(25)):
        name = R(rng, ["o.dat", "o.dat.gz"])
        d = tempfile.mkdtemp(prefix="hist", dir=WORK)
        parts = []
        for k in range(rng.randrange(2, 5)):
            f = corpus(rng, rng.randrange(0, 4))
            parts.append(f)
            open(os.path.join(d, "i.dat"), "wb").write(b"".join(f))
            cmd = [BIN, "-c", os.path.join(d, "c.toml"), "concat", "--append", "i.dat", "-o", name]
            if rng.random() < 0.4:
                cmd = [BIN, "-c", os.path.join(d, "c.toml"), "filter", "--append", ALWAYS_S, "i.dat", "-o", name]
            open(os.path.join(d, "c.toml"), "w").write("skip-invalid = false\n")
            subprocess.run(cmd, cwd=d, check=False, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        data = b""
        if os.path.exists(os.path.join(d, name)):
            data = open(os.path.join(d, name), "rb").read()
        shutil.rmtree(d)
        # the history is the concatenation; reading the result back is one more run
        b = B(rng, "concat", [[l for p in parts for l in p]])
        b.o.update(uniq=False, strategy="idn")
        b.args += ["r.dat.gz" if name.endswith("gz") else "r.dat"]
        b.extra["r.dat.gz" if name.endswith("gz") else "r.dat"] = data
        b.kw["noinput"] = True
        jobs.append(b.job(note="history of %d appending runs" % len(parts)))
    return jobs
