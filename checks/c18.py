"""C18 faults: nothing is lost silently, whatever fails to be read or written."""
from rules import *
from records import *
import threading

ALL = [j_filter, j_count, j_hash, j_print, j_slice, j_split, j_partition, j_select, j_frequency, j_describe, j_explode,
       j_concat, j_convert, j_invalid]
XMLALT = "xml-occurrence"


def one_check(rng, files, p=0.3):
    """a report with one line per record and no choice of order"""
    b = B(rng, "check", files).common(p * 0.5)
    b.o.update(rs=[], txt=False, delim=44, hdr=CHECKHDR, hasre=False, res=[], hastags=False, tags=[])
    r, text = rule(rng, "R", b.extra, files, R(rng, ["filter", "isni", "iso639-2b", "jelc", "datetime"]))
    b.o["rs"] = [{"hasscope": False, "scope": [], "fast": False, "rules": [r]}]
    b.extra["rules.toml"] = text.encode()
    b.args += ["-R", "rules.toml"]
    if rng.random() < 0.5:
        b.kw["out"] = R(rng, ["o.txt", "o.tsv", "o.csv"])
        b.o["txt"], b.o["delim"] = b.kw["out"].endswith(".txt"), 9 if b.kw["out"].endswith(".tsv") else 44
    return b


def make(rng, f, files):
    if f in (j_concat, j_invalid):
        return f(rng, files)
    if f is j_convert:
        b = f(rng, files, R(rng, ["plus", "plain", "json", "binary", "import", "xml"]))
        return b
    return f(rng, files, 0.25)


def tee(rng, b):
    if b.cmd in ("filter", "concat") and rng.random() < 0.3:
        b.kw.pop("out", None)
        b.o["tee"], b.o["teename"] = True, ints(b"tee.dat")
        b.args += ["--tee", "tee.dat"]
        b.kw["tee"] = "tee.dat"
    elif b.cmd in ("filter", "slice") and rng.random() < 0.2:
        b.args.append("-g")
    return b


def measure(jobs):
    """what the outputs come to when nothing fails"""
    run_all(jobs)
    return [max([len(j.rawout)] + [sum(map(len, f["lines"])) for f in j.obs["files"]]) for j in jobs]


def with_fault(b, fault):
    if b.cmd == "check":                     # report lines of different rules have no fixed order
        assert len(b.o["rs"]) == 1
    return b.job(fault=fault, note="%s %s" % fault)


def compressed(b):
    return "-g" in b.args or "--gzip" in b.args or b.kw.get("out", "").endswith(".gz") or \
        bool(b.o.get("tpl")) and bytes(b.o["tpl"][-1]).endswith(b".gz")


def outputs(c, rng):
    # every size of the room, for one job of each command
    jobs, builders = [], []
    for f in ALL + [one_check]:
        for k in range(c.scale(2, 6)):
            while True:
                files = [corpus(rng, R(rng, [2, 3, 4]), inv=0.2) for _ in range(R(rng, [1, 2]))]
                if f is one_check:
                    files = [check_corpus(rng, 5) for _ in range(R(rng, [1, 2]))]
                if f is not j_partition or safe_values(files):
                    break
            b = make(rng, f, files)
            if b.cmd == "convert" and b.o["to"] == "xml" and any(b"/" in line for f in files for line in f):
                b = j_convert(rng, files, "json")
            builders.append(b)
    sizes = measure([b.job() for b in builders])
    for b, n in zip(builders, sizes):
        gz = compressed(b)
        rooms = range(n + 2) if n < (400 if c.thorough else 60) else sorted(set([0, 1, 2, n // 2, n - 2, n - 1, n, n + 1] + [rng.randrange(n) for _ in range(c.scale(14))]))
        for room in rooms:
            jobs.append(with_fault(b, ("fullgz" if gz else "full", room)))
            if not b.kw.get("out") and not b.kw.get("outdir") and not gz and rng.random() < 0.4:
                jobs.append(with_fault(b, ("closed", room)))
    c.judge(jobs, kind="every-room")
    # random jobs
    builders = []
    for k in range(c.scale(300)):
        f = R(rng, ALL + [one_check, j_split, j_partition])
        files = inputs(rng, inv=R(rng, [0, 0.1]), bad=0.02, n=R(rng, [2, 6, 12]))
        if f is one_check:
            files = [check_corpus(rng, 5, 0.1) for _ in range(R(rng, [1, 2]))]
        if f is j_partition and not safe_values(files):
            continue
        b = tee(rng, make(rng, f, files))
        if b.cmd != "convert" or b.o["to"] != "xml" or not any(b"/" in line for f in files for line in f):   # see C15
            builders.append(b)
    # more output than any buffer holds
    for f in (j_filter, j_concat, j_hash, j_print, j_select, j_slice, j_invalid, j_convert, j_split):
        big = [enc([("003@", "", [("0", b"%d" % k)]), ("012A", "", [("a", R(rng, WORDS).encode() + b"y" * 700)])]) for k in range(40)]
        if f is j_invalid:
            big = [b"x" * 900 + b"%d\n" % k for k in range(40)]
        builders.append(j_always(rng, [big]) if f is j_filter else j_convert(rng, [big], R(rng, ["plain", "json"])) if f is j_convert else f(rng, [big]))
    sizes = measure([b.job() for b in builders])
    jobs = []
    for b, n in zip(builders, sizes):
        gz = compressed(b)
        for room in {0, R(rng, [1, 2, 3, 10]), rng.randrange(n + 1), max(n - 1, 0), n, n + R(rng, [0, 1, 5])} if n < 5000 else (0, 100, 8191, 8192, 8193, 16384, n - 1):
            if b.kw.get("out") or b.kw.get("outdir") or gz or rng.random() < 0.5:
                jobs.append(with_fault(b, ("fullgz" if gz else "full", room)))
            else:
                jobs.append(with_fault(b, ("closed", room)))
    c.judge(jobs, kind="failing-output")
    # two places to write to, one of which fails
    builders = []
    for k in range(c.scale(60)):
        files = inputs(rng, inv=R(rng, [0, 0, 0.1]), bad=0.02, n=R(rng, [1, 2, 6, 12]))
        if k % 10 == 0:
            files = [[enc([("003@", "", [("0", b"%d" % (j // 2))]), ("012A", "", [("a", b"y" * R(rng, [700, 701]))])]) for j in range(30)]]
        b = j_concat(rng, files) if k % 3 == 0 else j_always(rng, files) if k % 3 == 1 else j_filter(rng, files, 0.2)
        b.kw.pop("out", None)
        b.o["tee"], b.o["teename"] = True, ints(b"tee.dat")
        b.args += ["--tee", "tee.dat"]
        b.kw["tee"] = "tee.dat"
        builders.append(b)
    sizes = measure([b.job() for b in builders])
    jobs = []
    for b, n in zip(builders, sizes):
        jobs.append(with_fault(b, ("mainfull", 0)))
        for room in {0, 1, rng.randrange(n + 1), max(n - 1, 0), n, n + 3}:
            jobs.append(with_fault(b, ("teefullgz" if compressed(b) else "teefull", room)))
    c.judge(jobs, kind="two-places")
    # an output that cannot be opened
    jobs = []
    for f in ALL + [one_check]:
        files = [corpus(rng, 3)]
        if f is one_check:
            files = [check_corpus(rng, 5)]
        for where_ in ("nodir/out.csv", "f0.dat/out.csv", "adir"):
            b = make(rng, f, files)
            if b.cmd in ("split", "partition"):
                if where_ != "f0.dat/out.csv":
                    continue
                k = b.args.index("-o")
                b.args[k + 1] = where_
                b.kw["outdir"] = "none"
            else:
                b.kw["out"] = where_
            if b.kw.get("gz"):
                b.kw["gz"] = []
            if where_ == "adir":
                b.extra["adir/x"] = b""
                b.kw["out"] = "adir/../adir"
            jobs.append(with_fault(b, ("noout", 0)))
    c.judge(jobs, kind="no-output")


def input_faults(c, rng):
    jobs = []
    for k in range(c.scale(220)):
        f = R(rng, ALL + [one_check])
        n = R(rng, [1, 2, 3])
        files = [corpus(rng, R(rng, [1, 3, 6]), inv=R(rng, [0, 0, 0.1])) for _ in range(n)]
        if f is one_check:
            files = [check_corpus(rng, 5, 0.05) for _ in range(n)]
        if f is j_partition and not safe_values(files):
            continue
        ends = ["eof"] * n
        at = rng.randrange(n)
        mode = R(rng, ["lost", "lost", "dir", "cut", "cut", "cut", "crc", "tail"])
        names = ["f%d.dat" % j for j in range(n)]
        torn = {}
        if mode in ("lost", "dir"):
            ends[at], files[at] = "lost", []
            if mode == "dir":
                names[at] = "dir%d" % at
        else:
            ends[at] = "torn"
            names[at] = "f%d.dat.gz" % at
            data = b"".join(files[at])
            z = gzip.compress(data, R(rng, [0, 1, 6, 9]))
            if mode == "cut":
                z = z[:rng.randrange(1, len(z))]
                have = partial_gunzip(z) if len(z) > 18 else b""
                whole = have[:have.rfind(b"\n") + 1]
                files[at] = split_lines(whole)
            elif mode == "crc":
                p = len(z) - rng.randrange(1, 9)
                z = z[:p] + bytes([z[p] ^ (1 << rng.randrange(8))]) + z[p + 1:]
            else:
                z += R(rng, [b"x", b"garbage that is no gzip\n", b"\x1f", b"\x1f\x8b", b"\x1f\x8b\x08\x00"])
            torn[at] = z
        with still():
            b = j_hash(rng, files, 0.2) if f is j_hash else make(rng, f, files)
        b.kw.pop("stdin", None)
        b.kw["gz"] = [at] if torn else []
        if b.cmd == "convert" and b.o["to"] == "xml":
            continue
        jobs.append(b.job(ends=ends, torn=torn, names=names, note=mode))
    c.judge(jobs, kind="failing-input")


def endless(c, rng):
    """a run whose output nobody reads any more, or that has all it needs, ends although its input does not"""
    lines = b"".join(enc([("003@", "", [("0", b"%d" % k)]), ("012A", "", [("a", b"x%d" % k), ("b", b"%d" % (k % 7))]),
                          ("101@", "", [("a", b"1")]), ("203@", "01", [("0", b"9")])]) for k in range(2000))
    bad = b"".join(b"bad %d\n" % k for k in range(5000))
    rules = b'[rule.R]\ncheck = "filter"\nfilter = "003@?"\n'
    S = [(["filter", "003@?"], lines), (["filter", "-v", "012B?"], lines), (["concat"], lines), (["concat", "-u", "--unique-strategy", "hash"], None), (["hash"], lines), (["print"], lines),
         (["slice"], lines), (["select", "003@.0"], lines), (["explode", "copy"], lines), (["explode", "local"], lines), (["invalid"], bad),
         (["check", "-R", "rules.toml"], lines), (["filter", "-s", "003@?"], bad + lines)] + \
        [(["convert", "--from", "plus", "--to", t], lines) for t in ("plus", "plain", "json", "xml", "binary", "import")]
    L = [(a + ["-l", "%d" % R(rng, [1, 5, 1999, 2000, 2001])], lines) for a in
         (["filter", "003@?"], ["count"], ["hash"], ["print"], ["slice"], ["select", "003@.0"], ["frequency", "012A.b"], ["sample", "3"],
          ["explode", "copy"], ["check", "-R", "rules.toml"], ["describe"], ["split", "10", "-o", "o"], ["partition", "012A.b", "-o", "o"],
          ["filter", "--and", "012A.b == '3'", "003@?"], ["count", "--where", "012A.b == '3'"])] + \
        [(["slice", "--end", "7"], lines), (["slice", "--start", "5", "--length", "3"], lines)]
    jobs = [("closed", a, d) for a, d in S if d] + [("limit", a, d) for a, d in L]

    def run(job):
        kind, args, data = job
        d = tempfile.mkdtemp(prefix="end", dir=WORK)
        try:
            with open(os.path.join(d, "rules.toml"), "wb") as h:
                h.write(rules)
            open(os.path.join(d, "c.toml"), "w").close()
            p = subprocess.Popen([BIN, "-c", "c.toml"] + args, cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)

            def feed():
                try:
                    while True:
                        p.stdin.write(data)
                except OSError:
                    pass
                finally:
                    try:
                        p.stdin.close()
                    except OSError:
                        pass
            t = threading.Thread(target=feed, daemon=True)
            t.start()
            if kind == "closed":
                p.stdout.read(10)
                p.stdout.close()
            else:
                threading.Thread(target=p.stdout.read, daemon=True).start()
            try:
                rc = p.wait(30)
            except subprocess.TimeoutExpired:
                rc = 124
            p.kill()
            p.wait()
            t.join(10)
            err = p.stderr.read()
            return rc, err
        finally:
            shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(4) as ex:
        for (kind, args, _), (rc, err) in zip(jobs, ex.map(run, jobs)):
            c.counts["endless-" + kind] = c.counts.get("endless-" + kind, 0) + 1
            c.traces += 1
            if rc != 0:
                c.violation("endless input, %s: %s ends with %d (124: not at all) %r" % (kind, " ".join(args), rc, err[:200]),
                            {"kind": kind, "args": args, "exit": rc, "stderr": repr(err[:1000])})
    c.log("%d runs over endless input" % len(jobs))


def check(c):
    rng = c.rng
    c.model("MCOutput")
    c.model("MCTee")
    c.model("MCLost")
    outputs(c, rng)
    input_faults(c, rng)
    endless(c, rng)
    small(c, rng)
    build_harness()
    sinks(c, rng)


def sinks(c, rng):
    """library calls that write, into sinks with any amount of room"""
    def case(who, texts, room, cuts=None, flushes=True, need=None):
        need = sum(map(len, texts)) if need is None else need
        cuts = cuts or R(rng, [[1], [1 << 20], [3], [2, 5]] + [[0, 2], [1, 0, 0, 7], [64, 0, 1]] * (who != "gzip"))
        return RecCase("sink", who=who, texts=[ints(t) for t in texts], room=room, cuts=cuts, flushes=flushes, fails=R(rng, FAILS), need=need)

    def texts(who, n=None):
        n = rng.randrange(1, 4) if n is None else n
        if who.endswith("subfield"):
            return [b"\x1f" + R(rng, b"a0Z").to_bytes() + value(rng).replace(b"\x1e", b"").replace(b"\x1f", b"").replace(b"\n", b"") for _ in range(n)]
        if who.endswith("field"):
            return [enc(record(rng, bad=0, nf=1)).split(b"\x1e")[0] + b"\x1e" for _ in range(n)]
        return [enc(record(rng, bad=0, nf=rng.randrange(1, 4))) for _ in range(n)]

    cases = []
    kinds = ["subfield", "ownsubfield", "field", "ownfield", "ref", "own", "byte", "bare", "string", "plain"]
    for who in kinds:                               # every room
        for t in [texts(who, 2) for _ in range(c.scale(1, 6))]:
            for room in range(0, sum(map(len, t)) + 2):
                cases.append(case(who, t, room))
    for _ in range(c.scale(600, 6000)):
        who = R(rng, kinds)
        t = texts(who, rng.randrange(0, 5))
        n = sum(map(len, t))
        cases.append(case(who, t, R(rng, [-1, 0, n - 1, n, n + 1, rng.randrange(n + 1)]), flushes=rng.random() < 0.7))
    for edge in (8192, 16384):                      # around the size of a write buffer
        for k in range(-2, 3):
            rec = b"012A \x1fa" + b"x" * (edge + k - 9) + b"\x1e\n"
            for more in ([], [b"012A \x1fab\x1e\n"]):
                n = len(rec) + sum(map(len, more))
                for room in (-1, 0, 8191, 8192, n - 1, n):
                    cases.append(case("plain", [rec] + more, room, [1 << 20]))
    judge_records(c, cases, "library-writes")
    free = []
    for _ in range(c.scale(12, 60)):
        t = texts("gzip", rng.randrange(0, 4))
        if rng.random() < 0.3:
            t += [b"012A \x1fa" + bytes(R(rng, b"abcdefghijklmnopqrstuvwxyz0123456789") for _ in range(rng.randrange(100, 3000))) + b"\x1e\n"]
        free.append(case("gzip", t, -1))
    judge_records(c, free, "library-gzip")
    cases = []
    for f in free:
        t, need = [bytes(x) for x in f.kw["texts"]], len(f.ans["got"])
        for room in sorted({0, 1, 9, 10, 11, need - 9, need - 8, need - 4, need - 1, need, need + 1} | {rng.randrange(need + 1) for _ in range(4)}):
            if room >= 0:
                cases.append(case("gzip", t, room, need=need, flushes=rng.random() < 0.8))
    judge_records(c, cases, "library-gzip")


def small(c, rng):
    """commands that write something that is not records"""
    jobs = [(["config", "skip-invalid"], b"false\n"), (["config", "--get", "normalization"], b"None\n")]
    d = tempfile.mkdtemp(prefix="sm", dir=WORK)
    try:
        open(os.path.join(d, "c.toml"), "w").close()
        full = lambda a: subprocess.run([BIN, "-c", "c.toml"] + a, cwd=d, stdout=subprocess.PIPE).stdout
        jobs += [(["completions", s], full(["completions", s])) for s in ("bash", "zsh", "fish", "elvish", "powershell")]
        with open(os.path.join(d, "f.dat"), "wb") as h:
            h.write(b"".join(corpus(rng, 20)))
        jobs.append((["describe", "f.dat"], full(["describe", "f.dat"])))
        cases = []
        for args, want in jobs:
            for kind in ("full", "closed"):
                for room in sorted({0, len(want) // 2, len(want), len(want) + 1}):
                    if kind == "closed" and 0 < room < len(want) and len(want) < 70000:
                        continue
                    j = Job("none", {}, args, [], fault=(kind, room), noinput=True)
                    p = run_faulty(j, [BIN, "-c", os.path.join(d, "c.toml")] + args, b"", d, {"PATH": "/usr/bin:/bin", "HOME": d})
                    cases.append((args, kind, room, p, {"kind": kind, "room": room, "want": ints(want), "got": ints(p.stdout), "ends": "ok", "exit": p.returncode}))
        verdicts, _, gen, dist = validate([x[4] for x in cases], "SinkTrace")
        c.states += dist
        c.trans += gen
        c.traces += len(cases)
        c.counts["other-output"] = len(cases)
        for (args, kind, room, p, _), v in zip(cases, verdicts):
            if v != "ok":
                c.violation("%s: %s with %s output after %d bytes: exit %d %r" % (v, " ".join(args), kind, room, p.returncode, p.stderr[:200]),
                            {"args": args, "kind": kind, "room": room, "exit": p.returncode, "stderr": repr(p.stderr[:1000])})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.log("%d runs of commands without records" % len(cases))
