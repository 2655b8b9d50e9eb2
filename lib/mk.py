"""Jobs: one generator per command, each giving the options the specification
reads together with the command line the program reads."""
import gzip
from gen import *

ANYTAG = [{"k": "any"}] * 4
ALWAYS = [{"k": "atom", "a": {"k": "fex", "t": ANYTAG, "o": {"k": "any"}}}]
ALWAYS_S = "..../*?"
SAFE = ["a", "b", "A", "B", "ab", "aB", "abc", "Abc", "ba", "1", "10", "007", "Goethe", "goethe", "x", "y", "0", "ü", "ß"]


def where(rng, args, o, multi=True, flag=True, n=None, depth=2):
    """--where with its companions; sets o.hasw and o.w"""
    e, s = field_expr(rng, n, depth)
    w = {"e": e, "and": [], "or": [], "not": []}
    if flag:
        args += ["--where", s]
    if multi and rng.random() < 0.35:
        k = rng.random()
        if k < 0.5:
            for _ in range(rng.randrange(1, 3)):
                x, t = field_expr(rng, R(rng, [1, 1, 2]), 1)
                w["or"].append(x)
                args += ["--or", t]
        else:
            for _ in range(rng.randrange(0, 3)):
                x, t = field_expr(rng, R(rng, [1, 1, 2]), 1)
                w["and"].append(x)
                args += ["--and", t]
            for _ in range(rng.randrange(0, 3)):
                x, t = field_expr(rng, R(rng, [1, 1, 2]), 1)
                w["not"].append(x)
                args += ["--not", t]
    o["hasw"], o["w"] = True, w
    return s


def mopts(rng, args, o):
    ci = rng.random() < 0.35
    th = R(rng, [75, 75, 75, 0, 50, 60, 80, 99, 33, 40])
    if ci:
        args.append(R(rng, ["-i", "--ignore-case"]))
    if th != 75:
        args += ["--strsim-threshold", str(th)]
    o["mo"] = {"ci": ci, "th": th}


def lists(rng, args, o, extra, files):
    """allow and deny lists"""
    src = None
    if rng.random() < 0.35:
        with raw():
            a, s = path(rng, lit=0.7, matcher=0.2)
        o["src"], src = a, s
        args += ["--filter-set-source", s]
    pools = [["%s%d%s" % (z, k, x) for k in range(1, 40) for z in ("", "0") for x in ("", "X", "7")]] if src is None else [SAFE]
    # lists that look like numbers all through
    pools.append(["%s%d%s" % (z, k, x) for k in range(1, 40) for z in ("", "0", "0") for x in ("", "7")])
    pools.append(["%d" % k for k in range(1, 40)] + ["10", "1", "0", "007", "1.0", "1e1"])
    col = R(rng, [None, None, None, "bbg"])
    if col:
        args += ["--filter-set-column", col]
    for kind, p, flag in (("allow", 0.55, "-A"), ("deny", 0.5, "-D")):
        if rng.random() > p:
            continue
        vals, o["has" + kind] = [], True
        for _ in range(1 if rng.random() < 0.7 else 2):
            f, name = [], "%s%d" % (kind, len(extra))
            n = R(rng, [0, 1, 3, 10, 40, 60])
            pool = R(rng, pools + pools[:1])
            vs = [R(rng, pool) for _ in range(n)]
            q = (lambda v: '"%s"' % v) if rng.random() < 0.2 else (lambda v: v)
            form = R(rng, ["csv", "csv", "csvx", "tsv", "txt"])
            if form == "txt" and (col or not vs):
                form = "csv"
            head = col or R(rng, ["ppn", "idn"])
            if form == "txt":
                name, data = name + ".txt", "".join(v + "\n" for v in vs)
            elif form == "tsv":
                name, data = name + ".tsv", head + "\tz\n" + "".join(q(v) + "\tq\n" for v in vs)
            elif form == "csvx":
                # a decoy: ppn wins over idn
                other = "idn" if head == "ppn" else "zz"
                name = name + ".csv"
                data = other + "," + head + "\n" + "".join("%s,%s\n" % (R(rng, pool), q(v)) for v in vs)
                if rng.random() < 0.3:      # a cell without content names nothing
                    data += "%s,\n" % R(rng, pool)
            else:
                name, data = name + ".csv", head + "\n" + "".join(q(v) + "\n" for v in vs)
            data = data.encode()
            if rng.random() < 0.15 and len(vs) > 0:
                data = data[:-1]
            if rng.random() < 0.2:
                name, data = name + ".gz", gzip.compress(data, 1)
            extra[name] = data
            args += [R(rng, [flag, "--allow-list" if kind == "allow" else "--deny-list"]), name]
            vals += vs
        o[kind] = [ints(v.encode()) for v in vals]


AIMING = [True]


@contextlib.contextmanager
def still():
    """the input stays as it is"""
    AIMING[0] = False
    try:
        yield
    finally:
        AIMING[0] = True


def aim(rng, files, asts, safe=False, n=None):
    """puts records made for the expressions between the lines of the input"""
    if not AIMING[0]:
        return
    new = focus(rng, asts, n if n is not None else R(rng, [0, 1, 2, 3, 4]))
    if safe:
        new = [l for l in new if safe_values([[l]])]
    files = [f for f in files if f]
    for l in new if files else []:
        f = R(rng, files)
        f.insert(rng.randrange(len(f)), l)


def preds(rng, n=None):
    """--keep / --discard predicate lists"""
    xs, ss = [], []
    for _ in range(n or rng.randrange(1, 4)):
        t, ts = tagm(rng)
        o, os_ = occm(rng)
        xs.append({"t": t, "o": o})
        ss.append(ts + os_)
    return xs, R(rng, [",", ", ", " , "]).join(ss) + R(rng, ["", "", ","])


def keepdisc(rng, args, o, p=0.4):
    if rng.random() < p:
        o["keep"], s = preds(rng)
        args += [R(rng, ["-k", "--keep"]), s]
    if rng.random() < p:
        o["disc"], s = preds(rng)
        args += [R(rng, ["-d", "--discard"]), s]


def common(rng, args, o, extra, files, p=0.5, skip=None, n=None, safe=False):
    """the options every selecting command shares"""
    if skip if skip is not None else rng.random() < 0.7:
        o["skip"] = True
        args.append(R(rng, ["-s", "--skip-invalid"]))
    if rng.random() < p * 0.7:
        o["limit"] = R(rng, [1, 1, 2, 3, 5, 50])
        args += [R(rng, ["-l", "--limit"]), str(o["limit"])]
    elif rng.random() < 0.1:
        args += ["-l", "0"]
    if rng.random() < p:
        mopts(rng, args, o)
    if rng.random() < p:
        where(rng, args, o, n=n)
        aim(rng, files, o["w"], safe)
    if rng.random() < p * 0.6:
        lists(rng, args, o, extra, files)


def inputs(rng, nfiles=None, n=None, inv=None, bad=0.05, **kw):
    k = nfiles or R(rng, [1, 1, 1, 2, 3])
    inv = R(rng, [0, 0, 0.15, 0.4]) if inv is None else inv
    return [corpus(rng, n if n is not None else R(rng, [0, 1, 3, 5, 8]), inv=inv, bad=bad, **kw) for _ in range(k)]


class B:
    """the job under construction"""

    def __init__(self, rng, cmd, files, args0=None):
        files = [split_lines(b"".join(f)) for f in files]
        self.rng, self.cmd, self.files = rng, cmd, files
        self.args, self.o, self.extra = [cmd], base(), {}
        self.post = list(args0 or [])
        self.kw = {}

    def common(self, p=0.5, skip=None, n=None):
        common(self.rng, self.args, self.o, self.extra, self.files, p, skip, n, self.cmd == "partition")
        return self

    def io(self, p=0.3, stdin=True):
        """input via stdin, gzip files, output to a file"""
        r = self.rng
        if stdin and r.random() < p * 0.5:
            self.kw["stdin"] = True
        elif r.random() < p:
            self.kw["gz"] = [k for k in range(len(self.files)) if r.random() < 0.5]
        if r.random() < p and "out" not in self.kw:
            self.kw["out"] = "out.dat"
        return self

    def job(self, **kw):
        k = dict(self.kw)
        k.update(kw)
        return Job(self.cmd, self.o, self.args + self.post, self.files, extra=self.extra, **k)


def j_filter(rng, files, p=0.5, n=None, depth=2, io=0.2):
    b = B(rng, "filter", files)
    b.common(p * 0.6)
    if b.o["hasw"]:          # --where is not an option of filter
        b.o["hasw"], b.o["w"] = False, base()["w"]
        b.args = strip_where(b.args)
    s = where(rng, b.args, b.o, flag=False, n=n, depth=depth)
    if p:
        aim(rng, b.files, b.o["w"])
    if rng.random() < 0.25:
        b.o["inv"] = True
        b.args.append(R(rng, ["-v", "--invert-match"]))
    keepdisc(rng, b.args, b.o, 0.2 * p * 2)
    b.post = [s]
    return b.io(io)


def strip_where(args):
    out, k = [], 0
    while k < len(args):
        if args[k] in ("--where", "--and", "--or", "--not"):
            k += 2
        else:
            out.append(args[k])
            k += 1
    return out


def j_always(rng, files, skip=True, **o):
    b = B(rng, "filter", files)
    b.o["hasw"], b.o["w"] = True, {"e": ALWAYS, "and": [], "or": [], "not": []}
    if skip:
        b.o["skip"] = True
        b.args.append("-s")
    b.post = [ALWAYS_S]
    return b


def j_concat(rng, files, uniq=None):
    b = B(rng, "concat", files)
    if rng.random() < 0.7:
        b.o["skip"] = True
        b.args.append("-s")
    b.o["uniq"] = rng.random() < 0.6 if uniq is None else uniq
    b.o["strategy"] = "idn"
    if b.o["uniq"]:
        b.args.append(R(rng, ["-u", "--unique"]))
        if rng.random() < 0.6:
            b.o["strategy"] = R(rng, ["idn", "hash"])
            b.args += ["--unique-strategy", b.o["strategy"]]
    return b


WORDS3 = [ints(x) for x in (b"records", b"fields", b"subfields")]


def j_count(rng, files, p=0.5):
    b = B(rng, "count", files).common(p)
    m = R(rng, ["plain", "records", "fields", "subfields", "csv", "tsv"])
    b.o.update(mode=m, words=WORDS3, hdr=True, delim=9 if m == "tsv" else 44)
    if m != "plain":
        b.args.append("--" + m)
    if m in ("csv", "tsv") and rng.random() < 0.4:
        b.o["hdr"] = False
        b.args.append("--no-header")
    return b.io(0.2)


def header(rng, b, cols):
    h = [R(rng, ["ppn", "a", "x y", "b\"q", "c", "1", "ü"]) for _ in range(cols)]
    b.o["hashdr"], b.o["hdr"] = True, [ints(x.encode()) for x in h]
    b.args += [R(rng, ["-H", "--header"]), R(rng, [",", ", "]).join(h)]


def tsv(rng, b):
    b.o["delim"] = 44
    if rng.random() < 0.35:
        b.o["delim"] = 9
        b.args.append(R(rng, ["-t", "--tsv"]))


def j_hash(rng, files, p=0.5):
    b = B(rng, "hash", files).common(p)
    b.o.update(hashdr=True, hdr=[ints(b"ppn"), ints(b"hash")], quote="necessary",
               sha=[[ints(hashlib.sha256(l).hexdigest().encode()) for l in f] for f in b.files])
    if rng.random() < 0.4:
        header(rng, b, 2)
    tsv(rng, b)
    return b.io(0.2)


NFS = {"nfc": "NFC", "nfkc": "NFKC", "nfd": "NFD", "nfkd": "NFKD"}


def rowcells_nf(form, strings):
    """normalisation table for the strings that can be asked for"""
    out, seen = [], set()
    for s in strings:
        if s in seen:
            continue
        seen.add(s)
        b = unicodedata.normalize(form, s)
        if b != s:
            out.append({"a": ints(s.encode()), "b": ints(b.encode())})
    return out


def lossy_values(files):
    for f in files:
        for l in f:
            for fld in l.split(RS):
                for sub in fld.split(US)[1:]:
                    yield sub[1:].decode("utf-8", "replace")


def j_print(rng, files, p=0.5):
    b = B(rng, "print", files).common(p)
    b.o["nf"] = []
    if rng.random() < 0.5:
        nf = R(rng, sorted(NFS))
        b.args += ["--translit", nf]
        b.o["nf"] = rowcells_nf(NFS[nf], lossy_values(b.files))
    return b.io(0.2)


def j_slice(rng, files, p=0.3):
    b = B(rng, "slice", files).common(p)
    b.o.update(start=0, end=0, length=0)
    if rng.random() < 0.8:
        b.o["start"] = R(rng, [0, 1, 1, 2, 3, 5, 9])
        b.args += ["--start", str(b.o["start"])]
    m = rng.random()
    if m < 0.4:
        b.o["end"] = R(rng, [1, 2, 3, 4, 6, 20])
        b.args += ["--end", str(b.o["end"])]
    elif m < 0.8:
        b.o["length"] = R(rng, [1, 1, 2, 3, 4, 30])
        b.args += ["--length", str(b.o["length"])]
    return b.io(0.2)


def tpl(rng, b, flags, gzipped, single=False):
    """a file name template, as the texts around its placeholders"""
    t = ["", ".dat.gz" if gzipped else ".dat"]
    if rng.random() < 0.5:
        t = R(rng, [["p_", ".pp"], ["a-", ""], ["", "_z.dat"], ["ä", ".x"], ["", ""], ["", "-", ".dat"], ["{", "}"],
                    ["", "", ""], ["x", ".", ".", ".gz"]] + ([["all.dat"]] if single else []))
        b.args += [R(rng, flags), "{}".join(t)]
    b.o["tpl"] = [ints(x.encode()) for x in t]


def j_split(rng, files, p=0.3):
    b = B(rng, "split", files).common(p)
    size = R(rng, [1, 1, 2, 3, 4, 100])
    g = rng.random() < 0.2
    if g:
        b.args.append("-g")
    b.o["size"] = size
    tpl(rng, b, ["--template"], g)
    b.args += ["-o", "outd"]
    b.post = [str(size)]
    b.kw["outdir"] = "outd"
    b.io(0.2)
    b.kw.pop("out", None)
    return b


def safe_values(files):
    """values that lead out of the directory of the job in no program"""
    return all(not v.startswith("/") and v.count("..") < 2 for v in lossy_values(files))


def j_partition(rng, files, p=0.3):
    b = B(rng, "partition", files).common(p)
    g = rng.random() < 0.2
    if g:
        b.args.append("-g")
    with raw():
        b.o["path"], s = path(rng, lit=0.6)
    if p:
        aim(rng, b.files, b.o["path"], True)
    tpl(rng, b, ["-t", "--template"], g, True)
    b.args += ["-o", "outd"]
    b.post = [s]
    b.kw["outdir"] = "outd"
    b.io(0.2)
    b.kw.pop("out", None)
    return b


def qopts(rng, b):
    sep = "|"
    m = rng.random()
    sq, mg = m < 0.3, 0.3 <= m < 0.6
    if sq:
        b.args.append("--squash")
    if mg:
        b.args.append("--merge")
    if rng.random() < 0.3:
        sep = R(rng, ["|", ";", ", ", "", "\"", "--", "ü"])
        b.args += ["--separator=" + sep]
    b.o["qo"] = {"squash": sq, "merge": mg, "sep": ints(sep.encode()), "ci": b.o["mo"]["ci"], "th": b.o["mo"]["th"]}


def ncols(q):
    return sum(len(x["p"]["codes"]) if x["k"] == "path" else 1 for x in q)


def all_strings(files, q):
    for v in lossy_values(files):
        yield v
    for x in q:
        if x["k"] == "lit":
            yield bytes(x["v"]).decode()


def j_select(rng, files, p=0.4, q=None, nf=True):
    b = B(rng, "select", files).common(p)
    q, s = q or query(rng)
    if p:
        aim(rng, b.files, q)
    b.o.update(q=q, noempty=False, uniq=False, quote="necessary", hashdr=False, hdr=[], hasnf=False, nf=[])
    qopts(rng, b)
    tsv(rng, b)
    for flag, key, pr in ((["--no-empty-columns"], "noempty", 0.25), (["-u", "--unique"], "uniq", 0.3)):
        if rng.random() < pr:
            b.o[key] = True
            b.args.append(R(rng, flag))
    if rng.random() < 0.3:
        b.o["quote"] = R(rng, ["always", "necessary", "never", "non-numeric"])
        b.args += ["--quote-style", b.o["quote"]]
    if rng.random() < 0.3:
        header(rng, b, ncols(q) if rng.random() < 2 else 1)
    if nf and rng.random() < 0.2 and not b.o["qo"]["squash"] and not b.o["qo"]["merge"] \
            and all(x["k"] != "fmt" for x in q):
        form = R(rng, sorted(NFS))
        b.args += ["--translit", form]
        b.o["hasnf"] = True
        b.o["nf"] = rowcells_nf(NFS[form], all_strings(b.files, q))
    b.post = [s]
    return b.io(0.2)


def j_frequency(rng, files, p=0.4, q=None):
    b = B(rng, "frequency", files).common(p)
    q, s = q or query(rng, R(rng, [1, 1, 1, 2, 2]))
    if p:
        aim(rng, b.files, q)
    b.o.update(q=q, uniq=False, rev=False, num=0, threshold=0, hashdr=False, hdr=[], nf=[])
    qopts(rng, b)
    tsv(rng, b)
    for flag, key, pr in ((["-u", "--unique"], "uniq", 0.3), (["-r", "--reverse"], "rev", 0.35)):
        if rng.random() < pr:
            b.o[key] = True
            b.args.append(R(rng, flag))
    if rng.random() < 0.35:
        b.o["num"] = R(rng, [1, 2, 3, 5, 100])
        b.args += ["-n", str(b.o["num"])]
    if rng.random() < 0.35:
        b.o["threshold"] = R(rng, [1, 2, 2, 3, 5])
        b.args += ["--threshold", str(b.o["threshold"])]
    if rng.random() < 0.3:
        header(rng, b, ncols(q) + 1)
    if rng.random() < 0.2 and not b.o["qo"]["squash"] and not b.o["qo"]["merge"] \
            and all(x["k"] != "fmt" for x in q):
        form = R(rng, sorted(NFS))
        b.args += ["--translit", form]
        b.o["nf"] = rowcells_nf(NFS[form], all_strings(b.files, q))
    b.post = [s]
    return b.io(0.2)


def j_describe(rng, files, p=0.4):
    b = B(rng, "describe", files).common(p)
    keepdisc(rng, b.args, b.o, 0.25)
    t = rng.random() < 0.5
    b.o["delim"] = 9 if t else 44
    b.io(0.2)
    b.kw["out"], more = R(rng, [("out.tsv", []), ("out.tsv", []), ("out.csv", ["-t"]), ("o.dat", ["--tsv"]), ("x.tsv", ["--tsv"])] if t else
                          [("out.csv", []), ("out.csv", []), ("out.tsv", ["-c"]), ("o.dat", ["--csv"]), ("x.csv", ["--csv"])])
    b.args += more
    return b


def untable(job, d):
    """reads the table `describe` prints as lines of CSV"""
    text = b"".join(bytes(x) for x in job.obs["out"]).decode(errors="replace")
    lines = text.split("\n")
    if job.obs["exit"] == 0 and len(lines) > 3 and lines[0][:1] == "\u250c" and lines[2][:1] == "\u255e" and lines[-2][:1] == "\u2514" and not lines[-1]:
        rows = [lines[1]] + lines[3:-2]
        cells = [[x.strip() for x in r.strip("\u2502").split("\u2506")] for r in rows]
        job.obs["out"] = [ints((",".join(r) + "\n").encode()) for r in cells]


def j_table(rng, files, p=0.4):
    """`describe` printing a table (one that is small enough not to be cut)"""
    b = j_describe(rng, files, p)
    while b.kw.pop("out", None) or b.args[-1] in ("-c", "-t", "--csv", "--tsv"):
        if b.args[-1] in ("-c", "-t", "--csv", "--tsv"):
            b.args.pop()
    b.o["delim"] = 44
    cs = {x for f in b.files for x in re.findall(rb"\x1f(.)", b"".join(f), re.S)}
    tags = {x for f in b.files for x in re.findall(rb"(?:^|[\n\x1e])(....)", b"".join(f))}
    if len(cs) <= 9 and len(tags) <= 45:
        b.kw["obs_hook"] = untable
    else:
        b.kw["out"] = "o.csv"
    return b


def levels_record(rng, maxm=4, maxl=3, maxc=4):
    """fields in the order a level-structured record has: main (local copy*)*"""
    rec = []
    for _ in range(rng.randrange(0, maxm)):
        rec.append(field(rng, tag=R(rng, ["002@", "012A", "021A", "045E"]), maxsub=2, occ=R(rng, ["", "", "00", "01"])))
    if rng.random() < 0.85:
        rec.insert(0, ("003@", "", [("0", ppn(rng).encode())]))
    for _ in range(rng.randrange(0, maxl)):
        for _ in range(rng.randrange(0, 3)):
            rec.append(field(rng, tag=R(rng, ["101@", "144Z", "145S"]), maxsub=2, occ=R(rng, ["", "", "", "01"])))
        for k in range(rng.randrange(0, maxc)):
            o = "%02d" % (k + 1) if rng.random() < 0.85 else R(rng, ["", "01", "001", "00"])
            for _ in range(rng.randrange(1, 3)):
                rec.append(field(rng, tag=R(rng, ["201B", "203@", "208@", "209A"]), maxsub=2, occ=o))
    if not rec:
        rec.append(("003@", "", [("0", b"1")]))
    return rec


def level_corpus(rng, n, inv=0.0):
    return [badline(rng) if rng.random() < inv else enc(levels_record(rng)) for _ in range(n)]


def j_explode(rng, files, p=0.4):
    b = B(rng, "explode", files).common(p)
    keepdisc(rng, b.args, b.o, 0.25)
    b.o["level"] = R(rng, ["main", "local", "local", "copy", "copy"])
    if rng.random() < 0.15:
        b.args.append("-g")
    b.post = [b.o["level"]]
    return b.io(0.2)


def j_sample(rng, files, p=0.3):
    b = B(rng, "sample", files).common(p)
    b.o["size"] = R(rng, [1, 2, 3, 5, 20])
    b.post = [str(b.o["size"])]
    if rng.random() < 0.5:
        b.args += ["--seed", str(rng.randrange(1000))]
    return b.io(0.2)


XML = {
    "head": b'<?xml version="1.0" encoding="UTF-8"?>\n<collection targetNamespace="info:srw/schema/5/picaXML-v1.0" '
            b'xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns="info:srw/schema/5/picaXML-v1.0">',
    "recOpen": b"\n    <record>", "fieldOpen": b'\n        <datafield tag="', "occ": b' occurrence="',
    "subOpen": b'\n            <subfield code="', "subClose": b"</subfield>", "fieldClose": b"\n        </datafield>",
    "fieldCloseEmpty": b"\n        </datafield>", "recClose": b"\n    </record>", "tail": b"\n</collection>",
}


def j_convert(rng, files, to=None):
    b = B(rng, "convert", files)
    if rng.random() < 0.7:
        b.o["skip"] = True
        b.args.append("-s")
    to = to or R(rng, ["plus", "plain", "json", "binary", "import"])     # xml: C15 asks for it
    b.o.update(to=to, withocc=True, x={k: ints(v) for k, v in XML.items()})
    b.args += ["--from", "plus", "--to", to]
    if to == "xml":
        b.kw["alts"] = {"xml-occurrence": {"withocc": False}}
    return b.io(0.2)


def j_invalid(rng, files):
    return B(rng, "invalid", files).io(0.2)
