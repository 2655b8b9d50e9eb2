"""C23 command lines: a refused one changes nothing, any other writes what it names."""
from mk import *
from pica import *

RECORD = enc([("003@", "", [("0", b"1")]), ("012A", "", [("a", b"1"), ("b", b"x")]), ("101@", "", [("a", b"7")]), ("203@", "01", [("0", b"2")])])
FILES = {
    "in.dat": RECORD, "list.csv": b"ppn\n1\n", "expr.txt": b"003@?\n", "badexpr.txt": b"003@ ==\n", "bad.toml": b"= 1\n",
    "rules.toml": b'[rule.A]\nid = "A"\ncheck = "filter"\nfilter = "003@?"\n',
    "badrule.toml": b'[rule.A]\nid = "A"\ncheck = "filter"\nfilter = "003@ =="\n',
    "out.old": b"kept\n", "tee.old": b"kept\n", "dir/keep.txt": b"kept\n", "dir/0.dat": b"kept\n", "0.dat": b"kept\n", "keep.txt": b"kept\n",
}
LONG = {"-s": "--skip-invalid", "-l": "--limit", "-i": "--ignore-case", "-A": "--allow-list", "-D": "--deny-list", "-p": "--progress",
        "-R": "--rule-set", "-o": "--output", "-u": "--unique", "-f": "--from", "-k": "--keep", "-d": "--discard", "-g": "--gzip",
        "-v": "--invert-match", "-F": "--file", "-H": "--header", "-c": "--csv", "-a": "--append", "-t tags": "--tags",
        "-t format": "--to", "-r records": "--records", "-o dir": "--outdir", "-t template": "--template", "-t": "--tsv"}


def invocations():
    rc, out = tlc("MCUsage", env={"EMIT": "1"}, workers=1)
    if rc != 0:
        raise ToolError(out[-2000:])
    res = []
    for m in re.finditer(r'^<<\s*"I",(.*?)>>\s*$', out, re.M | re.S):
        t = json.loads("[" + m.group(1).replace("<<>>", "[]").replace("<<", "[").replace(">>", "]") + "]")
        res.append({"cmd": t[0], "word": t[1], "opts": [{"o": a, "v": b} for a, b in t[2]], "lead": t[3]})
    if len(res) < 5000:
        raise ToolError("only %d invocations" % len(res))
    return res


def spell(rng, cmd, o):
    """an option as it is written, long or short"""
    short = o.split()[0]
    if o == "-r":
        return R(rng, [short, "--rule" if cmd == "check" else "--reverse"])
    if o not in OWN[cmd]:
        return short           # its long form may be something else here
    return R(rng, [short, LONG.get(o, short)])


class Usage:
    def __init__(self, rng, inv):
        self.inv, cmd = inv, inv["cmd"]
        flags = {"-s", "-i", "-p", "-v", "-g", "-u", "-a", "-c", "-t", "-r records", "--append", "--fields", "--subfields", "--csv", "--tsv",
                 "--no-header", "--squash", "--merge", "--no-empty-columns"} | ({"-r"} if cmd == "frequency" else set())
        parts = []
        for x in inv["opts"]:
            s = spell(rng, cmd, x["o"])
            if x["o"] in flags or (x["v"] == "" and x["o"] not in VALUED):
                parts.append([s])
            elif s.startswith("--") and rng.random() < 0.5:
                parts.append([s + "=" + x["v"]])
            else:
                parts.append([s, x["v"]])
        given = {x["o"] for x in inv["opts"]}
        pos = [] if cmd == "filter" and "-F" in given else [[a] for a in inv["lead"]]
        files = [] if cmd == "completions" else [["in.dat"]]
        self.stdin = bool(files) and rng.random() < 0.2 and bool(pos or "-F" not in given) and (bool(pos) or not lead(cmd))
        if self.stdin:
            files = R(rng, [[], [["-"]]])
        if lead(cmd) and not pos and not (cmd == "filter" and "-F" in given):
            files = []             # nothing may be taken for the missing argument
        # the options stand anywhere between the arguments
        words, pos = list(parts), pos + files
        rng.shuffle(words)
        for p in pos:
            words.insert(rng.randint(0, len(words)), None)
        it = iter(pos)
        self.args = ["".join(inv["word"])] + [w for x in words for w in (next(it) if x is None else x)]

    def run(self):
        d = tempfile.mkdtemp(prefix="use", dir=WORK)
        try:
            for n, data in FILES.items():
                os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
                with open(os.path.join(d, n), "wb") as h:
                    h.write(data)
            home = tempfile.mkdtemp(prefix="home", dir=WORK)
            try:
                env = {"PATH": os.environ.get("PATH", ""), "HOME": home, "POLARS_MAX_THREADS": "1", "RUST_BACKTRACE": "0"}
                p = run_bounded([BIN] + self.args, RECORD if self.stdin else b"", d, env)
                left = sum(len(f) for _, _, f in os.walk(home))
            finally:
                shutil.rmtree(home, ignore_errors=True)
            now = {}
            for root, _, fs in os.walk(d):
                for f in fs:
                    path = os.path.join(root, f)
                    with open(path, "rb") as h:
                        now[os.path.relpath(path, d)] = h.read()
            dirs = [os.path.relpath(os.path.join(root, x), d) for root, ds, _ in os.walk(d) for x in ds]
            self.obs = {"exit": p.returncode, "said": bool(p.stdout), "gone": sorted(set(FILES) - set(now)),
                        "changed": sorted(n for n in now if now[n] != FILES.get(n)) + ["home/"] * bool(left)
                        + (sorted(x for x in dirs if x not in ("dir", "new", "new/sub")) if p.returncode == 0 else sorted(set(dirs) - {"dir"})),
                        "present": sorted(now)}
            self.err = p.stderr.decode(errors="replace")
            return self
        finally:
            shutil.rmtree(d, ignore_errors=True)


VALUED, OWN = set(), {}
LEADS = {"explode", "frequency", "select", "partition", "sample", "split", "filter", "completions"}


def lead(cmd):
    return cmd in LEADS


def judge(c, invs, kind):
    rng = c.rng
    uses = [Usage(rng, i) for i in invs]
    with ThreadPoolExecutor(NCPU * 2) as ex:
        uses = list(ex.map(Usage.run, uses))
    verdicts, _, gen, dist = validate([{"inv": u.inv, "obs": u.obs} for u in uses], "UsageTrace")
    c.states += dist
    c.trans += gen
    c.traces += len(uses)
    c.counts[kind] = c.counts.get(kind, 0) + len(uses)
    for u, v in zip(uses, verdicts):
        if v != "ok":
            c.violation("%s: pica %s -> exit %d, printed %s, changed %s, removed %s: %s" % (
                v, " ".join(map(repr, u.args)), u.obs["exit"], u.obs["said"], u.obs["changed"], u.obs["gone"], u.err[:200]),
                {"verdict": v, "args": u.args, "invocation": u.inv, "observed": u.obs, "stderr": u.err[:1000],
                 "files": {n: repr(x) for n, x in FILES.items()}})
    u = uses[c.rng.randrange(len(uses))]
    c.samples.append({"argv": u.args, "exit": u.obs["exit"], "changed": u.obs["changed"]})
    c.log("%d invocations validated (%s)" % (len(uses), kind))


def check(c):
    c.model("MCUsage")
    invs = invocations()
    # (the spec has told the options of other commands apart by their text)
    for i in invs:
        if len(i["opts"]) == (4 if i["cmd"] == "convert" else 3 if i["cmd"] == "check" else 2):
            OWN.setdefault(i["cmd"], set()).update(x["o"] for x in i["opts"])
    VALUED.update(x["o"] for i in invs for x in i["opts"] if x["v"])
    singles = [i for i in invs if len(i["opts"]) <= 1 or i["cmd"] in ("check", "convert")]
    judge(c, singles, "one-option")
    pairs = [i for i in invs if not (len(i["opts"]) <= 1 or i["cmd"] in ("check", "convert"))]
    judge(c, pairs, "two-options")
    # any number of options
    bycmd = {}
    for i in invs:
        for x in i["opts"]:
            bycmd.setdefault(i["cmd"], {}).setdefault(x["o"], set()).add(x["v"])
    good = {cmd: [i for i in invs if i["cmd"] == cmd and len(i["opts"]) <= (2 if cmd == "convert" else 1)] for cmd in bycmd}
    more = []
    for k in range(c.scale(1500, 40000)):
        cmd = R(c.rng, sorted(bycmd))
        i = R(c.rng, good[cmd])
        opts = list(i["opts"])
        for o in c.rng.sample(sorted(bycmd[cmd]), min(len(bycmd[cmd]), c.rng.randint(2, 6))):
            if c.rng.random() < 0.9 and o in {x["o"] for x in opts}:
                continue
            opts.append({"o": o, "v": R(c.rng, sorted(bycmd[cmd][o]))})
        more.append({"cmd": cmd, "word": i["word"], "opts": opts, "lead": i["lead"]})
    judge(c, more, "more-options")
