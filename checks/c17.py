"""C17 configuration: what is set stays set, and every command obeys it."""
from rules import *
import gen, tomllib, signal, resource

RAW = "e\u0301 \u00e9 \ufb01"          # its four normal forms and the raw string all differ
FORMTEXT = {"None": RAW, **{k: unicodedata.normalize(v, RAW) for k, v in NFS.items()}}
PROBE = b"".join(enc([("003@", "", [("0", k.encode())]), ("012A", "", [("a", v.encode())])]) for k, v in sorted(FORMTEXT.items())) + b"bad\n"
assert len(set(FORMTEXT.values())) == 5
NAMES = ("skip-invalid", "normalization")


def transitions():
    rc, out = tlc("MCConfig", "MCConfigEmit", env={"EMIT": "1"}, workers=1)
    if rc != 0:
        raise ToolError(out[-2000:])
    ts = []
    for m in re.finditer(r'<<\s*"T",(.*?)>>\s*$', out, re.M | re.S):
        body = m.group(1).replace("<<>>", "[]").replace("<<", "[").replace(">>", "]")
        t = json.loads("[" + re.sub(r"(?<!\")\b(TRUE|FALSE)\b(?!\")", lambda m: m.group(0).lower(), body) + "]")
        ts.append({"pre": tuple(t[0:3]), "op": t[3], "name": t[4], "val": t[5], "exit": t[6], "out": t[7], "post": tuple(t[8:11])})
    if len(ts) < 500:
        raise ToolError("only %d transitions" % len(ts))
    return ts


def text(rng, store):
    """a configuration file that says what the store says"""
    _, skip, norm = store
    lines = []
    if skip == "true" or rng.random() < 0.6:
        lines.append(R(rng, ["skip-invalid = %s", "skip-invalid=%s", '"skip-invalid" = %s # do not stop']) % skip)
    if norm != "None":
        lines.append(R(rng, ['normalization = "%s"', "normalization = '%s'", 'normalization="%s"  # form']) % norm)
    if rng.random() < 0.3:
        lines.reverse()
    if rng.random() < 0.3:
        lines.insert(0, "# configuration")
    if rng.random() < 0.3:
        lines.append(R(rng, ['unknown = 1', '', 'path = "x"', '[other]\nskip-invalid = true']))
    return "\n".join(lines) + R(rng, ["\n", ""])


def parse(data):
    if data is None:
        return (False, "false", "None")
    t = tomllib.loads(data.decode())
    return (True, "true" if t.get("skip-invalid", False) else "false", t.get("normalization", "None"))


KINDS = ["home", "xdg", "explicit", "explicit-deep", "relative", "link", "home-link", "xdg-link", "home-dirlink", "xdg-relative-link"]


class Place:
    """where the file is and how the program is told of it"""

    def __init__(self, rng, d, kind=None):
        self.d, self.kind, self.perm = d, kind or R(rng, KINDS), R(rng, [0o644, 0o644, 0o600, 0o664])
        self.env = {"PATH": os.environ.get("PATH", ""), "HOME": d}
        self.opt = []
        home = os.path.join(d, ".config", "pica", "config.toml")
        if self.kind.startswith("home"):
            self.path = home
        elif self.kind.startswith("xdg"):
            self.env["XDG_CONFIG_HOME"] = os.path.join(d, "xdg")
            self.path = os.path.join(d, "xdg", "pica", "config.toml")
        else:
            self.path = os.path.join(d, {"explicit": "c.toml", "explicit-deep": "a/b/c/conf", "relative": "rel.toml", "link": "link"}[self.kind])
            self.opt = [R(rng, ["-c", "--config"]), "rel.toml" if self.kind == "relative" else self.path]
            # a file in the usual place is not looked at
            if rng.random() < 0.5:
                os.makedirs(os.path.dirname(home))
                with open(home, "w") as h:
                    h.write('skip-invalid = true\nnormalization = "nfkd"\n')

    def read(self):
        try:
            with open(self.path, "rb") as h:
                return h.read()
        except FileNotFoundError:
            return None

    def mode(self):
        return os.stat(self.path).st_mode & 0o7777 if os.path.exists(self.path) else None

    def write(self, text):
        up = os.path.dirname(self.path)
        if self.kind == "home-dirlink" and not os.path.islink(up) and not os.path.exists(up):
            os.makedirs(os.path.join(self.d, "dot", "pica"))
            os.makedirs(os.path.dirname(up))
            os.symlink(os.path.join("..", "dot", "pica"), up)
        os.makedirs(up, exist_ok=True)
        if self.kind.endswith("link") and self.kind != "home-dirlink" and not os.path.lexists(self.path):
            os.makedirs(os.path.join(self.d, "dot"))
            target = os.path.join(self.d, "dot", "pica.toml")
            os.symlink(target if self.kind == "home-link" else os.path.relpath(target, up), self.path)
        with open(self.path, "w") as h:
            h.write(text)
        os.chmod(self.path, self.perm)


def argv(rng, t):
    op, n, v = t["op"].split("-fails")[0].split("-killed")[0], t["name"], t["val"]
    c = ["config"]
    if op == "get":
        return c + R(rng, [[n], ["--get", n], [n, "--get"]])
    if op == "unset":
        return c + R(rng, [["--unset", n], [n, "--unset"]])
    if op == "set":
        return c + R(rng, [[n, v], ["--set", n, v], [n, v, "--set"]])
    if op == "run":
        s = "012A.a == '%s'" % RAW
        form = rng.randrange(5)
        a = ["filter", s] if form < 2 else ["filter", "003@?", "--and", s] if form == 2 else \
            ["filter", "012B?", "--or", s] if form == 3 else ["filter", "!(012A.a? && !003@?)", "--and", s, "--and", "003@?"]
        return a + (["-s"] if n == "-s" else []) + ["f.dat"]
    return c + {"set-without-value": ["--set", n], "get-with-value": ["--get", n, v], "unset-with-value": ["--unset", n, v],
                "get-and-unset": ["--get", "--unset", n], "get-and-set": ["--get", "--set", n, v],
                "set-and-unset": ["--set", "--unset", n, v], "no-name": []}[op]


def step(rng, place, t, before):
    """one invocation: None, or what is wrong with it"""
    args = argv(rng, t)
    kw = {}
    if t["op"].endswith(("-fails", "-killed")):
        room, act = R(rng, [0, 0, 1, 7, 15]), signal.SIG_IGN if t["op"].endswith("-fails") else signal.SIG_DFL

        def limit():
            signal.signal(signal.SIGXFSZ, act)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (room, room))
        kw = {"preexec_fn": limit, "restore_signals": False}
    mode, linked = place.mode(), os.path.islink(place.path)
    p = run_bounded([BIN] + place.opt + args, b"", place.d, place.env, **kw)
    after = place.read()
    want = "".join(x + "\n" for x in t["out"]).encode()
    if t["op"] == "run":
        want = enc([("003@", "", [("0", t["out"][0].encode())]), ("012A", "", [("a", FORMTEXT[t["out"][0]].encode())])])
    bad = None
    if p.returncode != t["exit"]:
        bad = "exit %d, specified %d" % (p.returncode, t["exit"])
    elif p.stdout != want:
        bad = "printed %r, specified %r" % (p.stdout[:300], want)
    elif t["op"] not in ("set", "unset") or t["exit"] != 0:
        if after != before:
            bad = "the file changed from %r to %r" % (before, after)
    if not bad and mode is not None and place.mode() != mode:
        bad = "the file's mode changed from %o to %o" % (mode, place.mode())
    if not bad and linked and not os.path.islink(place.path):
        bad = "the link to the file was replaced"
    if not bad:
        try:
            now = parse(after)
        except Exception as e:
            now = repr(e)
        if now != t["post"]:
            bad = "the file says %r, specified %r" % (now, t["post"])
    return bad, args, after


def report(c, bad, place, trail):
    c.violation("config: %s after %s (%s)" % (bad, trail[-1], place.kind),
                {"what": bad, "place": place.kind, "history": trail})


def check(c):
    rng = c.rng
    c.model("MCConfig")
    ts = transitions()
    by = {}
    for t in ts:
        by.setdefault(t["pre"], []).append(t)

    def one(arg):
        t, seed, kind = arg
        r = random.Random(seed)
        d = tempfile.mkdtemp(prefix="cfg", dir=WORK)
        try:
            with open(os.path.join(d, "f.dat"), "wb") as h:
                h.write(PROBE)
            place = Place(r, d, kind)
            if t["pre"][0]:
                place.write(text(r, t["pre"]))
            before = place.read()
            bad, args, after = step(r, place, t, before)
            return bad, place, ["%r" % before, " ".join(map(repr, args)), "%r" % after]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    # every transition of the model, at two places each (thorough: at all of them)
    work = [(t, "%d/%d/%d" % (c.seed, k, j), kind) for k, t in enumerate(ts)
            for j, kind in enumerate(KINDS if c.thorough else rng.sample(KINDS, 2))]
    with ThreadPoolExecutor(NCPU * 2) as ex:
        for (t, _, _), (bad, place, trail) in zip(work, ex.map(one, work)):
            c.counts["transition:" + t["op"]] = c.counts.get("transition:" + t["op"], 0) + 1
            if bad:
                report(c, bad, place, trail)
    c.traces += len(work)
    c.log("%d transitions replayed" % len(work))

    def walk(seed):
        r = random.Random(seed)
        d = tempfile.mkdtemp(prefix="cfg", dir=WORK)
        try:
            with open(os.path.join(d, "f.dat"), "wb") as h:
                h.write(PROBE)
            place = Place(r, d)
            state = R(r, sorted(by))
            if state[0]:
                place.write(text(r, state))
            trail = ["%s: %r" % (place.kind, state)]
            for _ in range(r.randrange(8, 25)):
                group = R(r, ["get", "set", "set", "unset", "run", "other"])
                pool = [t for t in by[state] if (t["op"] == group and t["exit"] == 0) or
                        (group == "run" and t["op"] == "run") or (group == "other" and t["exit"] != 0 and t["op"] != "run")]
                t = R(r, pool)
                bad, args, _ = step(r, place, t, place.read())
                trail.append(" ".join(map(repr, args)))
                if bad:
                    return bad, place, trail
                state = t["post"]
            return None, place, trail
        finally:
            shutil.rmtree(d, ignore_errors=True)

    seeds = ["%d/w%d" % (c.seed, k) for k in range(c.scale(60))]
    with ThreadPoolExecutor(NCPU * 2) as ex:
        for bad, place, trail in ex.map(walk, seeds):
            c.counts["histories"] = c.counts.get("histories", 0) + 1
            if bad:
                report(c, bad, place, trail)
    c.traces += len(seeds)
    c.log("%d histories replayed" % len(seeds))
    every_place(c)
    every_command(c)


def every_place(c):
    """each form, with the text in each of the places an expression is given at, by each command"""
    rng, jobs = c.rng, []
    cs = {"all": False, "r": [[97, 97]]}
    probe = PROBE.split(b"\n")[:5]
    files = [[x + b"\n" for x in probe]]
    told = "012A.a == '%s'" % RAW
    for form in ("nfc", "nfd", "nfkc", "nfkd", None):
        v = unicodedata.normalize(NFS[form], RAW) if form else RAW
        e = [{"k": "atom", "a": {"k": "sub", "q": "ANY", "t": lit_tag("012A"), "o": NOOCC,
                                 "e": [{"k": "atom", "a": {"k": "rel", "q": "ANY", "cs": cs, "op": "==", "v": vb(v)}}]}}]
        for f in COMMANDS:
            if f in (j_concat, j_convert, j_invalid):
                continue
            for place in ("where", "and", "or", "not", "file"):
                if (place == "file") != (f is j_filter and place == "file"):
                    continue
                gen.NORM[0] = NFS.get(form)
                b = f(rng, files, 0) if f is not j_filter else B(rng, "filter", files)
                gen.NORM[0] = None
                w = {"e": ALWAYS, "and": [], "or": [], "not": []}
                text, more = ALWAYS_S, []
                if place in ("where", "file"):
                    w["e"], text = e, told
                else:
                    w[place] = [e]
                    more = ["--" + place, told]
                    if place == "or":                # never, or the text
                        w["e"] = [{"k": "atom", "a": {"k": "sub", "q": "ANY", "t": lit_tag("012Z"), "o": NOOCC,
                                                      "e": [{"k": "atom", "a": {"k": "ex", "cs": cs}}]}}]
                        text = "012Z{a?}"
                if f is j_filter:
                    if place == "file":
                        b.extra["e.txt"] = text.encode()
                        b.args += ["-F", "e.txt"]
                    else:
                        b.post = [text]
                else:
                    b.args += ["--where", text]
                b.args += more
                b.o["hasw"], b.o["w"] = True, w
                jobs.append(b.job(config='normalization = "%s"\n' % form if form else ""))
    c.judge(jobs, kind="every-place")


COMMANDS = [j_filter, j_count, j_hash, j_print, j_slice, j_split, j_partition, j_select, j_frequency, j_describe, j_explode,
            j_sample, j_concat, j_convert, j_invalid, j_check]


def configure(rng, b, form):
    """moves --skip-invalid into the configuration, and puts the form there"""
    lines = []
    if b.o["skip"]:
        if rng.random() < 0.7:
            for x in ("-s", "--skip-invalid"):
                if x in b.args:
                    b.args.remove(x)
            lines.append("skip-invalid = true")
        else:
            lines += R(rng, [[], ["skip-invalid = false"], ["skip-invalid = true"]])
    elif b.cmd == "invalid":
        lines += R(rng, [[], ["skip-invalid = true"]])
    else:
        lines += R(rng, [[], ["skip-invalid = false"]])
    if form:
        lines.append('normalization = "%s"' % form)
    return b.job(config="\n".join(lines) + "\n")


def mixed(rng, n):
    """records whose values come in several forms of the same text"""
    vals = ["Göthe", "é", "ü", "ﬁ", "Å", "ﬁé", "ab", "ß"]
    out = []
    for _ in range(n):
        rec = [("003@", "", [("0", ppn(rng).encode())])] if rng.random() < 0.9 else []
        for _ in range(rng.randrange(1, 5)):
            v = lambda: unicodedata.normalize(R(rng, ["NFC", "NFD", "NFKC", "NFKD"]), R(rng, vals)).encode()
            rec.append((R(rng, ["012A", "012A", "028A", "047A"]), R(rng, ["", "", "01"]), [(R(rng, "ab"), v()) for _ in range(R(rng, [1, 1, 2]))]))
        out.append(enc(rec))
    return out


def every_command(c):
    rng, jobs = c.rng, []
    words = gen.WORDS
    try:
        gen.WORDS = [unicodedata.normalize(f, w) for w in ("Göthe", "é", "ü", "ﬁ", "Å", "ﬁé") for f in ("NFC", "NFD", "NFKC")] + ["a", "ab", "", "é"[:1]]
        for f in COMMANDS:
            for k in range(c.scale(20)):
                form = R(rng, [None, "nfc", "nfd", "nfkc", "nfkd"])
                files = [mixed(rng, R(rng, [2, 4, 8])) + ([badline(rng)] if rng.random() < 0.5 else []) + mixed(rng, 2) for _ in range(R(rng, [1, 1, 2]))]
                if f is j_check and rng.random() < 0.7:
                    files = [check_corpus(rng, 6, 0.1)]
                if f is j_partition and not safe_values(files):
                    continue
                gen.NORM[0] = NFS.get(form)
                try:
                    b = f(rng, files, 0.8) if f not in (j_concat, j_convert, j_invalid) else f(rng, files)
                finally:
                    gen.NORM[0] = None
                jobs.append(configure(rng, b, form))
                jobs[-1].note = str(form)
        c.judge(jobs, kind="every-command")
    finally:
        gen.WORDS = words
