"""Library calls: run the harness on requests, let TLC judge the answers."""
from gen import *

HARNESS = os.environ.get("HARNESS_DIR", os.path.join(WORK, "harness"))


def build_harness():
    env = dict(os.environ, PICA_REPO=REPO, HARNESS_DIR=HARNESS)
    p = subprocess.run(["bash", os.path.join(VERIF, "harness", "build.sh")], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout.decode(errors="replace")[-3000:])


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def call(reqs, timeout=120):
    """Answers, in order; a request the process dies on or hangs on is a panic."""
    out, k = [], 0
    while k < len(reqs):
        data = b"".join(json.dumps(r, separators=(",", ":")).encode() + b"\n" for r in reqs[k:])
        p = subprocess.Popen([os.path.join(HARNESS, "target", "debug", "harness")], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=_limits)
        try:
            got, _ = p.communicate(data, timeout=timeout)
            why = "the process ended with %d" % p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            got, _ = p.communicate()
            why = "no answer in %d s" % timeout
        lines = got.split(b"\n")[:-1]
        out += [json.loads(l) for l in lines]
        k += len(lines)
        if k < len(reqs):
            out.append({"panic": why})
            k += 1
    return out


def call_all(reqs):
    n = max(1, len(reqs) // (NCPU * 2) + 1)
    parts = [reqs[a:a + n] for a in range(0, len(reqs), n)]
    with ThreadPoolExecutor(NCPU) as ex:
        return [a for part in ex.map(call, parts) for a in part]


# ------------------------------------------------------------- expressions
def mopts(rng=None, **kw):
    o = {"ci": False, "th": 80, "squash": False, "merge": False, "sep": ints(b"|")}
    if rng:
        o.update(ci=rng.random() < 0.3, th=R(rng, [80, 75, 50, 90]), squash=rng.random() < 0.3,
                 sep=ints(R(rng, ["|", "", ", ", "##"]).encode()))
        o["merge"] = not o["squash"] and rng.random() < 0.3
    o.update(kw)
    return o


def tx(s):
    return ints(s.encode() if isinstance(s, str) else s)


def load(s, via="new"):
    return {"op": "load", "text": tx(s), "via": via}


class Value:
    """one history of library calls on expressions"""

    def __init__(self, kind, prog, recs, o=None, note="", then=()):
        self.kind, self.prog, self.recs, self.o, self.note = kind, prog, recs, o or mopts(), note
        self.os = [self.o] + list(then)     # one expression is asked with these options in turn
        self.ans = None

    def request(self):
        return {"t": "expr", "kind": self.kind, "prog": self.prog, "recs": [ints(r) for r in self.recs], "os": self.os}

    def case(self):
        a = self.ans
        panic = "panic" in a
        return {"kind": self.kind, "prog": self.prog, "recs": [ints(r) for r in self.recs], "os": self.os,
                "obs": {"panic": panic, "acc": not panic and a["acc"], "res": a.get("res", [])}}

    def show(self):
        out = []
        for s in self.prog:
            s = dict(s)
            for k in ("text",):
                if k in s:
                    s[k] = bytes(s[k]).decode()
            for k in ("and", "or", "not"):
                if k in s:
                    s[k] = [bytes(x).decode() for x in s[k]]
            out.append(s)
        return out


def judge_values(c, cases, kind, chunk=6000):
    """every answer of the library must be the specification's"""
    tally = {}
    for a in range(0, len(cases), chunk):
        part = cases[a:a + chunk]
        for v, ans in zip(part, call_all([v.request() for v in part])):
            v.ans = ans
        verdicts, _, gen, dist = validate([v.case() for v in part], "ValueTrace")
        c.states += dist
        c.trans += gen
        for v, verdict in zip(part, verdicts):
            tally[verdict] = tally.get(verdict, 0) + 1
            if not verdict.startswith("bad"):
                continue
            key = v.note if v.note in c.known else None
            if key:
                c.known_hit(key, c.known[key])
                continue
            c.violation("%s: %s %s\n   answer %s" % (verdict, v.kind, json.dumps(v.show(), ensure_ascii=False)[:700], json.dumps(v.ans)[:500]),
                        {"verdict": verdict, "kind": v.kind, "prog": v.show(), "options": [dict(o, sep=bytes(o["sep"]).decode()) for o in v.os],
                         "records": [repr(r) for r in v.recs], "answer": v.ans})
    judged = sum(n for k, n in tally.items() if k != "skip")
    c.traces += judged
    c.counts[kind] = c.counts.get(kind, 0) + judged
    for k, n in tally.items():
        c.counts["%s:%s" % (kind, k)] = c.counts.get("%s:%s" % (kind, k), 0) + n
    if len(c.samples) < 3 and cases:
        v = cases[c.rng.randrange(len(cases))]
        c.samples.append({"kind": v.kind, "history": v.show(), "answer": json.dumps(v.ans)[:300]})
    c.log("%d histories judged (%s): %s" % (judged, kind, " ".join("%s %d" % x for x in sorted(tally.items()))))
    return tally


CLI_AT = {
    "filter": [["filter", "@", "in.dat"], ["filter", "003@?", "in.dat", "--and", "@"], ["filter", "003@?", "in.dat", "--not", "@"], ["filter", "003@?", "in.dat", "--or", "@"],
               ["count", "--where", "@", "in.dat"], ["select", "--where", "003@?", "--and", "@", "003@.0", "in.dat"],
               ["filter", "-F", "expr", "in.dat"], ["print", "--where", "@", "in.dat"], ["sample", "--where", "@", "1", "in.dat"],
               ["explode", "copy", "--where", "@", "in.dat"], ["split", "--where", "@", "10", "in.dat"], ["hash", "--where", "@", "in.dat"],
               ["frequency", "--where", "003@?", "--not", "@", "003@.0", "in.dat"]],
    "query": [["select", "@", "in.dat"], ["frequency", "@", "in.dat"], ["select", "--tsv", "@", "in.dat"]],
    "path": [["partition", "@", "in.dat"], ["filter", "--filter-set-source", "@", "003@?", "in.dat"], ["count", "--filter-set-source", "@", "in.dat"]],
    "list": [["filter", "-k", "@", "003@?", "in.dat"], ["filter", "--discard", "@", "003@?", "in.dat"], ["filter", "--keep", "@", "003@?", "in.dat"]],
}
QUIET_OUT = {"partition", "split"}       # they write files of their own


class AtCli:
    def __init__(self, kind, text, args, recs):
        self.kind, self.text, self.args, self.recs, self.note = kind, text, args, recs, "cli"

    def run(self):
        d = fresh_work()
        try:
            with open(os.path.join(d, "in.dat"), "wb") as h:
                h.write(b"".join(self.recs))
            if "expr" in self.args:
                with open(os.path.join(d, "expr"), "wb") as h:
                    h.write(self.text.encode())
            argv = [BIN]
            for a in self.args:
                argv += [self.text] if a == "@" else [a]
            toout = self.args[0] not in QUIET_OUT
            argv += ["-o", "out.dat"] if toout and len(self.text) % 2 else []
            before = set(os.listdir(d))
            p = run_bounded(argv, b"", d, {"PATH": "", "HOME": d, "RUST_BACKTRACE": "0"})
            self.argv, self.stderr = argv[1:], p.stderr.decode(errors="replace")
            # the output file may have been created already, empty
            made = [n for n in set(os.listdir(d)) - before
                    if n != "out.dat" or os.path.getsize(os.path.join(d, n)) > 0]
            self.cli = {"exit": p.returncode, "out": ints(p.stdout[:200]), "made": bool(made)}
            return self
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def case(self):
        return {"kind": self.kind, "prog": [load(self.text)], "cli": self.cli}


def judge_cli(c, cases, kind):
    with ThreadPoolExecutor(NCPU * 2) as ex:
        list(ex.map(AtCli.run, cases))
    verdicts, _, gen, dist = validate([v.case() for v in cases], "ValueTrace")
    c.states += dist
    c.trans += gen
    tally = {}
    for v, verdict in zip(cases, verdicts):
        tally[verdict] = tally.get(verdict, 0) + 1
        if verdict.startswith("bad"):
            c.violation("%s: %r exit=%d stderr=%r" % (verdict, v.argv, v.cli["exit"], v.stderr[:200]),
                        {"verdict": verdict, "argv": v.argv, "exit": v.cli["exit"], "stdout": repr(bytes(v.cli["out"])), "made": v.cli["made"], "stderr": v.stderr[:1000]})
    n = sum(x for k, x in tally.items() if k != "skip")
    c.traces += n
    c.counts[kind] = n
    c.log("%d runs judged (%s): %s" % (n, kind, " ".join("%s %d" % x for x in sorted(tally.items()))))


GENS = {
    "list": lambda rng: ",".join(R(rng, ["", " "]) + tagm(rng, 0.5)[1] + occm(rng)[1] + R(rng, ["", " "]) for _ in range(rng.randrange(0, 4))),
    "filter": lambda rng: field_expr(rng)[1],
    "field": lambda rng: field_expr(rng)[1],
    "sub": lambda rng: sub_expr(rng)[1],
    "path": lambda rng: path(rng)[1],
    "format": lambda rng: fmt(rng)[1],
    "query": lambda rng: query(rng)[1],
    "tag": lambda rng: tagm(rng, 0.2)[1],
    "occ": lambda rng: occm(rng)[1],
}
