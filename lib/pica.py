"""Conformance driver: generate jobs, run the real program, let TLC judge.

The meaning of every command lives in /verif/spec; this file only makes
inputs, renders them in pica's concrete syntax, runs the binary and records
what came out.
"""
import gzip, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time, zlib
import unicodedata
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, ".work")
REPO = os.environ.get("PICA_REPO", "/repo")
TARGET = os.environ.get("PICA_TARGET", os.path.join(REPO, "target"))
BIN = os.path.join(TARGET, "debug", "pica")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 8


class ToolError(Exception):
    pass


def build():
    cmd = ("cd %s && . /opt/vp/env.sh >/dev/null 2>&1; cargo build -p pica-cli "
           "--features performant,compat,unstable --offline 2>&1" % REPO)
    p = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, timeout=800)
    if p.returncode != 0:
        raise ToolError("build failed:\n" + p.stdout.decode(errors="replace")[-3000:])


# --------------------------------------------------------------- records
US, RS, NL = b"\x1f", b"\x1e", b"\n"


def enc_field(f):
    tag, occ, subs = f
    out = tag.encode()
    if occ:
        out += b"/" + occ.encode()
    out += b" "
    for c, v in subs:
        out += US + c.encode() + v
    return out + RS


def enc(rec):
    return b"".join(enc_field(f) for f in rec) + NL


def ints(b):
    return list(b)


# --------------------------------------------------------------- default options
def lit_tag(t):
    return [{"k": "c", "c": ord(c)} for c in t]


def codes(s):
    return {"all": s == "*", "r": [] if s == "*" else [[ord(c), ord(c)] for c in s]}


NOOCC = {"k": "none"}
PPN_PATH = {"t": lit_tag("003@"), "o": NOOCC, "codes": [codes("0")], "has": False, "m": []}


def base(**kw):
    o = {
        "skip": False, "limit": 0, "mo": {"ci": False, "th": 75},
        "hasw": False, "w": {"e": [], "and": [], "or": [], "not": []}, "inv": False,
        "src": PPN_PATH, "hasallow": False, "allow": [], "hasdeny": False, "deny": [],
        "keep": [], "disc": [], "tee": False, "teename": [],
    }
    o.update(kw)
    return o


# --------------------------------------------------------------- running
class Job:
    """One job: command, spec options `o`, command line, input files."""

    def __init__(self, cmd, o, args, files, names=None, stdin=False, extra=None, config=None,
                 out=None, gz=None, outdir=None, note="", pre=None, obs_hook=None,
                 tee=None, alts=None, members=1, before=None, noinput=False, fault=None, ends=None, torn=None):
        files = [split_lines(b"".join(f)) for f in files]    # a last line may lack its newline
        self.cmd, self.o, self.args, self.files = cmd, o, args, files
        self.names = names              # file names (default f0.dat, ...)
        self.stdin = stdin              # feed file 0 on stdin
        self.extra = extra or {}        # further files name -> bytes
        self.config = config            # Pica.toml content
        self.out = out                  # main output file (None = stdout)
        # indices of gzip-compressed input files; stdin is never compressed
        self.gz = [k for k in gz or [] if not (stdin and k == 0)]
        self.outdir = outdir            # directory whose files are outputs
        self.note = note
        self.pre = pre or {}            # pre-existing output files name -> bytes
        self.tee = tee
        self.members = members          # gzip members per compressed input file
        self.alts = alts or {}
        self.before = before or []      # what an appended output held before
        self.fault = fault              # ("full"|"fullgz"|"closed"|"noout", room): the output fails
        self.ends = ends                # per input file: "eof", "lost" (no such file), "torn" (breaks off)
        self.torn = torn or {}          # raw bytes of the files that break off
        self.noinput = noinput          # the input files are named in args already
        self.obs = None
        self.obs_hook = obs_hook

    def spec_files(self):
        return [[ints(l) for l in f] for f in self.files]

    def case(self):
        c = {"cmd": self.cmd, "o": self.o, "files": self.spec_files(), "obs": self.obs}
        if self.ends:
            c["ends"] = self.ends
        if self.fault:
            c["fault"] = {"kind": self.fault[0], "room": self.fault[1]}
        return c


def split_lines(data):
    parts = data.split(b"\n")
    lines = [p + b"\n" for p in parts[:-1]]
    if parts[-1]:
        lines.append(parts[-1])
    return lines


WRITERS = ("filter", "concat", "slice", "sample", "explode", "invalid", "partition", "split", "convert")


def maybe_gunzip(data, sure=False):
    if data[:2] == b"\x1f\x8b":
        try:
            return gzip.decompress(data)
        except Exception:
            return b"<<truncated or corrupt gzip>>" + data
    return b"<<not compressed>>" + data if data and sure else data


HUNG = []


class Hung:
    """A run that did not end: no exit status a real run can have."""
    returncode, stdout, stderr = 124, b"", b"<<did not end>>"


def run_bounded(argv, stdin, cwd, env, **kw):
    try:
        return subprocess.run(argv, input=stdin, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              env=env, timeout=60 if len(HUNG) < 4 else 5, **kw)
    except subprocess.TimeoutExpired:
        HUNG.append(argv)
        return Hung


def partial_gunzip(data):
    """as much of a compressed stream as can be had"""
    out = b""
    while data[:2] == b"\x1f\x8b":
        z = zlib.decompressobj(31)
        try:
            out += z.decompress(data)
        except zlib.error:
            return out + b"<<corrupt gzip>>"
        data = z.unused_data
    return out + (b"" if len(data) < 2 else b"<<not gzip>>" + data)


def run_faulty(job, argv, stdin, d, env):
    """the output has room for so many bytes, or its reader goes away after them"""
    kind, room = job.fault
    if kind in ("teefull", "teefullgz"):          # the files have so much room, the standard output is a pipe
        def limit_files():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (room, room))
        try:
            return subprocess.run(argv, input=stdin or b"", cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60,
                                  preexec_fn=limit_files, restore_signals=False)
        except subprocess.TimeoutExpired:
            return Hung
    if kind == "mainfull":
        with open("/dev/full", "wb") as so:
            try:
                p = subprocess.run(argv, input=stdin or b"", cwd=d, stdout=so, stderr=subprocess.PIPE, env=env, timeout=60)
            except subprocess.TimeoutExpired:
                return Hung
        p.stdout = b""
        return p
    if kind in ("full", "fullgz"):
        def limit():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (room, room))
        dev = room == 0 and not job.out and not job.outdir and not job.tee and len(argv) % 2
        name = "/dev/full" if dev else os.path.join(d, "std.out")
        with open(name, "wb") as so, open(os.path.join(d, "in.dat"), "wb+") as si:
            si.write(stdin or b"")
            si.seek(0)
            try:
                p = subprocess.run(argv, stdin=si, cwd=d, stdout=so, stderr=subprocess.PIPE, env=env, timeout=60,
                                   preexec_fn=limit, restore_signals=False)
            except subprocess.TimeoutExpired:
                return Hung
        if not dev:
            with open(name, "rb") as h:
                p.stdout = h.read()
        else:
            p.stdout = b""
        return p
    if kind == "closed":
        r, w = os.pipe()
        with open(os.path.join(d, "in.dat"), "wb+") as si, open(os.path.join(d, "err.txt"), "wb+") as se:
            si.write(stdin or b"")
            si.seek(0)
            if room == 0:
                os.close(r)
            p = subprocess.Popen(argv, stdin=si, cwd=d, stdout=w, stderr=se, env=env)
            os.close(w)
            got = b""
            while room and len(got) < room:
                x = os.read(r, room - len(got))
                if not x:
                    break
                got += x
            if room:
                os.close(r)
            try:
                p.wait(60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                return Hung
            se.seek(0)
            res = subprocess.CompletedProcess(argv, p.returncode, got, se.read())
        return res
    return run_bounded(argv, stdin, d, env)


def run_job(job, keepdir=None):
    d = keepdir or tempfile.mkdtemp(prefix="job", dir=WORK)
    try:
        names = []
        for k, f in enumerate(job.files):
            name = job.names[k] if job.names else ("f%d.dat.gz" % k if k in job.gz else "f%d.dat" % k)
            data = b"".join(f)
            if k in job.gz:
                cut = [len(data) * m // job.members for m in range(job.members + 1)]
                data = b"".join(gzip.compress(data[a:b], 1) for a, b in zip(cut, cut[1:]))
            data = job.torn.get(k, data)
            if not job.ends or job.ends[k] != "lost":
                with open(os.path.join(d, name), "wb") as h:
                    h.write(data)
            elif "dir" in name:
                os.mkdir(os.path.join(d, name))
            names.append(name)
        for n, data in list(job.extra.items()) + list(job.pre.items()):
            os.makedirs(os.path.dirname(os.path.join(d, n)) or d, exist_ok=True)
            with open(os.path.join(d, n), "wb") as h:
                h.write(data)
        cfg = os.path.join(d, "Pica.cfg.toml")
        with open(cfg, "w") as h:
            h.write(job.config if job.config is not None else "skip-invalid = false\n")
        argv = [BIN, "-c", cfg] + job.args
        stdin = None
        if job.stdin:
            with open(os.path.join(d, names[0]), "rb") as h:
                stdin = h.read()
            argv += ["-"] if len(names) > 1 else []
            argv += names[1:]
        elif not job.noinput:
            argv += names
        if job.out:
            argv += ["-o", job.out]
        t0 = time.time()
        env = {"PATH": os.environ.get("PATH", ""), "HOME": d, "RUST_BACKTRACE": "0",
               "POLARS_MAX_THREADS": "1"}
        p = run_faulty(job, argv, stdin, d, env) if job.fault else run_bounded(argv, stdin, d, env)
        err = p.stderr.decode(errors="replace")
        m = re.search(r"invalid record on line (\d+)(?: \((.*?)\))?\.", err)
        errline = int(m.group(1)) if m else 0
        errfile = 0
        if m and m.group(2) is not None:
            src = m.group(2)
            if job.stdin and src == "<stdin>":
                errfile = 1
            elif src in names:
                errfile = names.index(src) + 1
        gunzip = partial_gunzip if job.fault and job.fault[0] in ("fullgz", "teefullgz") else maybe_gunzip
        unpack, allgz = gunzip, any(x in ("-g", "--gzip") for x in argv)

        def gunzip(data, name=""):      # what is not to be compressed is as it is, whatever it begins with
            zipped = allgz or name.endswith(".gz")
            if zipped and unpack is maybe_gunzip and not job.fault:
                return maybe_gunzip(data, job.cmd in WRITERS)
            return unpack(data) if zipped else data
        stdout = gunzip(p.stdout)
        outfiles = []

        old = b"".join(job.before)

        def grown(data):
            return data if not old else data[len(old):] if data.startswith(old) else b"<<earlier contents lost>>" + data

        def grab(path, name):
            if os.path.isfile(path):
                with open(path, "rb") as h:
                    outfiles.append({"name": ints(os.fsencode(name)),
                                     "lines": [ints(x) for x in split_lines(grown(gunzip(h.read(), path)))]})
        if job.out:
            path = os.path.join(d, job.out)
            main = b""
            if os.path.isfile(path):
                with open(path, "rb") as h:
                    main = gunzip(h.read(), path)
            if p.stdout:
                main += b"<<stdout>>" + p.stdout
        else:
            main = stdout
        if job.out:
            main = grown(main)
        if job.outdir:
            od = os.path.join(d, job.outdir)
            for n in sorted(os.listdir(od)) if os.path.isdir(od) else []:
                grab(os.path.join(od, n), n)
        if job.tee:
            grab(os.path.join(d, job.tee), job.tee)
        job.obs = {"exit": p.returncode, "out": [ints(x) for x in split_lines(main)],
                   "errline": errline, "errfile": errfile, "files": outfiles}
        job.stderr = err
        job.argv = argv
        job.rawout = main
        if job.obs_hook:
            job.obs_hook(job, d)
        return job
    finally:
        if not keepdir:
            shutil.rmtree(d, ignore_errors=True)


def fresh_work():
    os.makedirs(WORK, exist_ok=True)
    return tempfile.mkdtemp(prefix="run", dir=WORK)


def run_all(jobs, workers=None):
    os.makedirs(WORK, exist_ok=True)
    with ThreadPoolExecutor(workers or NCPU * 2) as ex:
        return list(ex.map(run_job, jobs))


# --------------------------------------------------------------- TLC
def tlc(module, cfg=None, env=None, workers=None, timeout=850, extra=None, mem="6g", stack="64m"):
    meta = tempfile.mkdtemp(prefix="tlc", dir=WORK)
    e = dict(os.environ)
    e.update(env or {})
    argv = ["java", "-Djava.io.tmpdir=" + meta, "-Xss" + stack, "-Xmx" + mem, "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC",
            "-workers", str(workers or NCPU), "-metadir", meta, "-noGenerateSpecTE", "-lncheck", "final",
            "-config", (cfg or module) + ".cfg"] + (extra or []) + [module + ".tla"]
    try:
        p = subprocess.run(argv, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout.decode(errors="replace")


def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def model_check(module, cfg=None, must_hold=True, workers=None, timeout=600, env=None):
    """Exhaustive TLC run of a design model. Returns (states, distinct)."""
    rc, out = tlc(module, cfg, workers=workers, timeout=timeout, env=env)
    if must_hold and (rc != 0 or "Model checking completed. No error has been found" not in out):
        raise ToolError("model %s does not hold:\n%s" % (cfg or module, out[-3000:]))
    return tlc_stats(out)


def validate(cases, module="Trace", timeout=850):
    """cases: list of dicts. Returns ([verdict], {id: expected}, states, distinct)."""
    os.makedirs(WORK, exist_ok=True)
    fd, path = tempfile.mkstemp(prefix="cases", suffix=".ndjson", dir=WORK)
    with os.fdopen(fd, "w") as h:
        for c in cases:
            h.write(json.dumps(c, separators=(",", ":")) + "\n")
    try:
        rc, out = tlc(module, env={"CASES": path}, timeout=timeout)
    finally:
        os.unlink(path)
    verdicts, expected = {}, {}
    for m in re.finditer(r'^<<\s*"V",\s*(\d+),\s*"([^"]*)"\s*>>', out, re.M):
        verdicts[int(m.group(1))] = m.group(2)
    for m in re.finditer(r'^<<\s*"E",\s*(\d+),\s*(.*?)\s*>>\s*$(?=\n(?:<<|\D))', out, re.M | re.S):
        expected[int(m.group(1))] = m.group(2)
    if rc != 0 or len(verdicts) != len(cases):
        ids = [k for k in range(1, len(cases) + 1) if k not in verdicts][:5]
        raise ToolError("TLC gave %d verdicts for %d cases (rc %d; missing %s)\n%s"
                        % (len(verdicts), len(cases), rc, ids, out[-3500:]))
    st = tlc_stats(out)
    return [verdicts[k] for k in range(1, len(cases) + 1)], expected, st[0], st[1]


# --------------------------------------------------------------- known findings
def known_findings(prop):
    out = set()
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.add((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return dict(out)


# --------------------------------------------------------------- check runner
class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.thorough = self.tier == "thorough"
        self.states = self.trans = self.traces = 0
        self.models = {}
        self.violations = []
        self.known_seen = {}
        self.known = known_findings(prop)
        self.samples = []
        self.counts = {}
        self.notes = []
        os.makedirs(WORK, exist_ok=True)

    def scale(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 8) if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def model(self, module, cfg=None, **kw):
        gen, dist = model_check(module, cfg, **kw)
        self.models[cfg or module] = {"states": dist, "transitions": gen}
        self.states += dist
        self.trans += gen
        self.log("model %s: %d distinct states, %d transitions, all invariants hold" % (cfg or module, dist, gen))

    def violation(self, what, replay):
        d = os.path.join(VERIF, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%03d.json" % (len(self.violations) + 1))
        with open(path, "w") as h:
            json.dump(replay, h, indent=1, default=repr)
        self.violations.append(path)
        if len(self.violations) <= 10:
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            self.log("  " + what[:1500])

    def known_hit(self, key, what):
        self.known_seen.setdefault(key, what)

    def known_deviations(self, part, verdicts, module):
        """A run that departs from the specification is judged again under
        each deviation on record (job.alts: key -> changed options)."""
        todo = [(k, key) for k, v in enumerate(verdicts) if v != "ok"
                for key in part[k].alts if key in self.known]
        if not todo:
            return
        cases = []
        for k, key in todo:
            j = part[k]
            cases.append(dict(j.case(), o=dict(j.o, **j.alts[key])))
        got, _, gen, dist = validate(cases, module)
        self.states += dist
        self.trans += gen
        for (k, key), v in zip(todo, got):
            if v == "ok":
                verdicts[k] = "known:" + key

    def judge(self, jobs, module="Trace", chunk=1500, kind=None):
        """Run jobs on the real binary and validate them with TLC."""
        for a in range(0, len(jobs), chunk):
            part = jobs[a:a + chunk]
            run_all(part)
            cases = [j.case() for j in part]
            verdicts, expected, gen, dist = validate(cases, module)
            self.states += dist
            self.trans += gen
            self.traces += len(part)
            self.known_deviations(part, verdicts, module)
            for k, (j, v) in enumerate(zip(part, verdicts)):
                key = kind or j.cmd
                self.counts[key] = self.counts.get(key, 0) + 1
                if v == "ok":
                    continue
                if v.startswith("known:") and v[6:] in self.known:
                    self.known_hit(v[6:], self.known[v[6:]])
                    continue
                exp = expected.get(k + 1, "")
                self.violation("%s: %s %s -> %s exit=%d stderr=%r\n   expected=%s\n   observed=%r" % (
                    v, j.cmd, j.note, " ".join(map(repr, j.argv[3:])), j.obs["exit"], j.stderr[:300],
                    show(exp)[:600], j.rawout[:600]),
                    {"verdict": v, "argv": j.argv, "note": j.note, "exit": j.obs["exit"],
                     "stderr": j.stderr[:2000], "inputs": [[repr(l) for l in f[:200]] for f in j.files],
                     "extra": {n: repr(x[:2000]) for n, x in j.extra.items()},
                     "expected": show(exp)[:6000], "observed": repr(j.rawout[:6000]),
                     "observed_files": [[bytes(x["name"]).decode(errors="replace"),
                                         repr(b"".join(map(bytes, x["lines"])))[:2000]] for x in j.obs["files"]]})
            if len(self.samples) < 3 and part:
                j = part[self.rng.randrange(len(part))]
                self.samples.append({"argv": j.argv[3:], "input_lines": sum(len(f) for f in j.files),
                                     "first_input": repr(j.files[0][0])[:200] if j.files and j.files[0] else "",
                                     "exit": j.obs["exit"], "stdout": repr(j.rawout[:200]), "verdict": "ok" if not self.violations else "see violations"})
            self.log("%d cases validated (%s)" % (len(part), kind or part[0].cmd if part else "-"))

    def finish(self, level="model_checking", assumptions=None, extra=None):
        for key, what in sorted(self.known_seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what), flush=True)
        cov = {"states": self.states, "transitions": self.trans,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["-"], "models": self.models,
               "cases_by_kind": self.counts}
        cov.update(extra or {})
        ev = {"property": self.prop, "tier": "thorough" if self.thorough else "quick", "seed": self.seed,
              "level": level, "coverage": cov, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations),
              "assumptions": (assumptions or []) + self.notes}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
        self.log("done: %d violations, %d traces, %d states" % (len(self.violations), self.traces, self.states))
        return 1 if self.violations else 0


def show(tla):
    """Render a printed TLA+ byte sequence as text where possible."""
    try:
        def rep(m):
            return repr(bytes(int(x) for x in re.findall(r"\d+", m.group(0))))
        return re.sub(r"<<[\d,\s]*>>", rep, tla)
    except Exception:
        return tla


def run_check(fn, prop):
    """exit 0: held, 1: violation reported, 2: the machinery failed"""
    import traceback
    try:
        build()
        c = Check(prop)
        fn(c)
        return c.finish()
    except ToolError as e:
        print("TOOL ERROR:", e, flush=True)
    except Exception:
        traceback.print_exc()
    return 2
