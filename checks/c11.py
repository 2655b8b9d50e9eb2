"""C11 slice and sample."""
from mk import *
import big
import itertools


def numbered(n, bad=()):
    out = [enc([("003@", "", [("0", b"%d" % k)])]) for k in range(n)]
    for p in sorted(bad):
        out.insert(p, b"bad\n")
    return out


def slice_job(rng, files, start=None, end=None, length=None, limit=0, skip=True, sel=False):
    b = B(rng, "slice", files)
    b.o.update(start=start or 0, end=end or 0, length=length or 0, limit=limit, skip=skip)
    for f, v in (("--start", start), ("--end", end), ("--length", length)):
        if v is not None:
            b.args += [f, str(v)]
    if limit:
        b.args += ["-l", str(limit)]
    if skip:
        b.args.append("-s")
    if sel:
        where(rng, b.args, b.o, n=1)
    return b


def sample_job(rng, files, size, seed=None):
    b = B(rng, "sample", files)
    b.o.update(size=size, skip=True)
    b.args += ["-s"] + (["--seed", str(seed)] if seed is not None else [])
    b.post = [str(size)]
    return b


def check(c):
    rng = c.rng
    c.judge(big.slices(random.Random(c.seed), c), kind="scale")
    c.model("MCPipeline", "MCSlice")
    c.model("MCSample")
    jobs = []
    shapes = [(0, ()), (1, ()), (5, ()), (4, (0,)), (4, (2,)), (3, (0, 1, 4)), (4, (4,))]
    for n, bad in shapes:
        for start in (None, 0, 1, 2, 4, 7):
            for end, length in [(None, None)] + [(e, None) for e in (1, 2, 3, 5, 9)] + [(None, l) for l in (1, 2, 3, 9)]:
                if not c.thorough and n and rng.random() < 0.35:
                    continue
                f = numbered(n, bad)
                files = [f] if rng.random() < 0.6 or not f else [f[:len(f) // 2], f[len(f) // 2:]]
                jobs.append(slice_job(rng, files, start, end, length, R(rng, [0, 0, 1, 2]), True if bad or rng.random() < .5 else False, rng.random() < 0.15).job())
    for _ in range(c.scale(120)):
        jobs.append(j_slice(rng, inputs(rng, n=R(rng, [3, 6, 10])), 0.4).io(0.3).job())
    c.judge(jobs, kind="slice")
    # sample: size and membership on every shape, then over many seeds
    jobs = []
    for n in range(0, 9):
        for k in (1, 2, 3, 5, 8, 9, 20):
            for rep in range(2):
                f = numbered(n, (0,) if rep else ())
                jobs.append(sample_job(rng, [f[:n // 3], f[n // 3:]], k, rng.randrange(10 ** 6)).job())
    for _ in range(c.scale(80)):
        jobs.append(j_sample(rng, inputs(rng, n=R(rng, [3, 6, 10])), 0.4).job())
    c.judge(jobs, kind="sample")
    seeds(c)


def seeds(c):
    """over many seeds: same seed, same sample; every record can be in the sample
    and every record can be left out (n > k)"""
    rng = c.rng
    cases = [(5, 2, 160, 0, None), (6, 3, 160, 0, None), (4, 1, 120, 0, None), (4, 3, 100, 0, None), (9, 4, 120 if not c.thorough else 1500, 0, None),
             (8, 2, 120, 4, None), (7, 3, 120, 5, "where"), (9, 2, 120, 6, "bad"), (8, 3, 120, 0, "where"), (6, 2, 120, 5, None)]
    for n, k, S, limit, how in cases:
        f = numbered(n)

        def one(s):
            lines = numbered(n, (0, 3, 5)) if how == "bad" else numbered(n)
            if how == "where":                  # every second line is none of those asked for
                lines = [x for l in lines for x in (l, enc([("003@", "", [("0", b"x")])]))]
            h = s % (n + 1)
            b = sample_job(rng, [lines] if s % 2 else [lines[:h], lines[h:]], k, s)
            b.o["limit"] = limit
            b.args += (["-l", str(limit)] if limit else [])
            if how == "where":
                b.args += ["--where", "003@.0 != 'x'"]
            return b.job()
        jobs = [one(s) for s in range(S)] + [one(s) for s in range(0, S, 8)]
        run_all(jobs)
        first, never_in, never_out, bad = {}, set(range(n)), set(range(n)), None
        obs = []
        for j, s in zip(jobs, list(range(S)) + list(range(0, S, 8))):
            obs.append({"seed": s, "exit": j.obs["exit"], "out": j.obs["out"]})
        v, what = sample_coverage(c, [ints(l) for l in f], k, obs, limit)
        c.counts["seed-coverage"] = c.counts.get("seed-coverage", 0) + len(jobs)
        c.traces += len(jobs)
        if v == "ok":
            continue
        key = "sample-distribution"
        if v == "biased" and key in c.known:
            c.known_hit(key, c.known[key])
            continue
        c.violation("sample of %d out of %d (limit %d) over %d seeds: %s (%s)" % (k, n, limit, S, v, what),
                    {"n": n, "k": k, "limit": limit, "how": how, "seeds": S, "verdict": v, "detail": what})


def sample_coverage(c, records, k, obs, limit):
    case = {"records": records, "k": k, "limit": limit, "runs": obs}
    path = os.path.join(WORK, "sample-%d.ndjson" % os.getpid())
    with open(path, "w") as h:
        h.write(json.dumps(case) + "\n")
    try:
        rc, out = tlc("SampleRuns", env={"CASES": path})
    finally:
        os.unlink(path)
    m = re.search(r'<<\s*"S",\s*"(\w+)",\s*(.*?)>>\s*$', out, re.M | re.S)
    if rc != 0 or not m:
        raise ToolError("SampleRuns: " + out[-2000:])
    return m.group(1), re.sub(r"\s+", " ", m.group(2))[:400]
