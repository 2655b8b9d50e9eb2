"""C14 hash: one line per record, its identifier and the SHA-256 of exactly its bytes."""
from mk import *
import big


def check(c):
    rng = c.rng
    c.judge(big.hashes(random.Random(c.seed), c), kind="scale")
    c.model("MCSelect")
    jobs = []
    # record lengths around the block boundaries of the digest
    for n in list(range(0, 140, 1 if c.thorough else 3)) + [500, 1000, 4096, 8190, 8192, 8200, 20000, 65500, 65536, 70000, 140000]:
        lines = [enc([("003@", "", [("0", b"%d" % n)]), ("012A", "", [("a", b"x" * n)])]), enc([("012A", "", [("a", b"y" * n)])])]
        jobs.append(j_hash(rng, [lines], 0).job())
    for _ in range(c.scale(260)):
        files = inputs(rng, n=R(rng, [1, 4, 8]), inv=R(rng, [0, 0.2]), bad=R(rng, [0, 0.1]), long=rng.random() < 0.2)
        if rng.random() < 0.3:       # identifiers that need quoting, repeated identifiers, several per record
            files[0] = [enc([("003@", "", [("0", R(rng, WORDS).encode()) for _ in range(rng.randrange(1, 3))])] +
                            ([("003@", "", [("0", b"second")])] if rng.random() < 0.3 else [])) for _ in range(5)]
        b = j_hash(rng, files, R(rng, [0, 0.5]))
        if not b.o["skip"] and rng.random() < 0.8:
            b.o["skip"] = True
            b.args.append("-s")
        if rng.random() < 0.3:
            b.kw["gz"] = list(range(len(files)))
            b.kw.pop("stdin", None)
        jobs.append(b.job())
    c.judge(jobs, kind="hash")
    # the same record read through any path of the program hashes the same
    jobs = []
    for _ in range(c.scale(40)):
        recs = corpus(rng, 3)
        f = []
        for _ in range(12):
            f.append(R(rng, recs))
        jobs.append(j_hash(rng, [f[:5], f[5:]], 0).job())
    c.judge(jobs, kind="repeated")
