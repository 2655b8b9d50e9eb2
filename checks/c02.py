"""C02 reading streams: framing, skipping, stopping, positions of errors."""
from mk import *
import big
import itertools

GOOD = [b"003@ \x1f01\x1e\n", b"003@ \x1f02\x1e012A \x1fax\x1e\n"]
BAD = b"003@ \x1f0\n"


def boundaries(c, rng):
    """lines that end next to the boundaries of read buffers"""
    jobs = []
    for size in (512, 4096, 8192, 16384, 32768, 65536) if c.thorough else (4096, 8192, 16384, 32768):
        for d in (-2, -1, 0, 1, 2):
            for first in ([], [GOOD[0]], [GOOD[1], BAD]) if c.thorough or size == 8192 else ([GOOD[0]],):
                n = size + d - sum(map(len, first))
                cut = [n] if rng.random() < 0.5 else [n // 2, n - n // 2]
                body = first + [b"003@ \x1f0" + bytes([65 + i]) * (m - 9) + b"\x1e\n" for i, m in enumerate(cut)]
                assert sum(map(len, body)) == size + d
                f = body + [GOOD[1], R(rng, [GOOD[0], BAD]), GOOD[0]]
                g = R(rng, [lambda: j_concat(rng, [f, [GOOD[1]]], False), lambda: j_invalid(rng, [f, [BAD]]),
                            lambda: j_always(rng, [f, [GOOD[1]]], skip=True)])
                b = g()
                b.kw.pop("stdin", None)
                b.kw.pop("gz", None)
                if rng.random() < 0.4:
                    b.kw["gz"] = [0]
                    b.kw["members"] = R(rng, [1, 2])
                elif rng.random() < 0.3:
                    b.kw["stdin"] = True
                jobs.append(b.job())
    c.judge(jobs, kind="buffer-boundaries")


ODD = [b"\xef\xbb\xbf", b"\xfe\xff", b"\xff\xfe", b" ", b"\t", b"\0", b"\r", b"\r\n", b"\n", b"\n\n", b"#\n", b"# x\n", b"\x1f\x8b", b"\x1f\x8b\x08\x00\n", b"\x1a", b"\x1e", b"\x1f", b"\x1d", b"\xc2\xa0",
       b"\xe2\x80\xa8", b"BZh9", b"\x28\xb5\x2f\xfd", b"-\n", b"\x0c", b"\\n", b";"]


def oddities(c, rng):
    """bytes that elsewhere begin or end a text, where a file begins or ends, or within it: they are what they are"""
    jobs = []
    for odd in ODD:
        texts = [odd + b"".join(GOOD), GOOD[0] + odd + GOOD[1], b"".join(GOOD) + odd, odd, odd + odd + GOOD[0], GOOD[0][:-1] + odd + b"\n" + GOOD[1], GOOD[0][:-2] + odd + GOOD[0][-2:] + GOOD[1]]
        for k, text in enumerate(texts):
            f = text.split(b"\n")
            f = [x + b"\n" for x in f[:-1]] + ([f[-1]] if f[-1] else [])
            for files in ([f], [GOOD, f, GOOD]):
                g = R(rng, [lambda: j_invalid(rng, files), lambda: j_always(rng, files, skip=True), lambda: j_always(rng, files), lambda: j_concat(rng, files, False), lambda: j_hash(rng, files, 0)])
                b = g()
                b.kw.pop("stdin", None)
                b.kw.pop("gz", None)
                m = rng.random()
                if m < 0.25:
                    b.kw["stdin"] = True
                elif m < 0.5:
                    b.kw["gz"] = list(range(len(files)))
                jobs.append(b.job())
            jobs.append(j_invalid(rng, [f]).job())
            jobs.append(j_always(rng, [f], skip=True).job())
    c.judge(jobs, kind="oddities")


def check(c):
    rng = c.rng
    c.judge(big.streams(random.Random(c.seed), c), kind="scale")
    c.model("MCPipeline")
    # every small stream of valid and invalid lines, in one or two files
    lines = [GOOD[0], GOOD[1], BAD]
    jobs = []
    streams = [list(s) for k in range(0, 4 if c.thorough else 3) for s in itertools.product(lines, repeat=k)]
    for f1 in streams:
        for f2 in [None] + [list(s) for k in range(0, 3 if c.thorough else 2) for s in itertools.product([GOOD[0], BAD], repeat=k)]:
            files = [f1] if f2 is None else [f1, f2]
            for skip in (False, True):
                jobs.append(j_always(rng, files, skip=skip).job())
            jobs.append(j_invalid(rng, files).job())
            b = j_concat(rng, files, uniq=False)
            jobs.append(b.job())
    c.judge(jobs, kind="small-streams")
    oddities(c, rng)
    jobs = []
    boundaries(c, rng)
    G = [lambda r, f: j_always(r, f, skip=r.random() < 0.5), j_invalid, lambda r, f: j_concat(r, f, False),
         lambda r, f: j_count(r, f, 0.2), j_convert, lambda r, f: j_hash(r, f, 0.1), lambda r, f: j_print(r, f, 0.1),
         lambda r, f: j_filter(r, f, 0.1), lambda r, f: j_slice(r, f, 0.1), lambda r, f: j_split(r, f, 0.1),
         lambda r, f: j_frequency(r, f, 0.1), lambda r, f: j_select(r, f, 0.1), lambda r, f: j_describe(r, f, 0.1),
         lambda r, f: j_sample(r, f, 0.1), lambda r, f: j_explode(r, f, 0.1), lambda r, f: j_partition(r, f, 0.1)]
    for k in range(c.scale(320)):
        files = inputs(rng, inv=R(rng, [0, 0.1, 0.3, 0.6]), bad=0.1, n=R(rng, [1, 2, 4, 7]))
        if rng.random() < 0.2:      # last line without its newline
            f = R(rng, files)
            if f:
                f[-1] = f[-1].rstrip(b"\n") or b"x"
        if rng.random() < 0.05:     # a line longer than the reader's buffer
            f = R(rng, files)
            f.insert(rng.randrange(len(f) + 1), enc([("003@", "", [("0", b"1")]), ("012A", "", [("a", b"y" * rng.randrange(8000, 20000))])]))
        g = G[k % len(G)]
        if g is G[-1] and not safe_values(files):
            g = G[0]
        b = g(rng, files)
        b.kw.pop("stdin", None)
        b.kw.pop("gz", None)
        m = rng.random()
        if m < 0.25:
            b.kw["stdin"] = True
        elif m < 0.6:
            b.kw["gz"] = [i for i in range(len(files)) if rng.random() < 0.6]
            b.kw["members"] = R(rng, [1, 1, 2, 3])
        jobs.append(b.job())
    c.judge(jobs, kind="streams")
