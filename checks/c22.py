"""C22 the library reader."""
from records import *
import itertools


def stream(rng, n):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.72:
            out.append(enc(record(rng, bad=R(rng, [0, 0, 0.5]), nf=rng.randrange(1, 4), long=rng.random() < 0.03)))
        elif k < 0.8:
            out.append(R(rng, [b"\n", b"\r\n", b" \n", b"012A \x1e\r\n", b"\x1e\n", b"012A \x1fa\x1e \n"]))
        else:
            out.append(badline(rng))
    d = b"".join(out)
    if rng.random() < 0.3 and d:
        d = d[:-1] if rng.random() < 0.5 else d[:rng.randrange(len(d))]
    return d


def calls(rng, data):
    n = data.count(b"\n") + R(rng, [1, 2, 3, 4])
    k = rng.random()
    return ["byte" if k < 0.35 else "string" if k < 0.6 else R(rng, ["byte", "string"]) for _ in range(n)]


def case(rng, data, cuts, limit=-1, src=None):
    return RecCase("reader", data=ints(data), cuts=cuts, limit=limit, fails=R(rng, FAILS), calls=calls(rng, data),
                   src=ints((src if src is not None else R(rng, ["", "a.dat", "dir/b.dat.gz", "x y"])).encode()))


def random_streams(c):
    rng = c.rng
    cases = []
    for _ in range(c.scale(2500, 25000)):
        d = stream(rng, rng.randrange(0, 8))
        cuts = R(rng, [[1], [8192], [1 << 20], [7], [0, 3], [1, 0, 0, 2], [rng.randrange(1, 40) for _ in range(5)], [64, 0, 1]])
        limit = rng.randrange(len(d) + 1) if rng.random() < 0.25 else -1
        cases.append(case(rng, d, cuts, limit))
    judge_records(c, cases, "streams")


def oddities(c):
    """bytes that elsewhere begin or end a text"""
    from c02 import ODD
    rng = c.rng
    good = [enc([("003@", "", [("0", b"1")])]), enc([("012A", "01", [("a", b"\xc3\xa4")]), ("013A", "", [])])]
    cases = []
    for odd in ODD:
        for d in (odd + good[0] + good[1], good[0] + odd + good[1], good[0] + good[1] + odd, odd, odd + odd + good[1], good[0][:-1] + odd + b"\n" + good[1]):
            for cuts in ([1 << 20], [1], [len(odd)]):
                cases.append(case(rng, d, cuts))
    judge_records(c, cases, "oddities")


def every_cut(c):
    """each way to cut a short stream in two, with and without an interruption; each place to fail"""
    rng = c.rng
    cases = []
    for d in [enc([("003@", "", [("0", b"1")])]) + b"x\n" + enc([("012A", "01", [("a", b"\xc3\xa4")]), ("013A", "", [])]) + enc([("012A", "", [("a", b"\xff")])]),
              b"\n" + enc([("012A", "", [])]) + enc([("012A", "", [])])[:-1], b"", b"\n", enc([("012A", "", [])])]:
        for k in range(1, len(d) + 1):
            for gap in ([], [0], [0, 0]):
                cases.append(case(rng, d, [k] + gap + [len(d)]))
        for k in range(0, len(d) + 1):
            cases.append(case(rng, d, [R(rng, [1, 5, 1000])], k))
    judge_records(c, cases, "cuts")


def buffer_edges(c):
    """lines that end around the edges of the read buffer"""
    rng = c.rng
    cases = []
    head = enc([("003@", "", [("0", b"1")])])
    for edge in ([8192, 16384] if c.thorough else [8192]):
        for k in list(range(-4, 5)):
            fill = edge + k - len(head)
            rec = b"012A \x1fa" + b"x" * (fill - 9) + b"\x1e\n"
            assert len(rec) == fill
            tail = enc([("101@", "", [("a", b"k")])])
            for cuts in ([8192], [1 << 20], [4096, 1], [8191, 1, 1]):
                cases.append(case(rng, head + rec + tail + b"bad\n" + tail, cuts))
    judge_records(c, cases, "buffer-edges")


def check(c):
    c.model("MCReader", "MCReader_deep" if c.thorough else None)
    build_harness()
    c.log("harness built")
    random_streams(c)
    every_cut(c)
    oddities(c)
    buffer_edges(c)
