"""C15 convert and print: every format shows every record completely."""
from mk import *
import big
import itertools

SPECIAL = [b"<", b">", b"&", b"'", b'"', b"\\", b"$", b"\t", b"\r", b"\x00", b"\x01", b"\x0b", b"\x7f", b"a$$b", b"]]>", b"&amp;", b"\\n",
           b"\x1d", b"/", "\u2028".encode(), "\u0085".encode(), "\ufeff".encode(), "\U0001f600".encode(), b" ", b""]


def check(c):
    rng = c.rng
    c.judge(big.renders(random.Random(c.seed), c), kind="scale")
    c.model("MCRender", "MCRender_deep" if c.thorough else None)
    jobs = []
    tos = ["plus", "plain", "json", "xml", "binary", "import"]
    # every single byte and every special pair as a value, in every format
    ones = [bytes([b]) for b in range(256) if b not in (10, 30, 31)]
    pairs = [a + b for a, b in itertools.product(SPECIAL[:12] + [b"x"], repeat=2)]
    for to in tos + ["print"]:
        pool = ones + pairs + SPECIAL
        if to == "xml":         # XML 1.0 text: what no XML document can hold is out of scope
            pool = [v for v in pool if okxml(v)]
        for a in range(0, len(pool), 40):
            lines = [enc([("003@", "", [("0", b"%d" % (a + k))]), ("012A", R(rng, ["", "01", "001"]) if to != "xml" or rng.random() < 0.3 else "", [("a", v), ("b", b"x"), ("a", v + v)])])
                     for k, v in enumerate(pool[a:a + 40])]
            b = j_print(rng, [lines], 0) if to == "print" else j_convert(rng, [lines], to=to)
            if not b.o["skip"]:
                b.o["skip"] = True
                b.args.append("-s")
            jobs.append(b.job())
    c.judge(jobs, kind="every-byte")
    jobs = []
    for k in range(c.scale(280)):
        to = (tos + ["print", "print"])[k % 8]
        if to == "xml" and k % 16 > 8 and not c.thorough:
            continue
        files = inputs(rng, n=R(rng, [0, 1, 3, 6]), inv=R(rng, [0, 0.15]), bad=R(rng, [0, 0.05]))
        b = j_print(rng, files, 0.3) if to == "print" else j_convert(rng, files, to=to)
        jobs.append(b.job())
    c.judge(jobs, kind="random")
    # print with --translit: every normalisation form
    jobs = []
    for nf in sorted(NFS) * 4:
        f = [corpus(rng, 6, bad=0.1) + [enc([("028A", "", [("a", x.encode())]) for x in ("e\u0301", "é", "ﬁ", "Å", "\u212b", "한", "\u1100\u1161", "q\u0323\u0307")])]]
        b = B(rng, "print", f)
        b.o.update(skip=True, nf=rowcells_nf(NFS[nf], lossy_values(f)))
        b.args += ["-s", "--translit", nf]
        jobs.append(b.job())
    c.judge(jobs, kind="print-translit")


def okxml(v):
    try:
        s = v.decode()
    except UnicodeDecodeError:
        return False
    return all(ch in "\t\r" or (ch >= " " and ch not in "\ufffe\uffff") for ch in s)
