"""C07 format strings: the text a field is rendered to."""
from mk import *
import big
import itertools
from c06 import qjob

VALUES = [b"", b"a", b"@a", b"x @Y", b" b ", b"A b", "ü".encode(), b"@@"]


def grid():
    out, k = [], 0
    for n in (0, 1, 2, 3):
        vs = list(itertools.product(VALUES, repeat=n)) if n < 2 else [(VALUES[(i * 3 + j) % 8] for j in range(n)) for i in range(8)]
        for v in vs:
            v = list(v)
            for codes in (["aaa", "aba", "bca"][:1 if n < 2 else 3]):
                out.append(enc([("003@", "", [("0", b"%d" % k)]), ("028A", "", [(codes[i], v[i]) for i in range(n)])] +
                               ([("028A", "", [("a", b"2nd"), ("b", b"Z")])] if k % 4 == 0 else [])))
                k += 1
    return out


BLANKS = [9, 0xb, 0xc, 0xd, 0x20, 0x85, 0xa0, 0x1680, 0x2000, 0x2003, 0x200a, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000]
INK = [0, 1, 0x1c, 0x7f, 0xad, 0x180e, 0x200b, 0x200d, 0x2060, 0xfeff, 0x40, 0xff20, 0xfffd, 0x1f600, 0x10ffff]
LETTERS = "aAzZ[`{@äÄßẞÿŸæÆþÞ×÷ŁłŠšİıKÅåΩωЯяаАſµŉﬁﬃﬆĀāĸŹźŽž"


def chars(c, rng):
    """every character that some modifier changes, and those next to it, at every place of a value"""
    subs = [chr(x) for x in BLANKS + INK] + list(LETTERS)
    bad = [b"\xff", b"\xc3", b"\xe2\x80", b"\xf0\x9f\x98"]
    lines = []
    for k, x in enumerate([x.encode() for x in subs] + bad):
        vs = [x, x + b"a", b"a" + x, x + b"a" + x, b"a" + x + b"B", b" " + x + b" ", x + x, x + b"@" + x + b"@", x + b" A\xc3\xbc " + x]
        lines.append(enc([("003@", "", [("0", b"%d" % k)])] + [("028A", "", [("a", v), ("b", b"-")]) for v in vs] +
                         [("028A", "", [("a", x), ("a", b"b"), ("a", x)])]))
    cs = {"all": False, "r": [[97, 97]]}
    jobs = []
    for m in ["", "t", "w", "l", "u", "o", "tw", "to", "tl", "tu", "wl", "wu", "lu", "ou", "tlo", "twlu", "otwlu"]:
        ms = list(m)
        rng.shuffle(ms)
        t = "?" + "".join(ms) + " " if ms else ""
        v = {"k": "val", "cs": cs, "pre": [], "suf": [], "n": -1, "mod": ms}
        w = {"k": "val", "cs": cs, "pre": vb(" "), "suf": vb("\u2003"), "n": -1, "mod": []}
        g = {"k": "grp", "mod": ms, "x": {"k": "cons", "xs": [w, {"k": "val", "cs": {"all": False, "r": [[98, 98]]}, "pre": [], "suf": [], "n": 1, "mod": []}]}}
        for x, s in ((v, t + "a.."), (g, "(%s' ' a.. '\u2003' <*> b)" % t)):
            q = [{"k": "path", "p": PPN_PATH}, {"k": "fmt", "f": {"t": lit_tag("028A"), "o": NOOCC, "has": False, "m": [], "x": x}}]
            jobs.append(qjob(rng, [lines[:len(lines) // 2], lines[len(lines) // 2:]], q, "003@.0, 028A{%s}" % s))
    c.judge(jobs, kind="characters")


def check(c):
    rng = c.rng
    chars(c, random.Random(c.seed))
    c.judge(big.formats(random.Random(c.seed), c), kind="scale")
    c.model("MCFormat")
    g = grid()
    jobs = []
    # every modifier set on a value and on a group; every bound; prefix/suffix present or not
    mods = ["".join(x) for n in range(0, 6) for x in itertools.combinations("lutwo", n)]
    cs = {"all": False, "r": [[97, 97]]}
    mk = lambda x, s: ([{"k": "path", "p": PPN_PATH}, {"k": "fmt", "f": {"t": lit_tag("028A"), "o": NOOCC, "has": False, "m": [], "x": x}}], "003@.0, 028A{%s}" % s)
    for m in mods:
        ms = list(m)
        rng.shuffle(ms)
        for n, ns in ((1, ""), (-1, ".."), (0, "..0"), (1, "..1"), (2, "..2"), (3, "..3")):
            pre, suf = R(rng, ["", "<", "@ "]), R(rng, ["", ">", " @"])
            v = {"k": "val", "cs": cs, "pre": vb(pre), "suf": vb(suf), "n": n, "mod": ms}
            s = ("?" + "".join(ms) + " " if ms else "") + (qstr(rng, pre) + " " if pre else "") + "a" + ns + (" " + qstr(rng, suf) if suf else "")
            v0 = {"k": "val", "cs": {"all": False, "r": [[98, 98]]}, "pre": [], "suf": vb("!"), "n": -1, "mod": []}
            x = {"k": R(rng, ["cons", "then"]), "xs": [v, v0]}
            j = " <*> " if x["k"] == "cons" else " <$> "
            jobs.append(qjob(rng, [g], *mk(x, s + j + "b.. '!'")))
            gx = {"k": "grp", "mod": ms, "x": x}
            if not c.thorough and n not in (1, -1):
                continue
            jobs.append(qjob(rng, [g], *mk(gx, "(" + ("?" + "".join(ms) + " " if ms else "") + s + j + "b.. '!')")))
    c.judge(jobs, kind="modifiers-and-bounds")
    jobs = []
    for _ in range(c.scale(500)):
        files = [corpus(rng, 8, bad=R(rng, [0, 0, 0.1]))]
        f, s = fmt(rng, matcher=0.25)
        q = [{"k": "fmt", "f": f}]
        if rng.random() < 0.3:
            q, s = [{"k": "path", "p": PPN_PATH}] + q, "003@.0, " + s
        m = rng.random()
        jobs.append(qjob(rng, files, q, s, squash=m < 0.15, merge=0.15 <= m < 0.3, sep=R(rng, [None, ";"]), noempty=rng.random() < 0.2, uniq=rng.random() < 0.2))
    c.judge(jobs, kind="random-formats")
