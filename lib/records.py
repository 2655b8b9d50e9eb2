"""Library calls on records, their parts and the reader; TLC judges."""
from values import *
import zlib


# how a source or a sink fails (harness: fn kind)
FAILS = ["other", "eof", "block", "pipe", "time", "data", "input", "denied", "zero"]


class RecCase:
    def __init__(self, what, note="", **kw):
        self.what, self.note, self.kw, self.ans = what, note, kw, None

    def request(self):
        return dict(self.kw, t="rec", what=self.what)

    def case(self):
        a = dict(self.ans)
        for r in a.get("recs", []):
            r["shaof"] = ints(hashlib.sha256(bytes(r["seen"]["text"])).digest())
        if self.what == "sink" and "got" in a:
            a["plain"] = a["got"] if self.kw["who"] != "gzip" else ints(unpacked(bytes(a["got"])))
        return dict(self.kw, t=self.what, obs=a)

    def show(self):
        def f(x):
            if isinstance(x, list) and x and all(isinstance(i, int) and 0 <= i < 256 for i in x):
                return repr(bytes(x))
            if isinstance(x, list):
                return [f(i) for i in x]
            if isinstance(x, dict):
                return {k: f(v) for k, v in x.items() if k not in ("t", "o") or isinstance(v, str)}
            return x
        return f(self.kw)


def unpacked(data):
    """as much of a gzip stream as can be had"""
    z, out = zlib.decompressobj(31), b""
    for i in range(len(data)):
        try:
            out += z.decompress(data[i:i + 1])
        except zlib.error:
            break
    return out


def judge_records(c, cases, kind, chunk=4000):
    tally = {}
    for a in range(0, len(cases), chunk):
        part = cases[a:a + chunk]
        for v, ans in zip(part, call_all([v.request() for v in part])):
            v.ans = ans
        verdicts, _, gen, dist = validate([v.case() for v in part], "RecordTrace")
        c.states += dist
        c.trans += gen
        for v, verdict in zip(part, verdicts):
            tally[verdict] = tally.get(verdict, 0) + 1
            if verdict.startswith("bad"):
                c.violation("%s: %s %s\n   answer %s" % (verdict, v.what, json.dumps(v.show(), ensure_ascii=False)[:900], json.dumps(v.ans)[:900]),
                            {"verdict": verdict, "what": v.what, "case": v.show(), "answer": v.ans})
    n = sum(tally.values())
    c.traces += n
    c.counts[kind] = c.counts.get(kind, 0) + n
    for k, x in tally.items():
        c.counts["%s:%s" % (kind, k)] = c.counts.get("%s:%s" % (kind, k), 0) + x
    if len(c.samples) < 3 and cases:
        v = cases[c.rng.randrange(len(cases))]
        c.samples.append({"what": v.what, "case": json.dumps(v.show())[:600], "answer": json.dumps(v.ans)[:300]})
    c.log("%d cases judged (%s): %s" % (n, kind, " ".join("%s %d" % x for x in sorted(tally.items()))))


# ------------------------------------------------------------- generators
def given(fs):
    """fields by their parts, from [(tag, occ or None, [(code, value)])]"""
    return [{"tag": ints(t.encode()), "hasocc": o is not None, "occ": ints((o or "").encode()),
             "sub": [{"c": ord(c), "v": ints(v.encode())} for c, v in s]} for t, o, s in fs]


def parts(rng, bad=0.0):
    fs = []
    for _ in range(R(rng, [1, 1, 2, 3, 0 if rng.random() < 0.3 else 2])):
        t = R(rng, ["003@", "012A", "013A", "101@", "203@", "028A"])
        o = R(rng, [None, None, "01", "00", "123", "02"])
        s = [(R(rng, "ab01Z"), value(rng).decode("utf-8", "replace").replace("\x1e", "").replace("\x1f", "")) for _ in range(rng.randrange(0, 4))]
        if rng.random() < bad:
            k = rng.randrange(5)
            if k == 0:
                t = R(rng, ["", "312A", "012", "012a", "01AA", "012AA", "0\u0661" "2A", "012[", "\u0131" "12A"])
            if k == 1:
                o = R(rng, ["", "1", "0001", "0a", "/01", " 01", "\u0660\u0661", "01 "])
            if k in (2, 3):
                s = s + [(R(rng, ["$", " ", "\u00e4", "\u0161", "\x1f", "{", "@", "/", ":", "[", "`"]), "x")]
            if k == 4:
                s = s + [("a", R(rng, ["\x1f", "x\x1ey", "\x1e", "y\x1fa"]))]
        fs.append((t, o, s))
    return fs


def plist(rng, n=None):
    xs = []
    for _ in range(rng.randrange(0, 4) if n is None else n):
        t, ts = tagm(rng, 0.6, ["003@", "012A", "013A", "101@", "203@", "028A"])
        o, os_ = occm(rng)
        xs.append({"t": t, "o": o, "tt": ints(ts.encode()), "ot": ints(os_.encode())})
    return xs


def pred(rng):
    k = R(rng, ["tag", "code", "occ", "odd", "all", "no"])
    return {"k": k, "tag": ints(R(rng, ["012A", "003@", "013A"]).encode()), "c": ord(R(rng, "ab0Z"))}


def history(rng, n, bad=0.05):
    """a random program; depth of the stack stays between 1 and 4"""
    p, d = [], 0
    while len(p) < n or d == 0:
        k = rng.random()
        if d == 0 or (k < 0.18 and d < 4):
            if rng.random() < 0.65:
                tags = ["003@", "012A", "012A", "013A", "101@", "203@"]
                t = enc(record(rng, bad=R(rng, [0, 0, 0.2]), tags=tags, nf=rng.randrange(1, 5)))
                if rng.random() < bad:
                    t = badline(rng)
                p.append({"op": "load", "text": ints(t), "via": R(rng, ["byte", "byte", "ref"])})
            else:
                p.append({"op": "new", "fields": given(parts(rng, bad))})
            d += 1
        elif k < 0.28 and d < 4:
            p.append({"op": "copy"})
            d += 1
        elif k < 0.42:
            p.append({"op": "keep", "list": plist(rng)})
        elif k < 0.56:
            p.append({"op": "discard", "list": plist(rng)})
        elif k < 0.66:
            p.append({"op": "retain", "pred": pred(rng)})
        elif k < 0.74:
            p.append({"op": "through", "pred": pred(rng)})
        elif k < 0.78:
            p.append({"op": "assign", "fields": given(parts(rng, bad))})
        elif k < 0.90:
            p.append({"op": "serde", "via": R(rng, ["byte", "ref"])})
        elif k < 0.95:
            p.append({"op": "string"})
        elif d > 1:
            p.append({"op": "swap"})
    return p
