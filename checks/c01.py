"""C01 record fidelity: which lines are records, what is read, what is written back."""
from mk import *
import big

TEMPL = b"0129/03 " + US + b"aV" + RS + b"1" b"38@ " + US + b"9" + US + b"Zx y" + RS + NL


def around(rng, line):
    """a file in which the line under test sits between good ones"""
    return [enc(record(rng, nf=1)), line, enc(record(rng, nf=1))]


def mutants():
    """every single-byte replacement and deletion and most insertions in two short lines"""
    out = []
    for t in (b"012A/03 " + US + b"aV" + RS + b"138@ " + US + b"9" + RS + NL,
              b"203@/100 " + US + b"0" + US + b"Zx" + RS + NL):
        for p in range(len(t)):
            for b in range(256):
                if b != 10:
                    out.append(t[:p] + bytes([b]) + t[p + 1:])
            out.append(t[:p] + t[p + 1:])
            for b in (0x1e, 0x1f, 0x20, 0x2f, 0x30, 0x39, 0x40, 0x41, 0x5a, 0x61, 0x7a, 0x00, 0xff, 0x0d, 0x3a, 0x5b, 0x7b):
                out.append(t[:p] + bytes([b]) + t[p:])
    out = [l if l.endswith(b"\n") else l + b"\n" for l in out]
    return sorted(set(out))


TOKENS = [b"002@", b"/01", b" ", US + b"a", b"x", RS, b"/001", US]


def token_lines(n):
    """every line over a small token alphabet"""
    import itertools
    for k in range(0, n + 1):
        for t in itertools.product(TOKENS, repeat=k):
            yield b"".join(t) + NL


def wild_record(rng):
    """values from all bytes but the separators; all tags, codes and occurrences"""
    rec = []
    for _ in range(rng.randrange(1, 5)):
        tag = "%s%d%d%s" % (R(rng, "012"), rng.randrange(10), rng.randrange(10), R(rng, "ABCDEFGHIJKLMNOPQRSTUVWXYZ@"))
        occ = R(rng, ["", "", "%02d" % rng.randrange(100), "%03d" % rng.randrange(1000)])
        subs = []
        for _ in range(rng.randrange(0, 5)):
            n = R(rng, [0, 1, 2, 5, 20, 200])
            v = bytes(rng.choice([b for b in range(256) if b not in (10, 0x1e, 0x1f)]) for _ in range(n))
            subs.append((R(rng, "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"), v))
        rec.append((tag, occ, subs))
    return rec


KEEPALL = [{"t": ANYTAG, "o": {"k": "any"}}]


def check(c):
    rng = c.rng
    c.judge(big.records(random.Random(c.seed), c), kind="scale")
    c.model("MCRecord")
    lines = mutants()
    tl = list(token_lines(6 if c.thorough else 4))
    if not c.thorough:
        lines = [l for k, l in enumerate(lines) if k % 2 == c.seed % 2]
    jobs = []
    allb = lines + tl
    rng.shuffle(allb)
    step = 60
    for a in range(0, len(allb), step):
        files = [allb[a:a + step]]
        jobs.append(j_always(rng, files).job())
        jobs.append(j_invalid(rng, files).job())
    c.judge(jobs, kind="exhaustive-lines")
    # re-encoding after keep (fields are rebuilt), explode and convert write records field by field
    jobs = []
    for _ in range(c.scale(150)):
        files = [[badline(rng) if rng.random() < 0.1 else enc(wild_record(rng)) for _ in range(rng.randrange(1, 8))]
                 for _ in range(R(rng, [1, 1, 2]))]
        m = rng.randrange(5)
        if m == 0:
            b = j_always(rng, files)
            b.o["keep"] = KEEPALL
            b.args += ["-k", "..../*"]
        elif m == 1:
            b = j_convert(rng, files, to="plus")
        elif m == 2:
            b = B(rng, "explode", files)
            b.o.update(level="main", skip=True)
            b.args.append("-s")
            b.post = ["main"]
        elif m == 3:
            b = j_concat(rng, files)
        else:
            b = j_always(rng, files)
        jobs.append(b.io(0.2).job())
    c.judge(jobs, kind="wild-records")
