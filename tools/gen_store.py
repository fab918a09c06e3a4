"""Programs over containers as values: equality and copies (C26)."""

ET = {"i64": "int", "i8": "int", "str": "int", "dvec": "int", "el0": "int", "f32": "float", "f64": "float", "el1": "float", "el2": "mod", "cf": "cf"}
LETTERS = {"int": [0, 1, 2, 3, 7, 10, 125, 126], "float": [0, 1, 2, 7, 1000, 1001, 1002, 1003], "mod": [0, 1, 2, 5, 6, 7, 10],
           "cf": [0, 1, 10000, 10001, 20001, 1001, 10010000, 10001000, 1000, 10010000 + 1001, 10000 * 1002 + 1]}
IMPLS = {"dm": list(ET), "dv": list(ET), "cx": list(ET), "sv": list(ET), "sm": ["el0", "el1", "el2"], "po": ["x"]}
SVDIM = [0, 1, 2, 3, 4, 8, 9, 17, 33, 64, 65, 130, 257]
SMDIM = [(0, 0), (0, 1), (1, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (1, 9), (9, 1), (5, 4),
         (1, 33), (33, 1), (17, 16), (1, 65), (65, 1), (1, 257), (257, 2)]
LOAD = {"dm": ["", "t", "map", "same"], "dv": ["", "map", "slice", "same"], "sv": ["", "fld"], "cx": ["", "fld"], "sm": [""], "po": [""]}
COPY = {"dm": ["", "from", "ref", "wrap", "val", "tt"], "dv": ["", "from", "ref", "wrap", "val"], "sv": ["", "from"], "cx": ["", "from"],
        "sm": ["", "from", "bits"], "po": ["", "from"]}
SET = {"dm": [""], "dv": [""], "sv": ["", "fld", "iter"], "cx": [""]}


MORE = {"i64": [255, 256, 65536, 2147483647, -2147483647], "i8": [127, -128, -127, -1]}


def letters(impl):
    return LETTERS[et(impl)] + MORE.get(impl, [])


def et(impl):
    return ET.get(impl, "int")


def other(rnd, impl, y):
    """Something else, most of the time not equal."""
    return rnd.choice([x for x in letters(impl) if x != y])


class Prog:
    def __init__(self, rnd, sort, impl, r=0, c=0, nr=4):
        self.rnd, self.sort, self.impl = rnd, sort, impl
        if sort == "cx":
            r, c = 1, 2
        self.nr = nr
        self.ev = [{"op": "session", "sort": sort, "impl": impl, "et": et(impl), "nr": nr, "r": r, "c": c}]
        self.v = [(r, c)] * nr        # shapes

    def load(self, d, r, c, pat, at=(), f=None):
        self.v[d] = (r, c)
        self.ev.append({"op": "load", "d": d, "r": r, "c": c, "pat": list(pat), "at": [list(p) for p in at],
                        "f": self.rnd.choice(LOAD[self.sort]) if f is None else f})

    def copy(self, d, a, f=None):
        self.v[d] = self.v[a]
        self.ev.append({"op": "copy", "d": d, "a": a, "f": self.rnd.choice(COPY[self.sort]) if f is None else f})

    def set(self, d, i, j, y):
        self.ev.append({"op": "set", "d": d, "i": i, "j": j, "y": y, "f": self.rnd.choice(SET[self.sort])})

    def eq(self, a, b):
        self.ev.append({"op": "eq", "a": a, "b": b})

    def add(self, d, a):
        if self.sort == "po" or self.v[d] == self.v[a]:
            self.ev.append({"op": "add", "d": d, "a": a})

    def dump(self):
        self.ev.append({"op": "dump"})


def model(run, rnd, scale, big):
    """Every pair of small containers, from the specification's model."""
    out = []
    A = lambda s: "{" + ", ".join(map(str, s)) + "}"
    confs = []
    for sort, shape in (("dm", (2, 2)), ("sm", (2, 2)), ("dv", (3, 1)), ("sv", (3, 1)), ("cx", (1, 2)), ("po", (4, 1))):
        if sort == "po":
            confs.append((sort, "int", [0, 1], (5, 1) if big else (4, 1)))
            continue
        wide = sort in ("dv", "sv", "cx")
        confs.append((sort, "int", [0, 1, 2] if wide else [0, 1], shape))
        confs.append((sort, "float", [0, 1000, 1001] if wide else [0, 1000] if not big else [0, 1000, 1001], shape if not big or wide else (2, 1)))
        if sort != "cx" and (big or sort in ("dm", "sv")):
            confs.append((sort, "float", [1001, 0, 7] if wide else [1001, 0], shape if wide or big else (2, 1)))
        confs.append((sort, "mod", [2, 7, 1] if wide else [2, 1], shape if big or sort == "dm" else (2, 2)))
        if big and not wide:
            confs.append((sort, "int", [0, 1, 2], (1, 3)))
            confs.append((sort, "int", [0, 1], (3, 1)))
    for sort, t, alph, (r, c) in confs:
        sess = run.model("StoreMC", consts={"Sort": '"%s"' % sort, "T": '"%s"' % t, "Alphabet": A(alph), "MaxR": str(r), "MaxC": str(c)},
                         emit=True, timeout=800)
        rnd.shuffle(sess)
        if not big and len(sess) > 180:
            sess = sess[:180]
        for s in sess:
            s[0]["impl"] = rnd.choice([i for i in IMPLS[sort] if et(i) == t])
            for e in s[1:]:
                if e["op"] == "load":
                    e["f"] = rnd.choice(LOAD[sort])
                elif e["op"] == "copy":
                    e["f"] = rnd.choice(COPY[sort])
                elif e["op"] == "set":
                    e["f"] = rnd.choice(SET[sort])
            out.append(s)
    return out


def shapes(rnd, sort):
    """Shapes of which pairs are easily taken for each other."""
    n = rnd.choice([0, 0, 1, 2, 3, 4, 6, 8, 12, 16, 24, 36, 64])
    if sort == "dv":
        return [(k, 1) for k in (n, n + 1, max(0, n - 1), 0, 2 * n, n + 256)]
    if n == 0:
        ds = [(0, k) for k in (0, 1, 2, 3, 5)] + [(k, 0) for k in (1, 2, 3, 5)]
        return ds
    return [(d, n // d) for d in range(1, n + 1) if n % d == 0] + [(n, n), (n + 1, 1), (1, n + 1)]


def word(rnd, impl, n):
    l = letters(impl)
    if rnd.random() < .5:
        l = [x for x in l if x not in (1000, 10010000, 10001000)] if rnd.random() < .8 else l
        l = rnd.sample(l, min(len(l), 3))
    if rnd.random() < .4:
        return [rnd.choice(l)] * 1
    return [rnd.choice(l) for _ in range(max(1, n))]


def lookalikes(rnd, sort, impl):
    """The same entries under different shapes, all pairs compared."""
    sh = shapes(rnd, sort)
    rnd.shuffle(sh)
    sh = sh[:5]
    p = Prog(rnd, sort, impl, nr=len(sh))
    w = word(rnd, impl, max(r * c for r, c in sh))
    for d, (r, c) in enumerate(sh):
        p.load(d, r, c, w)
    for a in range(len(sh)):
        for b in range(len(sh)):
            p.eq(a, b)
    # copies over something of another shape
    for a in range(len(sh)):
        b = rnd.randrange(len(sh))
        p.copy(b, a)
        p.eq(a, b), p.eq(b, a)
        p.eq(b, rnd.randrange(len(sh)))
    p.dump()
    return p.ev


def dims(rnd, sort):
    if sort == "sv":
        return rnd.choice(SVDIM), 1
    if sort == "sm":
        return rnd.choice(SMDIM)
    if sort == "dv":
        return rnd.choice(SVDIM + [5, 6, 7, 15, 16, 31, 128, 256]), 1
    if sort == "cx":
        return 1, 2
    if sort == "po":
        return rnd.choice([0, 1, 2, 3, 5, 9, 17, 33, 65]), 1
    return rnd.choice([(1, 1), (2, 2), (3, 2), (2, 3), (4, 4), (1, 9), (9, 1), (5, 4), (1, 33), (33, 1), (17, 16), (8, 8), (16, 4)])


def places(rnd, n, k):
    """Places of which differences are easily overlooked."""
    c = [0, 1, n // 2, n - 1, n - 2, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 65535, 65536]
    c = sorted({x for x in c if 0 <= x < n})
    if len(c) > k:
        c = sorted(set(rnd.sample(c, k)) | {n - 1})
    return c + ([rnd.randrange(n)] if n else [])


def one_off(rnd, sort, impl, r, c, k=8):
    """Pairs that differ in one entry."""
    p = Prog(rnd, sort, impl, r, c, nr=3)
    n = r * c
    ok = [x for x in letters(impl) if x not in (1000, 10010000, 10001000, 1000 + 10000)]
    w = [rnd.choice(ok) for _ in range(min(n, rnd.choice([1, 3, 7])) or 1)]
    p.load(0, r, c, w)
    p.copy(1, 0)
    p.eq(0, 1)
    for k in places(rnd, n, k):
        y = w[k % len(w)]
        p.load(2, r, c, w, [(k, other(rnd, impl, y))])
        p.eq(0, 2), p.eq(2, 1)
        if sort in SET:
            p.set(2, k // c, k % c, y)
            p.eq(2, 0)
        # two differences
        k2 = rnd.randrange(n)
        p.load(2, r, c, w, [(k, other(rnd, impl, y)), (k2, other(rnd, impl, w[k2 % len(w)]))])
        p.eq(2, 0)
    if n < 3000:
        p.dump()
    return p.ev


def history(rnd, sort, impl, nev):
    """Copies, writes, comparisons, in any order."""
    r, c = dims(rnd, sort)
    p = Prog(rnd, sort, impl, r, c, nr=rnd.choice([2, 3, 4, 5]))
    free = sort in ("dm", "dv", "po")

    def load(d):
        s = (r, c) if not free or rnd.random() < .7 else dims(rnd, sort)
        p.load(d, *s, word(rnd, impl, s[0] * s[1]) if sort != "po" else [rnd.choice([0, 0, 1, 2, -1]) for _ in range(max(1, s[0]))])
    for d in range(p.nr):
        load(d)
    for _ in range(nev):
        x = rnd.random()
        a, d = rnd.randrange(p.nr), rnd.randrange(p.nr)
        if x < .08:
            load(d)
        elif x < .33:
            p.copy(d, a)
        elif x < .6 and sort in SET:
            rr, cc = p.v[d]
            if rr * cc:
                k = rnd.choice(places(rnd, rr * cc, 6))
                p.set(d, k // cc, k % cc, rnd.choice(letters(impl)))
                p.eq(d, a)
        elif x < .45 and (sort == "po" or sort == "sm" and et(impl) == "int"):
            p.add(d, a)
        elif x < .9:
            p.eq(a, d)
        elif rnd.random() < .4:
            p.dump()
    p.dump()
    return p.ev


def c26(rnd, run, scale):
    big = scale > 1
    out = model(run, rnd, scale, big)
    for sort in ("dm", "dv"):
        for impl in IMPLS[sort]:
            for _ in range((12 if sort == "dm" else 5) * scale):
                out.append(lookalikes(rnd, sort, impl))
    for sort in IMPLS:
        for impl in IMPLS[sort]:
            for _ in range(4 * scale):
                if sort not in ("po", "cx"):
                    r, c = dims(rnd, sort)
                    out.append(one_off(rnd, sort, impl, r, c, 5))
            for _ in range(6 * scale):
                out.append(history(rnd, sort, impl, 40))
    # more than 65536 entries, and sizes that agree in their low bytes
    for sort, shs, impls in (("dm", [(65537, 1), (1, 65537), (256, 257), (300, 300)], ["i64", "f64"]), ("dv", [(65537, 1), (70000, 1)], ["i64", "f32"]),
                             ("sv", [(70000, 1), (1025, 1)], ["i64", "f64"]), ("sm", [(300, 300)], ["el0"])):
        for r, c in shs:
            out.append(one_off(rnd, sort, rnd.choice(impls), r, c, 3))
    for sort, shs in (("dm", [(3, 1), (259, 1), (65539, 1), (1, 3), (1, 259)]), ("dv", [(2, 1), (258, 1), (65538, 1), (514, 1)]),
                      ("dm", [(0, 1), (0, 257), (0, 65537), (257, 0), (1, 0)]), ("dm", [(0, 1 << 20), (0, (1 << 30) + 1), (1 << 30, 0), (0, 1), (0, 1 << 30)])):
        p = Prog(rnd, sort, rnd.choice(["i64", "f32", "str"]) if shs[0][0] == 0 else "i64", nr=len(shs))
        for d, (r, c) in enumerate(shs):
            p.load(d, r, c, [1], f="")
        for a in range(len(shs)):
            for b in range(len(shs)):
                p.eq(a, b)
        for a in range(1, len(shs)):
            p.copy(a - 1, a), p.eq(a, a - 1)
        out.append(p.ev)
    return out
