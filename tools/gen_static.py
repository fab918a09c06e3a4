"""Programs over statically sized matrices and vectors (C09, C10)."""
from gen_poly import Elem, KINDS, LIMIT

ALL = [(1, 1, 1), (2, 2, 2), (1, 2, 2), (2, 1, 2), (2, 2, 1), (1, 3, 2), (2, 3, 1), (3, 1, 2),
       (2, 3, 4), (4, 3, 2), (3, 3, 3), (4, 4, 4), (0, 2, 2), (2, 0, 3), (2, 2, 0), (1, 8, 1), (9, 8, 2), (1, 130, 1)]
WIDE = [(1, 1, 1), (2, 2, 2), (2, 3, 4), (3, 3, 3), (2, 9, 16), (16, 17, 3), (1, 33, 2), (3, 2, 33), (65, 2, 3), (2, 65, 1),
        (1, 2, 64), (12, 12, 12), (1, 257, 1), (257, 1, 1)]
SOME = [(2, 2, 2), (2, 3, 4)]
MIXED = SOME + [(5, 9, 4), (8, 8, 8), (3, 17, 3), (2, 33, 2), (1, 65, 1), (1, 130, 1), (1, 257, 2), (130, 1, 2)]
HUGE = [(33, 34, 35), (2, 65, 64), (64, 3, 2), (1, 1025, 1), (1, 128, 1), (100, 2, 7), (20, 20, 20), (40, 40, 40), (70, 66, 3)]
DIMS = {"free": ALL, "i32": WIDE, "m2": MIXED, "gf7": HUGE}
IMPLS = ["free", "i32", "gf2", "gf3", "gi", "f64", "f32", "i8", "i64", "m2", "gf7"]
MATS, VECS = "abcq", "uv"
BIG = 1 << 26
# the program smatdim: two scalar types, many dimensions
VDIMS = [(1, k, 1) for k in [*range(4, 36), 47, 48, 49, 63, 64, 66, 95, 96, 127, 128, 129, 255, 256]]
MDIMS = [(2, 3, 5), (2, 3, 6), (2, 3, 7), (2, 3, 10), (2, 3, 11), (2, 3, 15), (2, 3, 18), (2, 3, 19), (2, 3, 31), (5, 2, 3), (6, 2, 3), (7, 2, 3), (10, 2, 3), (11, 2, 3), (15, 2, 3), (18, 2, 3), (19, 2, 3), (31, 2, 3), (2, 5, 3), (2, 6, 3), (2, 7, 3), (2, 10, 3), (2, 11, 3), (2, 15, 3), (2, 18, 3), (2, 19, 3), (2, 31, 3), (2, 63, 3), (5, 5, 5), (6, 6, 6), (7, 7, 7), (9, 9, 9), (10, 10, 10), (11, 11, 11), (5, 6, 7), (6, 7, 5), (7, 5, 6), (15, 15, 2), (3, 14, 13)]


def shape(d, g):
    l, m, n = d
    return {"a": (l, m), "b": (m, n), "c": (l, n), "q": (n, n), "u": (l,), "v": (m,)}[g]


class Prog:
    """A session with bounds on the size and the degree of what variables hold."""

    def __init__(self, rnd, impl, d, nr=3, mag=4):
        self.rnd, self.impl, self.d, self.nr, self.mag = rnd, impl, d, nr, mag
        self.el = Elem(rnd, impl)
        self.k = KINDS[impl]
        self.ev = [{"op": "session", "impl": impl, "kind": self.k, "dim": list(d), "nr": nr}]
        self.b = {g: [(0, 0)] * nr for g in MATS + VECS}      # (size bound, degree)
        self.lim = LIMIT.get(impl, BIG)

    def fits(self, s):
        if self.k[0] == "free":
            return s[0] <= 60 and s[1] <= 3
        return self.k[0].startswith("gf") or s[0] <= self.lim and s[1] <= 12

    def lit(self, zero=False):
        return self.el.zero() if zero else self.el.lit(self.mag)

    def value(self, g):
        s = shape(self.d, g)
        sparse = self.rnd.random() < .15
        one = lambda: self.lit(sparse and self.rnd.random() < .7)
        if len(s) == 1:
            return [one() for _ in range(s[0])]
        return [[one() for _ in range(s[1])] for _ in range(s[0])]

    def put(self, g, d, bound, e):
        if not self.fits(bound):
            return False
        self.b[g][d] = bound
        self.ev.append(e)
        return True

    def load(self, g, d, v=None):
        m = self.mag
        v = self.value(g) if v is None else v
        flat = v if g in VECS else [x for r in v for x in r]
        self.put(g, d, (max([self.el.size(x) for x in flat] + [1]), 1), {"op": "load", "g": g, "d": d, "v": v})

    def prod(self, x, y, n):
        if self.k[0] == "mat2":
            n *= 2
        if self.k[0] == "cplx":
            n *= 2
        return (x[0] * y[0] * max(n, 1), x[1] + y[1])

    def step(self, op, g):
        r, nr, b = self.rnd, self.nr, self.b
        a, c, d = (r.randrange(nr) for _ in range(3))
        f = r.choice(["vv", "vr", "av", "ar"])
        if op == "load":
            self.load(g, d)
        elif op == "zero" or op == "one" and g in MATS:
            self.put(g, d, (1, 0), {"op": op, "g": g, "d": d})
        elif op == "clone" or op in ("neg", "conj") and g in MATS:
            self.put(g, d, b[g][a], {"op": op, "g": g, "d": d, "a": a})
        elif op in ("add", "sub"):
            if f[0] == "a":
                a = d
            x, y = b[g][a], b[g][c]
            self.put(g, d, (x[0] + y[0], max(x[1], y[1])), {"op": op, "g": g, "d": d, "a": a, "b": c, "f": f})
        elif op == "scale" and g in VECS:
            if f[0] == "a":
                a = d
            x = self.el.lit(2)
            self.put(g, d, self.prod(b[g][a], (self.el.size(x), 1), 1), {"op": op, "g": g, "d": d, "a": a, "f": f, "x": x})
        elif op == "set" and g in VECS:
            n = shape(self.d, g)[0]
            x = self.lit()
            i = r.choice([r.randrange(n), 0, n - 1]) if n and r.random() < .9 else n + r.choice([0, 1, 7])
            self.put(g, d, (max(b[g][d][0], self.el.size(x)), max(1, b[g][d][1])), {"op": "set", "g": g, "d": d, "i": i, "x": x})
        elif op == "get" and g in VECS:
            n = shape(self.d, g)[0]
            i = r.choice([r.randrange(n), 0, n - 1]) if n and r.random() < .9 else n + r.choice([0, 1, 7])
            self.ev.append({"op": "get", "g": g, "a": a, "i": i})
        elif op == "iter" and g in VECS:
            self.ev.append({"op": "iter", "g": g, "a": a, "f": r.choice("vrmi")})
        elif op == "dot" and g in VECS:
            if self.fits(self.prod(b[g][a], b[g][c], shape(self.d, g)[0])):
                self.ev.append({"op": "dot", "g": g, "a": a, "b": c, "f": r.choice(["vv", "vr"])})
        elif op == "eq":
            self.ev.append({"op": "eq", "g": g, "a": a, "b": c})
        elif op == "mul":
            self.put("c", d, self.prod(b["a"][a], b["b"][c], self.d[1]), {"op": "mul", "d": d, "a": a, "b": c, "f": r.choice(["rr", "vv"])})
        elif op == "mulas":
            g = r.choice("bcq")
            self.put(g, d, self.prod(b[g][d], b["q"][c], self.d[2]), {"op": "mulas", "g": g, "d": d, "b": c, "f": r.choice(["av", "ar"])})
        elif op == "mv":
            self.put("u", d, self.prod(b["a"][a], b["v"][c], self.d[1]), {"op": "mv", "d": d, "a": a, "b": c})
        elif op == "qq":
            if r.random() < .5:
                c = a           # a square: both factors are the same object
            self.put("q", d, self.prod(b["q"][a], b["q"][c], self.d[2]), {"op": "qq", "d": d, "a": a, "b": c})

    def random(self, n, weights, groups):
        for g in groups:
            for d in range(self.nr):
                self.load(g, d)
        ops, ws = list(weights), list(weights.values())
        for _ in range(6 * n):
            if len(self.ev) >= n:
                break
            self.step(self.rnd.choices(ops, ws)[0], self.rnd.choice(groups))
        self.ev.append({"op": "dump"})
        return self.ev


def generic(d, vec):
    """Distinct free generators in every entry decide every ring at once."""
    l, m, n = d
    g = [0]

    def new():
        g[0] += 1
        return [[1, [g[0]]]]

    def val(s):
        return [new() for _ in range(s[0])] if len(s) == 1 else [[new() for _ in range(s[1])] for _ in range(s[0])]
    ev = [{"op": "session", "impl": "free", "kind": ["free"], "dim": list(d), "nr": 3}]
    for x in (VECS if vec else "") + "ab" + ("cq" if not vec else ""):
        for i in (0, 1):
            ev.append({"op": "load", "g": x, "d": i, "v": val(shape(d, x))})
    for x in VECS if vec else MATS:
        for op in ("add", "sub"):
            for f in ("vv", "vr", "av", "ar"):
                ev.append({"op": "clone", "g": x, "d": 2, "a": 0})
                ev.append({"op": op, "g": x, "d": 2, "a": 0, "b": 1, "f": f})
        if vec:
            for f in ("vv", "vr", "av", "ar"):
                ev.append({"op": "clone", "g": x, "d": 2, "a": 0})
                ev.append({"op": "scale", "g": x, "d": 2, "a": 0, "f": f, "x": [[1, [900]]]})
            for f in ("vv", "vr"):
                ev.append({"op": "dot", "g": x, "a": 0, "b": 1, "f": f})
            ev += [{"op": "iter", "g": x, "a": 1, "f": f} for f in "vrmi"]
            k = len(val(shape(d, x)))
            ev += [{"op": "get", "g": x, "a": 0, "i": i} for i in sorted({0, 1, k // 2, k - 1, k, k + 1} - {-1})]
            ev.append({"op": "set", "g": x, "d": 0, "i": max(0, k - 1), "x": [[1, [901]]]})
            ev.append({"op": "zero", "g": x, "d": 2})
            ev.append({"op": "eq", "g": x, "a": 0, "b": 1})
            for i in range(min(k, 4)):         # differs in one component only
                ev += [{"op": "clone", "g": x, "d": 2, "a": 1}, {"op": "eq", "g": x, "a": 2, "b": 1},
                       {"op": "set", "g": x, "d": 2, "i": k - 1 - i, "x": [[1, [902]]]}, {"op": "eq", "g": x, "a": 2, "b": 1}]
        else:
            ev += [{"op": "neg", "g": x, "d": 2, "a": 0}, {"op": "conj", "g": x, "d": 2, "a": 0},
                   {"op": "one", "g": x, "d": 2}, {"op": "zero", "g": x, "d": 2}, {"op": "eq", "g": x, "a": 0, "b": 1},
                   {"op": "eq", "g": x, "a": 0, "b": 0}]
    if vec:
        ev.append({"op": "mv", "d": 0, "a": 0, "b": 0})
    else:
        ev += [{"op": "mul", "d": 2, "a": 0, "b": 1, "f": f} for f in ("rr", "vv")]
        for x in "bcq":
            ev += [{"op": "clone", "g": x, "d": 2, "a": 0}, {"op": "mulas", "g": x, "d": 2, "b": 1, "f": "av"},
                   {"op": "clone", "g": x, "d": 2, "a": 0}, {"op": "mulas", "g": x, "d": 2, "b": 1, "f": "ar"}]
        ev += [{"op": "qq", "d": 2, "a": 0, "b": 1}, {"op": "qq", "d": 2, "a": 0, "b": 0}]
        ev += [{"op": "mulas", "g": "q", "d": 2, "b": 2, "f": "ar"}] if n <= 4 else []
    ev.append({"op": "dump"})
    return ev


def units(rnd, impl, d):
    """Pairs of unit matrices: every single product of two entries on its own."""
    l, m, n = d
    p = Prog(rnd, impl, d, nr=2)
    e = {"free": [[1, [1]]], "cplx": [0, 1], "mat2": [[0, 1], [0, 0]]}.get(p.k[0], 1)
    z = p.el.zero()
    for i in range(l):
        for j in range(m):
            p.ev.append({"op": "load", "g": "a", "d": 0, "v": [[e if (x, y) == (i, j) else z for y in range(m)] for x in range(l)]})
            k = rnd.randrange(n)
            t = rnd.randrange(m)
            p.ev.append({"op": "load", "g": "b", "d": 0, "v": [[e if (x, y) == (rnd.choice([t, j]), k) else z for y in range(n)] for x in range(m)]})
            p.ev.append({"op": "mul", "d": 0, "a": 0, "b": 0, "f": "rr"})
    p.ev.append({"op": "dump"})
    return p.ev


def differing(rnd, impl, d, groups):
    """Pairs of values that differ in exactly one entry, each entry in turn."""
    p = Prog(rnd, impl, d, nr=2)
    for g in groups:
        s = shape(d, g)
        cells = [(i, j) for i in range(s[0]) for j in range(s[1])] if len(s) == 2 else [(i,) for i in range(s[0])]
        if not cells:
            continue
        v = p.value(g)
        p.load(g, 0, v)
        if len(cells) > 40:
            cells = [cells[0], cells[1], cells[-1], cells[-2], cells[len(cells) // 2]] + rnd.sample(cells, 16)
        for c in cells:
            w = [list(r) for r in v] if len(s) == 2 else list(v)
            row, at = (w[c[0]], c[1]) if len(s) == 2 else (w, c[0])
            old = row[at]
            while row[at] == old:
                row[at] = p.lit()
            p.load(g, 1, w)
            p.ev += [{"op": "eq", "g": g, "a": 0, "b": 1}, {"op": "eq", "g": g, "a": 1, "b": 0}]
        p.load(g, 1, v)
        p.ev += [{"op": "eq", "g": g, "a": 0, "b": 1}]
    return p.ev


def from_model(run, rnd, scale, k, dims, keep):
    out = []
    em = run.model("StaticMC", emit=True, workers=1,
                   consts={"K": '"%s"' % k, "L": str(dims[0]), "M": str(dims[1]), "N": str(dims[2]), "Emit": "TRUE"})
    em.sort(key=str)
    if keep and len(em) > keep:
        em = rnd.sample(em, keep)
    for c in range(0, len(em), 30):
        ev = [{"op": "session", "impl": k, "kind": [k], "dim": list(dims), "nr": 2}]
        for s in em[c:c + 30]:
            ev += s
        out.append(ev)
    return out


MW = {"load": 3, "zero": 1, "one": 1, "clone": 1, "neg": 2, "conj": 2, "add": 5, "sub": 5, "mul": 8, "mulas": 8, "qq": 3, "eq": 1}
VW = {"load": 3, "zero": 1, "clone": 1, "add": 6, "sub": 6, "scale": 5, "dot": 5, "mv": 5, "iter": 3, "set": 2, "get": 2, "eq": 1}


def c09(rnd, run, scale):
    s = from_model(run, rnd, scale, "gf2", (2, 2, 2), 0)
    if scale > 1:
        run.model("StaticMC", workers="auto", consts={"K": '"gf3"', "L": "2", "M": "2", "N": "1", "Emit": "FALSE"})
        run.model("StaticMC", workers="auto", consts={"K": '"gf2"', "L": "2", "M": "3", "N": "2", "Emit": "FALSE"})
    s += [generic(d, False) for d in ALL]
    s += [units(rnd, "i32", d) for d in WIDE if d[0] * d[1] < 40] + [units(rnd, "m2", (2, 3, 4)), units(rnd, "gi", (2, 3, 4))]
    for impl in IMPLS:
        s += [differing(rnd, impl, d, MATS) for d in DIMS.get(impl, SOME)]
        for d in DIMS.get(impl, SOME):
            for _ in range((1 if impl in DIMS else 2) * scale):
                big = d[0] * d[1] * d[2] > 200
                s.append(Prog(rnd, impl, d, nr=2 if big else 3, mag=2 if impl == "i8" else 4).random(20 if big else 45, MW, MATS))
    return s


def c10(rnd, run, scale):
    run.model("StaticMC", workers="auto", consts={"K": '"gf3"', "L": "1", "M": "2", "N": "1", "Emit": "FALSE"})
    s = [generic(d, True) for d in ALL]
    for impl in IMPLS:
        s += [differing(rnd, impl, d, VECS) for d in DIMS.get(impl, SOME)]
        for d in DIMS.get(impl, SOME):
            for _ in range((1 if impl in DIMS else 2) * scale):
                p = Prog(rnd, impl, d, nr=3, mag=2 if impl == "i8" else 4)
                s.append(p.random(60, VW, "uva"))
    return s


def c09dims(rnd, run, scale):
    s = []
    for d in MDIMS:
        if d[0] * d[1] * d[2] <= 150 and d[2] <= 7:
            s.append(generic(d, False))
        s.append(units(rnd, "m2", d)) if d[0] * d[1] <= 30 else None
        s.append(differing(rnd, "m2", d, MATS))
        for _ in range(scale):
            s.append(Prog(rnd, "m2", d, nr=2, mag=3).random(24, MW, MATS))
    for d in VDIMS:
        s.append(Prog(rnd, "m2", d, nr=2, mag=3).random(24, MW, MATS))
    return s


def c10dims(rnd, run, scale):
    s = []
    for d in VDIMS + MDIMS:
        if d[1] <= 35 and d[0] <= 20:
            s.append(generic(d, True))
        if d[0] == d[2] == 1:
            s.append(differing(rnd, "m2", d, "v"))
        for _ in range(scale):
            s.append(Prog(rnd, "m2", d, nr=3, mag=3).random(30, VW, "uva"))
    return s
