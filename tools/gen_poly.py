"""Programs over polynomial variables (C01, C02, C03)."""
import random

KINDS = {"i8": ["int"], "i16": ["int"], "i32": ["int"], "i64": ["int"], "i128": ["int"], "isize": ["int"],
         "f32": ["int"], "f64": ["int"], "gf2": ["gf2"], "gf3": ["gf3"], "gf7": ["gf7"], "rat": ["rat"],
         "free": ["free"], "m2": ["mat2", "int"], "gi": ["cplx", "int"]}
LIMIT = {"i8": 60, "i16": 15000, "f32": 1 << 22}
XKINDS = ["x-i64", "x-f64", "x-gf2", "x-gf3", "x-gf7", "x-rat", "x-free", "x-m2", "x-gi"]
BIG = 1 << 27


def base(impl):
    i = impl[2:] if impl.startswith("x-") else impl
    return KINDS[i], i


class Elem:
    """Random literals of a coefficient ring, with a bound on their size."""

    def __init__(self, rnd, impl):
        self.rnd, (self.k, self.i) = rnd, base(impl)
        self.gen = 0

    def lit(self, mag):
        r, t = self.rnd, self.k[0]
        z = r.random() < 0.25
        if t == "int":
            return 0 if z else r.choice([-1, 1]) * r.randint(0, mag)
        if t.startswith("gf"):
            return r.randrange(int(t[2:]))
        if t == "rat":
            return [0 if z else r.randint(-min(mag, 4), min(mag, 4)), r.randint(1, 3)]
        if t == "free":
            if z:
                return []
            self.gen = self.gen % 30 + 1
            g = self.gen * r.choice([1, 1, 1, -1])
            return [[r.choice([1, 1, -1, 2]), [g]]] + ([[r.choice([1, -1]), []]] if r.random() < 0.2 else [])
        if t == "cplx":
            return [r.randint(-mag, mag) if r.random() < .7 else 0 for _ in range(2)]
        if t == "mat2":
            return [[r.randint(-mag, mag) if r.random() < .6 else 0 for _ in range(2)] for _ in range(2)]

    def zero(self):
        t = self.k[0]
        return {"int": 0, "rat": [0, 1], "free": [], "cplx": [0, 0], "mat2": [[0, 0], [0, 0]]}.get(t, 0)

    def size(self, v):
        t = self.k[0]
        if t == "int":
            return abs(v)
        if t == "rat":
            return max(1, abs(v[0])) * v[1]
        if t == "free":
            return sum(abs(c) for c, _ in v)
        if t == "cplx":
            return abs(v[0]) + abs(v[1])
        if t == "mat2":
            return max(1, sum(abs(x) for row in v for x in row))
        return 1


class Bounded:
    """Upper bounds for what a variable holds, so that no operation overflows."""

    def __init__(self, co, deg):
        self.co, self.deg = co, deg   # bounds of the coefficients, number of factors


def session(rnd, impl, nev, maxlen=8, mag=4, weights=None, nr=4, trail=0.25, loadlen=None):
    k, i = base(impl)
    el = Elem(rnd, impl)
    finite = k[0].startswith("gf")
    raw = not impl.startswith("x-")
    lim = LIMIT.get(i, BIG)
    xb = 2 if raw and i not in ("i8", "f32") else 1
    pts, xs = None, 1
    if raw:
        if k[0] == "int":
            pts = [0, 1, -1] + ([2, -2] if xb == 2 else [])
        elif k[0] == "gf2":
            pts = [0, 1]
        elif finite:
            pts = list(range(int(k[0][2:])))
        elif k[0] == "rat":
            pts = [[0, 1], [1, 2], [-1, 1]]
        elif k[0] == "free":
            pts = [[], [[1, [91]]], [[1, [92]], [-1, [93]]]]
        elif k[0] == "cplx":
            pts = [[0, 0], [1, 0], [0, 1], [1, -1]]
        else:
            pts = [[[0, 0], [0, 0]], [[0, 1], [1, 0]], [[0, 1], [0, 0]], [[1, 1], [0, 1]]]
    grow = {"int": xb, "rat": 4, "free": 2, "cplx": 2, "mat2": 3}.get(k[0], 1) if raw else 1
    dfree = {"free": 3, "mat2": 4, "cplx": 6, "rat": 4}.get(k[0], 99)
    flen = 5 if k[0] in ("free",) else maxlen
    if k[0] == "rat":
        lim, flen = 4000, min(maxlen, 5)

    def fits(b):
        if len(b.co) > max(maxlen, 1) * 2 or b.deg > dfree:
            return False
        if finite:
            return True
        if k[0] == "free" and (raw and len(b.co) > 5 or sum(b.co) > 400):
            return False
        s, g = 0, 1
        for c in b.co:
            s += c * g
            g *= grow
        return s <= lim and all(c <= lim for c in b.co)

    ev = [{"op": "session", "impl": impl, "kind": ["poly"] + k, "nr": nr}]
    if pts is not None:
        ev[0]["pts"] = pts
    st = [Bounded([], 0) for _ in range(nr)]
    w = weights or {"load": 6, "zero": 1, "one": 1, "clone": 1, "neg": 2, "add": 6, "sub": 6, "mul": 6, "eq": 1, "eval": 1}
    names, ws = list(w), list(w.values())

    def load(d, n=None):
        m = mag
        while True:
            ln = n if n is not None else (rnd.choice(loadlen) if loadlen else rnd.randint(0, flen))
            co = [el.lit(m) for _ in range(ln)]
            if rnd.random() < trail:
                for q in range(rnd.randint(1, 3)):
                    if rnd.random() < .5 and len(co) < flen:
                        co.append(el.zero())
                    elif co:
                        co[-1 - min(q, len(co) - 1)] = el.zero()
            b = Bounded([el.size(c) for c in co], 1)
            if fits(b):
                break
            m = max(1, m - 1)
            if n:
                n -= 1
        st[d] = b
        ev.append({"op": "load", "d": d, "v": co})

    for d in range(nr):
        load(d)
    tries = 0
    while len(ev) < nev and tries < nev * 6:
        tries += 1
        op = rnd.choices(names, ws)[0]
        a, b, d = (rnd.randrange(nr) for _ in range(3))
        A, B = st[a], st[b]
        if op == "load":
            load(d)
        elif op in ("zero", "one"):
            st[d] = Bounded([] if op == "zero" else [1], 0)
            ev.append({"op": op, "d": d})
        elif op in ("clone", "neg"):
            st[d] = A
            ev.append({"op": op, "d": d, "a": a})
        elif op in ("add", "sub"):
            f = rnd.choice(["vv", "av", "ar"])
            if f != "vv":
                a, A = d, st[d]
            n = max(len(A.co), len(B.co))
            pad = lambda c: c + [0] * (n - len(c))
            if k[0] == "rat":
                co = [max(x, 1) * max(y, 1) * 2 for x, y in zip(pad(A.co), pad(B.co))]
            else:
                co = [x + y for x, y in zip(pad(A.co), pad(B.co))]
            R = Bounded(co, max(A.deg, B.deg))
            if fits(R):
                st[d] = R
                ev.append({"op": op, "f": f, "d": d, "a": a, "b": b})
        elif op == "mul":
            f = rnd.choice(["vv", "av", "rr", "mr"])
            if f == "av":
                a, A = d, st[d]
            n = max(0, len(A.co) + len(B.co) - 1) if A.co and B.co else 0
            if n > 3 * maxlen:
                continue
            co = [0] * n
            for p, x in enumerate(A.co):
                for q, y in enumerate(B.co):
                    co[p + q] = co[p + q] + x * y if k[0] != "rat" else max(1, co[p + q]) * x * y * 2
            R = Bounded(co, A.deg + B.deg)
            if fits(R):
                st[d] = R
                ev.append({"op": "mul", "f": f, "d": d, "a": a, "b": b})
        elif op == "eq":
            ev.append({"op": "eq", "a": a, "b": b})
        elif op == "eval":
            if pts is not None:
                x = rnd.choice(pts)
            else:
                x = el.lit(1)
                if k[0] == "rat" and len(A.co) > 4:
                    continue
                if k[0] == "free" and (len(A.co) > 5 or A.deg > 2 or sum(A.co) > 30 or len(x) > 1):
                    continue
            ev.append({"op": "eval", "f": rnd.choice("vr"), "a": a, "x": x})
    ev.append({"op": "dump"})
    return ev


def generic(pairs):
    """Free coefficients: one session per pair of lengths decides every ring."""
    out = []
    for la, lb in pairs:
        ev = [{"op": "session", "impl": "x-free", "kind": ["poly", "free"], "nr": 4},
              {"op": "load", "d": 0, "v": [[[1, [i + 1]]] for i in range(la)]},
              {"op": "load", "d": 1, "v": [[[1, [i + 1001]]] for i in range(lb)]}]
        for op, fs in (("add", ("vv", "av", "ar")), ("sub", ("vv", "av", "ar")), ("mul", ("vv", "av", "rr", "mr"))):
            for f in fs:
                if f in ("av", "ar"):
                    ev.append({"op": "clone", "d": 2, "a": 0})
                ev.append({"op": op, "f": f, "d": 2, "a": 2 if f in ("av", "ar") else 0, "b": 1})
                if f == "ar":
                    ev.append({"op": "dump"})
        ev += [{"op": "neg", "d": 3, "a": 0}, {"op": "dump"}]
        out.append(ev)
    return out


def generic_eval(lens):
    out = []
    for n in lens:
        ev = [{"op": "session", "impl": "free", "kind": ["poly", "free"], "nr": 1, "pts": []},
              {"op": "load", "d": 0, "v": [[[1, [i + 1]]] for i in range(n)]}]
        for f in "vr":
            ev.append({"op": "eval", "f": f, "a": 0, "x": [[1, [500]]]})
        ev.append({"op": "eval", "f": "v", "a": 0, "x": []})
        out.append(ev)
    return out


def sparse(rnd, impl, what, scale):
    """A few coefficients with long runs of zeros between them (and no
    trailing zeros), the gaps around powers of two."""
    k, i = base(impl)
    el = Elem(rnd, impl)
    one = {"free": [[1, [1]]], "mat2": [[0, 1], [1, 0]], "cplx": [0, 1], "rat": [1, 1]}.get(k[0], 1)
    if what == "eval":
        pts = {"int": [1, -1, 0], "free": [[], [[1, []]], [[-1, []]]], "mat2": [[[0, 1], [1, 0]], [[0, -1], [1, 0]], [[1, 0], [0, 1]], [[0, 1], [0, 0]]],
               "cplx": [[0, 1], [-1, 0], [0, -1]], "rat": [[1, 1], [-1, 1], [0, 1]]}.get(k[0]) or list(range(int(k[0][2:])))
    ev = [{"op": "session", "impl": impl, "kind": ["poly"] + k, "nr": 3}]
    if not impl.startswith("x-"):
        ev[0]["pts"] = []
    gaps = [2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 520]

    def poly(gs):
        v = []
        for g in gs:
            c = el.lit(2)
            v += [c if el.size(c) and c != el.zero() else one] + [el.zero()] * g
        c = el.lit(2)
        return v + [c if c != el.zero() else one]
    n = 7 * scale
    for j in range(n):
        gs = [rnd.choice(gaps)] if j % 2 else [rnd.choice(gaps), rnd.choice([0, 1, 2, rnd.choice(gaps[:19])])]
        if j < 4:
            gs = [[255], [256], [0, 256, 1], [257, 0]][j]
        ev.append({"op": "load", "d": 0, "v": [el.zero()] * rnd.choice([0, 0, 1, 2, 256]) * (j > 3) + poly(gs)})
        if what == "eval":
            for x in pts if len(pts) < 5 else rnd.sample(pts, 4):
                ev.append({"op": "eval", "f": rnd.choice("vr"), "a": 0, "x": x})
        else:
            ev.append({"op": "load", "d": 1, "v": poly([rnd.choice(gaps[:12] + [256])] if rnd.random() < .6 else [rnd.choice([0, 1])])})
            for op, f in (("mul", rnd.choice(["vv", "rr", "mr"])), ("add", "vv"), ("sub", "vv")):
                ev.append({"op": op, "f": f, "d": 2, "a": rnd.randrange(2), "b": 1})
            ev += [{"op": "mul", "f": "rr", "d": 2, "a": 1, "b": 0}]
    return ev


def from_model(emits, impls, only=None, chunk=30):
    """Replays the transitions TLC enumerated."""
    script = [e for e in emits if "script" in e][0]
    pairs = [e["load"] for e in emits if "load" in e]
    evs = [e for e in script["script"] if only is None or e["op"] in only]
    out = []
    for impl in impls:
        raw = not impl.startswith("x-")
        for c in range(0, len(pairs), chunk):
            ev = [{"op": "session", "impl": impl, "kind": script["kind"], "nr": 3}]
            if raw:
                ev[0]["pts"] = list(range(int(script["kind"][1][2:])))
            for a, b in pairs[c:c + chunk]:
                ev += [{"op": "load", "d": 0, "v": a}, {"op": "load", "d": 1, "v": b}] + evs
            out.append(ev)
    return out


ARITH = {"load": 5, "zero": 1, "one": 1, "clone": 1, "neg": 2, "add": 7, "sub": 7, "mul": 7}
EVAL = {"load": 4, "zero": 1, "one": 1, "neg": 1, "add": 3, "sub": 3, "mul": 3, "eval": 14}
RAWS = ["i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "gf2", "gf3", "gf7", "rat", "free", "m2", "gi"]


def giant(rnd, what, scale):
    """Polynomials of more than 65536 coefficients."""
    out = []
    for impl, la, lb in [("gf7", 65537, 1), ("gf3", 2, 65540), ("i64", 66000, 65999)] + ([("gf2", 140000, 131073)] if scale > 1 else []):
        el = Elem(rnd, impl)
        q = int(impl[2:]) if impl[0] == "g" else 1 << 40
        pts = list(range(q)) if impl[0] == "g" else [0, 1, -1]
        ev = [{"op": "session", "impl": impl, "kind": ["poly"] + base(impl)[0], "nr": 3, "pts": pts if what == "arith" else []}]
        a = [el.lit(3) for _ in range(la)]
        a[-1] = 1
        ev.append({"op": "load", "d": 0, "v": a})
        if what == "eval":
            ev += [{"op": "eval", "f": f, "a": 0, "x": x} for x in pts for f in "vr"][:6]
        elif what == "eq":
            b = list(a)
            k = 65536 if la > 65536 else 1
            b[k] = (b[k] + 1) % q
            ev += [{"op": "load", "d": 1, "v": b}, {"op": "eq", "a": 0, "b": 1}, {"op": "load", "d": 1, "v": a + [0] * 3}, {"op": "eq", "a": 0, "b": 1},
                   {"op": "load", "d": 1, "v": a[:la - 65536] if la > 65536 else a}, {"op": "eq", "a": 0, "b": 1}, {"op": "eq", "a": 1, "b": 0},
                   {"op": "load", "d": 2, "v": [0] * 65536 + [1]}, {"op": "zero", "d": 1}, {"op": "eq", "a": 1, "b": 2}, {"op": "eq", "a": 2, "b": 1}]
        else:
            # the result is compared with a literal as well (the specification
            # says whether they are equal)
            b = [el.lit(3) for _ in range(lb)]
            ev.append({"op": "load", "d": 1, "v": b})
            at = lambda v, i: v[i] if i < len(v) else 0
            norm = lambda x: x % q if impl[0] == "g" else x
            for op, f in (("add", rnd.choice(["vv", "ar"])), ("sub", rnd.choice(["vv", "av"])), ("mul", rnd.choice(["vv", "rr", "mr", "av"]))):
                if op == "mul":
                    if la > 3 and lb > 3:
                        continue
                    r = [0] * (la + lb - 1)
                    for i, x in enumerate(a):
                        for j, y in enumerate(b):
                            r[i + j] += x * y
                else:
                    r = [at(a, i) + (1 if op == "add" else -1) * at(b, i) for i in range(max(la, lb))]
                ev += [{"op": "load", "d": 2, "v": [norm(x) for x in r]}, {"op": "clone", "d": 0, "a": 0}]
                ev += [{"op": "load", "d": 0, "v": a}, {"op": op, "f": f, "d": 0, "a": 0, "b": 1}, {"op": "eq", "a": 0, "b": 2}]
                ev += [{"op": "load", "d": 0, "v": a}]
            ev += [{"op": "load", "d": 2, "v": [norm(-x) for x in a]}, {"op": "neg", "d": 1, "a": 0}, {"op": "eq", "a": 1, "b": 2}]
        out.append(ev)
    return out


def c01(rnd, run, scale):
    big = scale > 1
    s = []
    em = run.model("PolyMC", emit=True, consts={"K": '"gf2"', "MaxLen": "4" if big else "3"}, workers=1)
    s += from_model(em, ["x-gf2"])
    em = run.model("PolyMC", emit=True, consts={"K": '"gf3"', "MaxLen": "3" if big else "2"}, workers=1)
    s += from_model(em, ["x-gf3"])
    m = 14 if big else 8
    pairs = [(a, b) for a in range(m) for b in range(m)]
    pairs += [(rnd.randint(0, 20), rnd.randint(0, 20)) for _ in range(6 * scale)] + [(33, 4), (3, 32), (1, 65), (64, 1), (16, 17)]
    s += generic(pairs)
    for impl in XKINDS:
        for _ in range(3 * scale):
            s.append(session(rnd, impl, 60, weights=ARITH))
    for impl in RAWS:
        for _ in range(2 * scale):
            s.append(session(rnd, impl, 50, weights=ARITH, maxlen=6))
    s += generic([(17, 17), (33, 33), (32, 20), (65, 16), (48, 48)])
    # equal and nearly equal lengths over coefficients that do not commute
    for n in [8, 10, 12, 16, 20, 24, 28, 32, 33, 40, 48, 50, 63, 64, 65, 80, 96] + ([127, 128, 129, 160, 200, 256] if big else [128]):
        el = Elem(rnd, "x-m2")
        ev = [{"op": "session", "impl": "x-m2", "kind": ["poly"] + base("x-m2")[0], "nr": 3}]
        for d, ln in ((0, n), (1, n + (rnd.choice([-1, 1]) if n % 5 == 0 else 0))):
            ev.append({"op": "load", "d": d, "v": [el.lit(2) for _ in range(ln)]})
        f = rnd.choice(["vv", "rr", "mr", "av"])
        ev += [{"op": "clone", "d": 2, "a": 0}, {"op": "mul", "f": f, "d": 2, "a": 2 if f == "av" else 0, "b": 1}]
        if n <= 64:
            ev += [{"op": "clone", "d": 2, "a": 1}, {"op": "mul", "f": "rr", "d": 2, "a": 1, "b": 0}, {"op": "mul", "f": "vv", "d": 2, "a": 0, "b": 0}]
        s.append(ev)
    for la, lb in [(255, 1), (256, 2), (257, 3), (3, 257), (256, 256), (300, 257), (64, 64), (33, 33), (40, 36), (128, 65)]:
        for impl in ["x-gf7"] + (["x-m2"] if la * lb < 2000 else []):
            el = Elem(rnd, impl)
            ev = [{"op": "session", "impl": impl, "kind": ["poly"] + base(impl)[0], "nr": 3}]
            for d, n in ((0, la), (1, lb)):
                ev.append({"op": "load", "d": d, "v": [el.lit(3) for _ in range(n)]})
            for op, f in (("add", "vv"), ("sub", "vv"), ("mul", rnd.choice(["vv", "rr", "mr"])), ("add", "ar"), ("sub", "av"), ("mul", "av")):
                if f in ("av", "ar"):
                    ev.append({"op": "clone", "d": 2, "a": 0})
                ev.append({"op": op, "f": f, "d": 2, "a": 2 if f in ("av", "ar") else 0, "b": 1})
            ev += [{"op": "neg", "d": 2, "a": 0}, {"op": "dump"}]
            s.append(ev)
    s += giant(rnd, "arith", scale)
    s += [sparse(rnd, impl, "arith", scale) for impl in ("x-gf7", "x-gf2", "x-i64", "x-m2")]
    for impl in ("x-i64", "x-gf7", "x-gf2", "f64", "gf7"):   # long polynomials
        for _ in range(2 * scale):
            s.append(session(rnd, impl, 14, maxlen=140, mag=2, weights=ARITH, nr=3,
                             loadlen=[0, 1, 2, 15, 16, 17, 31, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130]
                             if impl != "f64" else [1, 5, 16, 17, 20]))
    return s


def c02(rnd, run, scale):
    big = scale > 1
    run.model("PolyMC", consts={"K": '"gf3"', "MaxLen": "2", "Emit": "FALSE"}, workers=1)
    s = generic_eval(list(range(0, 40)) + [63, 64, 65, 66, 100, 128, 129, 200])
    for impl in ("gf7", "gf2", "gf3"):
        el = Elem(rnd, impl)
        q = int(impl[2:])
        ev = [{"op": "session", "impl": impl, "kind": ["poly", impl], "nr": 1, "pts": []}]
        for n in (254, 255, 256, 257, 258, 511, 512, 513, 1000, 1025):
            ev.append({"op": "load", "d": 0, "v": [el.lit(1) for _ in range(n)]})
            ev += [{"op": "eval", "f": f, "a": 0, "x": x} for x in range(q) for f in "vr"]
        s.append(ev)
    for impl in RAWS + ["x-free", "x-m2", "x-gi", "x-i64"]:
        for _ in range((4 if impl != "free" else 8) * scale):
            s.append(session(rnd, impl, 60, weights=EVAL, maxlen=8 if impl != "i8" else 5))
    for impl in ("gf7", "gf3", "gf2"):
        for _ in range(2 * scale):
            s.append(session(rnd, impl, 30, weights=EVAL, maxlen=140, nr=3, loadlen=[0, 1, 16, 17, 33, 64, 65, 66, 127, 128, 129]))
    s += giant(rnd, "eval", scale)
    s += [sparse(rnd, impl, "eval", scale) for impl in ("gf7", "gf3", "gf2", "i8", "i64", "f64", "rat", "free", "m2", "gi")]
    # every list of small coefficients at every small point
    for impl, k, q, n in (("gf2", "gf2", 2, 5), ("gf3", "gf3", 3, 4 if big else 3), ("i32", "int", 3, 3)):
        lists = [[]]
        for _ in range(n):
            lists += [x + [c] for x in lists if len(x) == max(map(len, lists)) for c in range(q)]
        lists = [list(x) for x in sorted(set(map(tuple, lists)))]
        pts = list(range(q)) + ([-1, -2] if k == "int" else [])
        ev = None
        for i, v in enumerate(lists):
            if i % 25 == 0:
                ev = [{"op": "session", "impl": impl, "kind": ["poly", k], "nr": 1, "pts": pts}]
                s.append(ev)
            ev.append({"op": "load", "d": 0, "v": [c - 1 for c in v] if k == "int" else v})
            for x in pts:
                ev.append({"op": "eval", "f": "vr"[i % 2], "a": 0, "x": x})
    return s


def axioms(rnd, impl, n, maxlen=4, mag=3):
    """Both sides of every ring axiom, compared with the library's own ==."""
    k, i = base(impl)
    el = Elem(rnd, impl)
    ev = [{"op": "session", "impl": impl, "kind": ["poly"] + k, "nr": 8}]
    if not impl.startswith("x-"):
        ev[0]["pts"] = []
    P, Q, R, Z, ONE, L, M, N = range(8)
    mulf = lambda: rnd.choice(["vv", "rr", "mr"])

    def op(o, d, a, b, f=None):
        ev.append({"op": o, "f": f or (mulf() if o == "mul" else "vv"), "d": d, "a": a, "b": b})

    def eq(a, b):
        ev.append({"op": "eq", "a": a, "b": b})
        ev.append({"op": "eq", "a": b, "b": a})
    ev += [{"op": "zero", "d": Z}, {"op": "one", "d": ONE}]
    for _ in range(n):
        for d in (P, Q, R):
            co = [el.lit(mag) for _ in range(rnd.randint(0, maxlen))] + [el.zero()] * rnd.choice([0, 0, 1, 2])
            ev.append({"op": "load", "d": d, "v": co})
        op("add", L, P, Q), op("add", M, Q, P), eq(L, M)
        op("add", L, L, R), op("add", M, Q, R), op("add", M, P, M), eq(L, M)
        op("sub", L, P, P), eq(L, Z)
        ev.append({"op": "clone", "d": L, "a": P})
        ev.append({"op": "sub", "f": "av", "d": L, "a": L, "b": P}), eq(L, Z), eq(L, P)
        op("mul", L, P, ONE), op("mul", M, ONE, P), eq(L, P), eq(M, P)
        op("mul", L, P, Z), op("mul", M, Z, P), eq(L, Z), eq(M, L)
        op("mul", L, P, Q), op("mul", L, L, R), op("mul", M, Q, R), op("mul", M, P, M), eq(L, M)
        op("add", L, P, Q), op("mul", L, L, R), op("mul", M, P, R), op("mul", N, Q, R), op("add", M, M, N), eq(L, M)
        op("mul", L, P, Q), op("mul", M, Q, P), eq(L, M)
        ev.append({"op": "neg", "d": L, "a": P}), op("add", L, P, L), eq(L, Z), eq(P, Q), eq(P, P), eq(ONE, Z), eq(P, ONE)
        op("sub", L, P, Q), op("add", L, L, Q), eq(L, P), eq(L, Q)
    return ev


def eqpairs(rnd, impl, n):
    """Nearly equal polynomials: one coefficient changed, added, or removed."""
    k, i = base(impl)
    el = Elem(rnd, impl)
    ev = [{"op": "session", "impl": impl, "kind": ["poly"] + k, "nr": 2}]
    if not impl.startswith("x-"):
        ev[0]["pts"] = []
    for _ in range(n):
        ln = rnd.choice([0, 1, 1, 2, 3, 4, 7, 8, 9, 16, 17, 31, 33, 64, 65, 127, 128, 256, 257])
        p = [el.lit(5) for _ in range(ln)]
        q = list(p)
        t = rnd.randrange(6)
        if t == 0 and q:
            q[rnd.randrange(ln)] = el.lit(5)
        elif t == 1 and q:
            q[-1] = el.lit(5)
        elif t == 2 and q:
            q[0] = el.lit(5)
        elif t == 3:
            q.append(el.lit(5))
        elif t == 4 and q:
            q.pop()
        pad = lambda c: c + [el.zero()] * rnd.choice([0, 0, 1, 2, 5])
        # a non-zero coefficient beyond a gap of zeros
        if rnd.random() < .2:
            q = pad(q) + [el.lit(5)]
        ev.append({"op": "load", "d": 0, "v": pad(p)})
        ev.append({"op": "load", "d": 1, "v": pad(q)})
        ev += [{"op": "eq", "a": 0, "b": 1}, {"op": "eq", "a": 1, "b": 0}]
    return ev


def tails(rnd, impl, scale):
    """Operands of very different lengths, equal on the common part: what is
    beyond it is zero everywhere but in at most one place."""
    k, i = base(impl)
    el = Elem(rnd, impl)
    one = {"free": [[1, [1]]], "mat2": [[0, 0], [1, 0]], "cplx": [0, 1], "rat": [1, 2]}.get(k[0], 1)
    ev = [{"op": "session", "impl": impl, "kind": ["poly"] + k, "nr": 2}]
    if not impl.startswith("x-"):
        ev[0]["pts"] = []
    for ln in (0, 1, 5):
        p = [el.lit(2) for _ in range(ln)]
        ns = [1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 18, 24, 31, 32, 33, 34, 40, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 258]
        for n in ns if scale > 1 else rnd.sample(ns, 14):
            for at in {None, 0, n - 1, n // 2, rnd.randrange(n)}:
                ev.append({"op": "load", "d": 0, "v": p})
                ev.append({"op": "load", "d": 1, "v": p + [one if j == at else el.zero() for j in range(n)]})
                ev += [{"op": "eq", "a": 0, "b": 1}, {"op": "eq", "a": 1, "b": 0}]
    return ev


def single(rnd, impl, scale):
    """Long polynomials that differ in one coefficient."""
    k, i = base(impl)
    el = Elem(rnd, impl)
    ev = [{"op": "session", "impl": impl, "kind": ["poly"] + k, "nr": 2}]
    if not impl.startswith("x-"):
        ev[0]["pts"] = []
    for n in [1, 2, 3, 5, 8, 9, 16, 17, 32, 33, 64, 65, 128, 257]:
        p = [el.lit(2) for _ in range(n)]
        ev.append({"op": "load", "d": 0, "v": p})
        for at in range(n) if n < 18 else {0, 1, n - 1, n - 2, n // 2, rnd.randrange(n), rnd.randrange(n)}:
            q = list(p)
            while q[at] == p[at]:
                q[at] = el.lit(3)
            ev.append({"op": "load", "d": 1, "v": q})
            ev += [{"op": "eq", "a": 0, "b": 1}, {"op": "eq", "a": 1, "b": 0}]
    return ev


def extremes(rnd, impl):
    """Equality of polynomials whose difference is no number of the type, or a tiny one."""
    bits = {"i8": 8, "i16": 16}.get(impl, 32)
    m = (1 << (bits - 1)) - 1
    low = [-m] + ([-m - 1] if bits < 32 else [])
    vals = [0, 1, -1, m, m - 1, *low]
    ev = [{"op": "session", "impl": impl, "kind": ["poly"] + KINDS[impl], "nr": 2, "pts": []}]
    for n in (1, 2, 3):
        for _ in range(12):
            u = [rnd.choice(vals) for _ in range(n)]
            w = list(u) if rnd.random() < .3 else [rnd.choice([x, rnd.choice(vals)]) for x in u]
            ev += [{"op": "load", "d": 0, "v": u + [0] * rnd.randint(0, 2)}, {"op": "load", "d": 1, "v": w + [0] * rnd.randint(0, 2)},
                   {"op": "eq", "a": 0, "b": 1}, {"op": "eq", "a": 1, "b": 0}]
    return ev


def c03(rnd, run, scale):
    s = [tails(rnd, impl, scale) for impl in ("i32", "f64", "gf2", "gf7", "m2", "free", "i8", "gi", "rat")]
    s += giant(rnd, "eq", scale)
    s += [extremes(rnd, impl) for impl in ("i8", "i16", "i32", "i64", "f64")]
    s += [single(rnd, impl, scale) for impl in ("i64", "gf7", "f32", "m2", "i128")]
    em = run.model("PolyMC", emit=True, consts={"K": '"gf2"', "MaxLen": "5" if scale > 1 else "4"}, workers=1)
    s += from_model(em, ["gf2"], only=("sub", "clone", "eq"))
    em = run.model("PolyMC", emit=True, consts={"K": '"gf3"', "MaxLen": "3" if scale > 1 else "2"}, workers=1)
    s += from_model(em, ["gf3"], only=("sub", "clone", "eq"))
    for impl in ["i16", "i32", "i64", "i128", "isize", "f32", "f64", "gf2", "gf3", "gf7", "rat", "free", "m2", "gi"]:
        for _ in range(scale):
            s.append(axioms(rnd, impl, 5 if impl not in ("free",) else 3, maxlen=4 if impl not in ("rat", "free") else 2,
                            mag=3 if impl != "rat" else 2))
            s.append(eqpairs(rnd, impl, 25))
    for impl in ["i8", "i32", "gf2", "gf3", "f64"]:
        for _ in range(3 * scale):
            s.append(session(rnd, impl, 80, maxlen=5, mag=2, nr=5,
                             weights={"load": 2, "zero": 1, "one": 1, "clone": 2, "neg": 2, "add": 3, "sub": 5, "mul": 2, "eq": 12}))
    return s
