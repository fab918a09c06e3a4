"""Programs over nested rings (C18).  The generator calculates along, only to
keep numbers small: the oracle is Tower.tla."""

TOWERS = {"pp": ["poly", "poly"], "pc": ["poly", "cplx"], "pm": ["poly", "mat2"],
          "cp": ["cplx", "poly"], "cc": ["cplx", "cplx"], "cm": ["cplx", "mat2"],
          "mp": ["mat2", "poly"], "mc": ["mat2", "cplx"], "mm": ["mat2", "mat2"],
          "tm": ["mat1", "mat3"], "tc": ["mat3", "cplx"],
          "pmc": ["poly", "mat2", "cplx"], "mpc": ["mat2", "poly", "cplx"], "cpm": ["cplx", "poly", "mat2"],
          "cmp": ["cplx", "mat2", "poly"], "pcp": ["poly", "cplx", "poly"], "ccc": ["cplx", "cplx", "cplx"]}
BASES = {"i64": "int", "gf3": "gf3", "free": "free"}


class Calc:
    def __init__(self, k):
        self.k = k
        t = k[0]
        self.sub = Calc(k[1:]) if len(k) > 1 else None
        self.p = int(t[2:]) if t.startswith("gf") else 0
        self.n = int(t[3:]) if t.startswith("mat") else 0

    def num(self, i):
        t = self.k[0]
        if t == "int":
            return i
        if self.p:
            return i % self.p
        if t == "free":
            return {(): i} if i else {}
        if t == "cplx":
            return (self.sub.num(i), self.sub.num(0))
        if t == "poly":
            return self.norm([self.sub.num(i)])
        return tuple(tuple(self.sub.num(i if a == b else 0) for b in range(self.n)) for a in range(self.n))

    def norm(self, l):
        l = list(l)
        while l and l[-1] == self.sub.num(0):
            l.pop()
        return tuple(l)

    def add(self, a, b, s=1):
        t, u = self.k[0], self.sub
        if t == "int":
            return a + s * b
        if self.p:
            return (a + s * b) % self.p
        if t == "free":
            m = dict(a)
            for w, c in b.items():
                m[w] = m.get(w, 0) + s * c
            return {w: c for w, c in m.items() if c}
        if t == "cplx":
            return (u.add(a[0], b[0], s), u.add(a[1], b[1], s))
        if t == "poly":
            z = u.num(0)
            n = max(len(a), len(b))
            f = lambda x: list(x) + [z] * (n - len(x))
            return self.norm(u.add(x, y, s) for x, y in zip(f(a), f(b)))
        return tuple(tuple(u.add(x, y, s) for x, y in zip(r, q)) for r, q in zip(a, b))

    def mul(self, a, b):
        t, u = self.k[0], self.sub
        if t == "int":
            return a * b
        if self.p:
            return a * b % self.p
        if t == "free":
            m = {}
            for w, c in a.items():
                for v, d in b.items():
                    m[w + v] = m.get(w + v, 0) + c * d
            return {w: c for w, c in m.items() if c}
        if t == "cplx":
            return (u.add(u.mul(a[0], b[0]), u.mul(a[1], b[1]), -1), u.add(u.mul(a[0], b[1]), u.mul(a[1], b[0])))
        if t == "poly":
            r = [u.num(0)] * max(0, len(a) + len(b) - 1 if a and b else 0)
            for i, x in enumerate(a):
                for j, y in enumerate(b):
                    r[i + j] = u.add(r[i + j], u.mul(x, y))
            return self.norm(r)
        out = []
        for i in range(self.n):
            row = []
            for j in range(self.n):
                s = u.num(0)
                for k in range(self.n):
                    s = u.add(s, u.mul(a[i][k], b[k][j]))
                row.append(s)
            out.append(tuple(row))
        return tuple(out)

    def leaves(self, a):
        t = self.k[0]
        if t == "int" or self.p:
            return [abs(a)] if a else []
        if t == "free":
            return [abs(c) * max(1, len(w)) for w, c in a.items()]
        if t in ("cplx", "poly"):
            return [x for c in a for x in self.sub.leaves(c)]
        return [x for r in a for c in r for x in self.sub.leaves(c)]

    def width(self, a):
        t = self.k[0]
        if t == "poly":
            return max([len(a)] + [self.sub.width(c) for c in a])
        if t == "cplx":
            return max(self.sub.width(c) for c in a)
        if self.n:
            return max(self.sub.width(c) for r in a for c in r)
        return 1

    def ok(self, a):
        l = self.leaves(a)
        return len(l) <= (150 if self.leaf() == "free" else 400) and max(l, default=0) < 1 << 27 and self.width(a) <= 12

    def leaf(self):
        return self.k[-1]

    # literals (JSON) and their values
    def lit(self, rnd, st):
        t = self.k[0]
        dens = st["dens"]
        if t == "int":
            return rnd.choice([-3, -2, -1, 1, 2, 3]) if rnd.random() < dens else 0
        if self.p:
            return rnd.randrange(self.p) if rnd.random() < dens else 0
        if t == "free":
            if rnd.random() > dens:
                return []
            st["g"] = st.get("g", 0) % 40 + 1
            return [[rnd.choice([1, 1, -1, 2]), [st["g"]]]]
        if t == "cplx":
            return [self.sub.lit(rnd, st), self.sub.lit(rnd, st)]
        if t == "poly":
            n = rnd.choice([0, 1, 1, 2, 2, 3])
            v = [self.sub.lit(rnd, st) for _ in range(n)]
            z = {**st, "dens": 0}
            return v + [self.sub.lit(rnd, z) for _ in range(rnd.choice([0, 0, 0, 1, 2]))]
        return [[self.sub.lit(rnd, st) for _ in range(self.n)] for _ in range(self.n)]

    def val(self, j):
        t = self.k[0]
        if t == "int":
            return j
        if self.p:
            return j % self.p
        if t == "free":
            m = {}
            for c, w in j:
                m[tuple(w)] = m.get(tuple(w), 0) + c
            return {w: c for w, c in m.items() if c}
        if t == "cplx":
            return (self.sub.val(j[0]), self.sub.val(j[1]))
        if t == "poly":
            return self.norm(self.sub.val(x) for x in j)
        return tuple(tuple(self.sub.val(x) for x in r) for r in j)


class Prog:
    def __init__(self, rnd, tower, base, nr=4):
        self.rnd, self.nr = rnd, nr
        k = TOWERS[tower] + [BASES[base]]
        self.c = Calc(k)
        self.r = [self.c.num(0)] * nr
        self.ev = [{"op": "session", "tower": tower, "base": base, "impl": tower + "-" + base, "kind": k, "nr": nr}]
        big = 1
        for x in TOWERS[tower]:
            big *= {"cplx": 2, "poly": 2, "mat2": 4, "mat3": 9, "mat1": 1}[x]
        self.dens = min(.9, (5 if base == "free" else 8) / big)

    def load(self, d, v=None):
        for _ in range(9):
            v = v if v is not None else self.c.lit(self.rnd, {"dens": self.dens if self.rnd.random() < .7 else .25})
            break
        self.put({"op": "load", "d": d, "v": v}, self.c.val(v))

    def put(self, e, v):
        if not self.c.ok(v):
            return False
        self.r[e["d"]] = v
        self.ev.append(e)
        return True

    def do(self, op, d, a=None, b=None, n=None):
        c, r = self.c, self.r
        e = {"op": op, "d": d}
        if op in ("add", "sub"):
            e.update(f="ar", a=d, b=b)
            return self.put(e, c.add(r[d], r[b], 1 if op == "add" else -1))
        if op in ("zero", "one"):
            return self.put(e, c.num(op == "one"))
        e["a"] = a
        w = lambda x: sum(c.leaves(x))
        if c.leaf() == "int" and op in ("mul", "acc", "comm") and w(r[a]) * w(r[b]) + w(r[d]) > 1 << 28:
            return False
        if op == "clone":
            return self.put(e, r[a])
        if op == "neg":
            return self.put(e, c.add(c.num(0), r[a], -1))
        if op == "pow":
            v = c.num(1)
            for _ in range(n):
                if c.leaf() == "int" and w(v) * w(r[a]) > 1 << 28:
                    return False
                v = c.mul(v, r[a])
                if not c.ok(v):
                    return False
            e["n"] = n
            return self.put(e, v)
        e["b"] = b
        if op == "mul":
            e["f"] = "mr"
            return self.put(e, c.mul(r[a], r[b]))
        if op == "acc":
            return self.put(e, c.add(r[d], c.mul(r[a], r[b])))
        if op == "comm":
            return self.put(e, c.add(c.mul(r[a], r[b]), c.mul(r[b], r[a]), -1))

    def eq(self, a, b):
        self.ev += [{"op": "eq", "a": a, "b": b}, {"op": "eq", "a": b, "b": a}]


def session(rnd, tower, base, nev):
    p = Prog(rnd, tower, base)
    for d in range(p.nr):
        p.load(d)
    ops = ["load"] * 6 + ["zero", "one", "clone", "neg", "neg"] + ["add", "sub"] * 5 + ["mul"] * 7 + ["pow"] * 2 + ["acc"] * 4 + ["comm", "comm", "eq", "eq", "iszero"]
    t = 0
    while len(p.ev) < nev and t < 5 * nev:
        t += 1
        op = rnd.choice(ops)
        a, b, d = (rnd.randrange(p.nr) for _ in range(3))
        if op == "load":
            p.load(d)
        elif op == "eq":
            p.eq(a, b)
        elif op == "iszero":
            p.ev.append({"op": op, "a": a})
        else:
            p.do(op, d, a, b, rnd.choice([0, 1, 2, 2, 3, 4]))
    p.ev.append({"op": "dump"})
    return p.ev


def axioms(rnd, tower, base, n):
    p = Prog(rnd, tower, base, 8)
    P, Q, R, Z, ONE, L, M, N = range(8)
    p.do("zero", Z), p.do("one", ONE)

    def add(d, a, b, op="add"):
        if d == b:
            p.do(op, d, d, a)       # only used where addition is symmetric
        else:
            if d != a:
                p.do("clone", d, a)
            p.do(op, d, d, b)
    for _ in range(n):
        for d in (P, Q, R):
            p.load(d)
        add(L, P, Q), add(M, Q, P), p.eq(L, M)
        add(L, L, R), add(M, Q, R), add(M, P, M), p.eq(L, M)
        add(L, P, P, "sub"), p.eq(L, Z), p.ev.append({"op": "iszero", "a": L})
        p.do("mul", L, P, ONE), p.eq(L, P), p.do("mul", L, ONE, P), p.eq(L, P)
        p.do("mul", L, P, Z), p.eq(L, Z), p.do("mul", L, Z, P), p.eq(L, Z)
        if p.do("mul", L, P, Q) and p.do("mul", L, L, R) and p.do("mul", M, Q, R) and p.do("mul", M, P, M):
            p.eq(L, M)
        add(L, P, Q)
        if p.do("mul", L, L, R) and p.do("mul", M, P, R) and p.do("acc", M, Q, R):
            p.eq(L, M)
        add(L, P, Q)
        if p.do("mul", L, R, L) and p.do("mul", M, R, P) and p.do("acc", M, R, Q):
            p.eq(L, M)
        p.do("mul", L, P, Q), p.do("mul", M, Q, P), p.eq(L, M)
        p.do("neg", L, P), add(L, L, P), p.eq(L, Z)
        add(L, P, Q, "sub"), add(L, L, Q), p.eq(L, P), p.eq(P, Q), p.eq(ONE, Z), p.eq(P, ONE)
    return p.ev


def from_model(emits, tower, base, k, chunk=25):
    out = []
    pairs = [e["load"] for e in emits if "load" in e]
    for c in range(0, len(pairs), chunk):
        ev = [{"op": "session", "tower": tower, "base": base, "impl": tower + "-" + base, "kind": k, "nr": 4}]
        for a, b in pairs[c:c + chunk]:
            ev += [{"op": "load", "d": 0, "v": a}, {"op": "load", "d": 1, "v": b},
                   {"op": "mul", "f": "mr", "d": 2, "a": 0, "b": 1}, {"op": "eq", "a": 0, "b": 1},
                   {"op": "sub", "f": "ar", "d": 2, "a": 2, "b": 0}, {"op": "acc", "d": 2, "a": 1, "b": 0},
                   {"op": "neg", "d": 3, "a": 0}, {"op": "add", "f": "ar", "d": 3, "a": 3, "b": 0},
                   {"op": "iszero", "a": 3}, {"op": "eq", "a": 3, "b": 2}]
        out.append(ev)
    return out


def c18(rnd, run, scale):
    big = scale > 1
    s = []
    from concurrent.futures import ThreadPoolExecutor
    towers = ["pp", "pc", "pm", "cp", "cc", "cm", "mp", "mc", "mm", "pmc", "mpc", "cpm", "cmp", "pcp", "ccc"]
    cap = "40" if big else "9"

    def one(t):
        return t, run.model("TowerMC", emit=True, consts={"T": '"%s"' % t, "B": '"gf3"', "Cap": cap}, workers=1, heap="1g")
    with ThreadPoolExecutor(8) as ex:
        for t, em in ex.map(one, towers if big else rnd.sample(towers[:9], 5) + rnd.sample(towers[9:], 3)):
            s += from_model(em, t, "gf3", TOWERS[t] + ["gf3"])
    for t in TOWERS:
        for b in BASES:
            for _ in range(2 * scale):
                s.append(session(rnd, t, b, 26 if b == "free" else 36))
            s.append(axioms(rnd, t, b, (1 if b == "free" else 2) * (2 if big else 1)))
    return s
