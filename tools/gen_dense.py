"""Programs over dynamic matrices, vectors and lazy expressions (C11..C17)."""
from gen_poly import Elem, KINDS, BIG

ARR = {(0, 0), (0, 1), (0, 2), (0, 5), (1, 0), (2, 0), (5, 0), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 4), (4, 1), (1, 9), (9, 1), (4, 17), (17, 3)}
KIND = dict(KINDS, cfree=["cplx", "free"], ci64=["cplx", "int"])
DIV = {"i32", "i64", "free", "gf7", "rat"}
IMPLS = ["i32", "i64", "f64", "free", "gf2", "gf7", "rat", "m2", "gi", "cfree", "ci64"]
SMALL = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 4), (4, 1), (0, 2), (2, 0), (0, 0), (4, 5), (5, 2), (1, 7), (3, 5)]


class El(Elem):
    """Scalar literals, also of the complex kinds over the free ring."""

    def __init__(self, rnd, impl):
        self.rnd, self.k, self.i, self.gen = rnd, KIND[impl], impl, 0
        if impl == "cfree":
            self.sub = Elem.__new__(Elem)
            self.sub.rnd, self.sub.k, self.sub.i, self.sub.gen = rnd, ["free"], "free", 0

    def lit(self, mag):
        if self.i == "cfree":
            return [self.sub.lit(mag), self.sub.lit(mag)]
        return Elem.lit(self, mag)

    def size(self, v):
        if self.i == "cfree":
            return self.sub.size(v[0]) + self.sub.size(v[1])
        return Elem.size(self, v)

    def zero(self):
        return [[], []] if self.i == "cfree" else Elem.zero(self)

    def one_gen(self):
        self.gen = self.gen % 900 + 1
        return [[1, [self.gen]]]

    def nonzero(self):
        t = self.k[0]
        if t == "int":
            return self.rnd.choice([-1, 1]) * self.rnd.randint(1, 3)
        if t == "rat":
            return [self.rnd.choice([-2, -1, 1, 2]), self.rnd.randint(1, 2)]
        if t == "free":
            return self.one_gen()
        return self.rnd.randrange(1, int(t[2:]))


class B:
    """Bounds: size of the entries, degree in generators, only generators?"""

    def __init__(self, s=1, d=0, gens=False):
        self.s, self.d, self.gens = s, d, gens


class Prog:
    def __init__(self, rnd, impl, nm=4, nv=4, mag=4, shapes=SMALL, lens=None, bad=0.0, lazy=False):
        self.rnd, self.impl, self.nm, self.nv, self.mag = rnd, impl, nm, nv, mag
        self.k, self.el = KIND[impl], El(rnd, impl)
        self.shapes, self.lens = shapes, lens or [0, 1, 2, 3, 4, 5, 8]
        self.bad, self.lazy, self.nid = bad, lazy, 0
        self.m, self.v = [((0, 0), B())] * nm, [(0, B())] * nv
        self.ev = [{"op": "session", "impl": impl, "kind": self.k, "nm": nm, "nv": nv}]
        self.isfree = "free" in self.k
        self.two = 2 if self.k[0] in ("cplx", "mat2") else 1
        self.lim = {"rat": 3000, "i32": 1 << 26}.get(self.k[0], BIG)

    # ------------------------------------------------------------- literals
    def fits(self, b):
        if self.isfree:
            return b.s <= 40 and b.d <= 3
        return self.k[0].startswith("gf") or b.s <= self.lim and b.d < 16

    def scalar(self, gens=False, nonzero=False):
        if gens:
            return self.el.one_gen()
        return self.el.nonzero() if nonzero else self.el.lit(self.mag)

    def lits(self, n, gens=False, nonzero=False):
        v = [self.scalar(gens, nonzero) for _ in range(n)]
        return v, B(max([self.el.size(x) for x in v] + [1]), 1, gens)

    def table(self, sh, **kw):
        v, b = self.lits(sh[0] * sh[1], **kw)
        return [v[i * sh[1]:(i + 1) * sh[1]] for i in range(sh[0])], b

    def id(self):
        self.nid += 1
        return self.nid

    def add(self, a, b):
        if self.k[0] == "rat":
            return B(2 * a.s * b.s, max(a.d, b.d))
        return B(a.s + b.s, max(a.d, b.d))

    def mul(self, a, b, n=1):
        if self.k[0] == "rat":
            return B((a.s * b.s) ** max(1, n) * max(1, n), a.d + b.d)
        return B(a.s * b.s * self.two * max(1, n), a.d + b.d)

    # ------------------------------------------------------------- trees
    def other(self, sh):
        """Another shape: one coordinate differs, often by one, or transposed."""
        r = self.rnd
        if isinstance(sh, int):
            return max(0, sh + r.choice([-1, 1, 1, 2])) if sh else r.choice([1, 2])
        c = [(sh[0] + 1, sh[1]), (sh[0], sh[1] + 1), (max(0, sh[0] - 1), sh[1]), (sh[0], max(0, sh[1] - 1)),
             (sh[1], sh[0]), (sh[0] * sh[1], 1), (1, sh[0] * sh[1]), (sh[0] + 1, sh[1] + 1)]
        c = [x for x in c if x != sh]
        return r.choice(c)

    def mleaf(self, sh, gens=False, nonzero=False):
        r = self.rnd
        opts = []
        if not nonzero:
            opts += [("m", i) for i in range(self.nm) if self.m[i][0] == sh and (not gens or self.m[i][1].gens)] * 3
        opts += ["gen", "gen", "user"] + (["arr", "arr"] if sh in ARR else [])
        if not gens and not nonzero:
            opts += ["zeros", "ones", "same"] + (["eye"] if sh[0] == sh[1] else [])
            opts += [("mul", i, j) for i in range(self.nm) for j in range(self.nm) if self.m[i][0][0] == sh[0] and self.m[j][0][1] == sh[1]
                     and self.m[i][0][1] == self.m[j][0][0] > 0 and self.fits(self.mul(self.m[i][1], self.m[j][1], self.m[i][0][1]))][:3]
        o = r.choice(opts)
        if isinstance(o, tuple) and o[0] == "m":
            return {"n": "m", "i": o[1], "f": r.choice(["ref", "own", "wref"])}, self.m[o[1]][1]
        if isinstance(o, tuple):
            return {"n": "mul", "a": o[1], "b": o[2]}, self.mul(self.m[o[1]][1], self.m[o[2]][1], self.m[o[1]][0][1])
        if o in ("gen", "user", "arr"):
            v, b = self.table(sh, gens=gens, nonzero=nonzero)
            x = {"n": o, "r": sh[0], "c": sh[1], "v": v}
            if o == "gen":
                x["id"] = self.id()
            if o == "arr":
                x["f"] = r.choice("wv")
            return x, b
        x = {"n": o, "r": sh[0]}
        if o != "eye":
            x["c"] = sh[1]
        if o == "same":
            x["x"] = self.scalar()
            return x, B(max(1, self.el.size(x["x"])), 1)
        return x, B(1, 0)

    def vleaf(self, n, gens=False, nonzero=False):
        r = self.rnd
        opts = []
        if not nonzero:
            opts += [("v", i) for i in range(self.nv) if self.v[i][0] == n and (not gens or self.v[i][1].gens)] * 3
        opts += ["gen", "gen", "user", "slice", "slice"]
        if not gens and not nonzero:
            opts += ["zeros", "ones", "same"]
        o = r.choice(opts)
        if isinstance(o, tuple):
            return {"n": "v", "i": o[1], "f": r.choice(["ref", "own", "wref"])}, self.v[o[1]][1]
        if o in ("gen", "user", "slice"):
            v, b = self.lits(n, gens=gens, nonzero=nonzero)
            x = {"n": o, "v": v}
            if o == "gen":
                x["id"] = self.id()
            if o == "slice":
                x["f"] = r.choice("wv")
            return x, b
        x = {"n": o, "r": n}
        if o == "same":
            x["x"] = self.scalar()
            return x, B(max(1, self.el.size(x["x"])), 1)
        return x, B(1, 0)

    def fn1(self, b):
        r = self.rnd
        fn = r.choice(["id", "neg", "lmul", "rmul", "addc", "const"])
        x = {"fn": fn}
        if fn in ("lmul", "rmul", "addc", "const"):
            x["x"] = self.scalar()
            c = B(max(1, self.el.size(x["x"])), 1)
            b = {"addc": self.add, "const": lambda p, q: q}.get(fn, self.mul)(b, c)
        return x, B(b.s, b.d, b.gens and fn == "id")

    def fn2(self, a, b):
        fn = self.rnd.choice(["fst", "snd", "sub", "rsub", "mul", "rmul"])
        return {"fn": fn}, {"fst": a, "snd": b}.get(fn) or (self.mul if "mul" in fn else self.add)(a, b)

    def node(self, vec, sh, depth):
        """A tree of the given shape; raises Overflow when it would not fit."""
        r = self.rnd
        leaf, node = (self.vleaf, self.vx) if vec else (self.mleaf, self.mx)
        if depth == 0:
            return leaf(sh)
        ops = ["add", "sub", "mule", "zip", "map", "wrap", "add", "sub", "zip"]
        ops += ["conj", "diag"] if vec else ["t", "t", "h"] + (["vdiag", "vdiag"] if sh[0] == sh[1] else [])
        if self.impl in DIV:
            ops += ["dive"]
        n = r.choice(ops)
        if n in ("add", "sub", "mule", "dive", "zip"):
            if n == "dive":
                if self.isfree:
                    a, b = leaf(sh, gens=True), leaf(sh, gens=True)
                else:
                    a, b = node(sh, depth - 1), leaf(sh, nonzero=True)
            else:
                a, b = node(sh, depth - 1), node(sh, r.randint(0, depth - 1))
                if r.random() < .5:
                    a, b = b, a
            if r.random() < self.bad:     # operands that do not fit
                o = leaf(self.other(sh))
                a, b = (a, o) if r.random() < .5 and n != "dive" else (o, b)
                if n == "dive":
                    n = "mule"
            x = {"n": n, "a": a[0], "b": b[0]}
            if n == "zip":
                g, bd = self.fn2(a[1], b[1])
                x.update(g, id=self.id())
            elif n in ("add", "sub"):
                bd = self.add(a[1], b[1])
            elif n == "mule":
                bd = self.mul(a[1], b[1])
            else:
                bd = B(a[1].s * b[1].s if self.k[0] == "rat" else a[1].s, 1)
            if n != "zip" and a[0]["n"] == ("v" if vec else "m") and r.random() < .7:
                x["f"] = "m"
        elif n == "diag":
            s = (sh, sh + r.randint(0, 2))
            a = self.mx(s if r.random() < .5 else s[::-1], depth - 1)
            x, bd = {"n": n, "a": a[0]}, a[1]
            if a[0]["n"] == "m" and r.random() < .7:
                x["f"] = "m"
        elif n == "vdiag":
            a = self.vx(sh[0], depth - 1)
            x, bd = {"n": n, "a": a[0]}, B(a[1].s, a[1].d)
            if a[0]["n"] == "v" and r.random() < .7:
                x["f"] = "m"
        elif n == "map":
            a = node(sh, depth - 1)
            g, bd = self.fn1(a[1])
            x = {"n": n, "a": a[0], "id": self.id(), **g}
        else:
            a = node(sh[::-1] if n in "th" else sh, depth - 1)
            x, bd = {"n": n, "a": a[0]}, B(a[1].s, a[1].d, a[1].gens and n not in ("h", "conj"))
            if n in ("t", "h", "conj") and a[0]["n"] in ("m", "v") and r.random() < .7:
                x["f"] = "m"
        if not self.fits(bd):
            return leaf(sh)
        return x, bd

    def mx(self, sh, depth):
        return self.node(False, sh, depth)

    def vx(self, n, depth):
        return self.node(True, n, depth)

    # ------------------------------------------------------------- events
    def emit(self, e):
        if self.lazy and e["op"] in ("meval", "veval", "masg", "vasg", "ment", "vent"):
            e.pop("f") if e["op"] in ("meval", "veval") and "f" in e else None
            e["lz"] = 1
        self.ev.append(e)

    def mload(self, d, sh, **kw):
        v, b = self.table(sh, **kw)
        self.m[d] = (sh, b)
        self.emit({"op": "mload", "d": d, "r": sh[0], "c": sh[1], "v": v})

    def vload(self, d, n, **kw):
        v, b = self.lits(n, **kw)
        self.v[d] = (n, b)
        self.emit({"op": "vload", "d": d, "v": v})

    @staticmethod
    def bad_in(ev, m, v):
        """Is the tree rejected? (mirrors the shapes only)"""
        raise NotImplementedError

    def shape_of(self, x, vec):
        """Shape of a tree, or None when it is rejected."""
        n = x["n"]
        if n in ("m", "v"):
            return (self.v if vec else self.m)[x["i"]][0]
        if n == "mul":
            a, b = self.m[x["a"]][0], self.m[x["b"]][0]
            return (a[0], b[1]) if a[1] == b[0] else None
        if n == "vdiag":
            s = self.shape_of(x["a"], True)
            return None if s is None else (s, s)
        if n == "diag":
            s = self.shape_of(x["a"], False)
            return None if s is None else min(s)
        if "b" in x:
            a, b = self.shape_of(x["a"], vec), self.shape_of(x["b"], vec)
            return a if a == b else None
        if "a" in x:
            s = self.shape_of(x["a"], vec)
            return s[::-1] if n in "th" and s is not None else s
        if vec:
            return len(x["v"]) if "v" in x else x["r"]
        return (x["r"], x["r"] if n == "eye" else x["c"])

    def step(self, op, depth):
        r = self.rnd
        a, b, d = r.randrange(self.nm), r.randrange(self.nm), r.randrange(self.nm)
        va, vb, vd = r.randrange(self.nv), r.randrange(self.nv), r.randrange(self.nv)
        msh, vln = r.choice([r.choice(self.shapes), self.m[a][0]]), r.choice([r.choice(self.lens), self.v[va][0]])
        if op == "mload":
            self.mload(d, r.choice(self.shapes), gens=self.impl == "free" and r.random() < .5)
        elif op == "vload":
            self.vload(vd, r.choice(self.lens), gens=self.impl == "free" and r.random() < .5)
        elif op == "mclone":
            self.m[d] = self.m[a]
            self.emit({"op": op, "d": d, "a": a})
        elif op == "meval":
            x, bd = self.mx(msh, depth)
            s = self.shape_of(x, False)
            self.emit({"op": op, "d": d, "x": x, "f": r.choice(["", "ee", "we", "re"])})
            if s is not None:
                self.m[d] = (s, bd)
        elif op == "veval":
            x, bd = self.vx(vln, depth)
            s = self.shape_of(x, True)
            self.emit({"op": op, "d": vd, "x": x, "f": r.choice(["", "ee", "we", "re"])})
            if s is not None:
                self.v[vd] = (s, bd)
        elif op in ("masg", "vasg"):
            vec = op[0] == "v"
            sh, cur = (self.v[vd] if vec else self.m[d])
            want = self.other(sh) if r.random() < self.bad * 2 else sh
            x, bd = (self.vx if vec else self.mx)(want, depth - 1)
            s = self.shape_of(x, vec)
            nb = self.add(cur, bd)
            if s == sh and not self.fits(nb):
                return
            self.emit({"op": op, "d": vd if vec else d, "x": x, "f": r.choice(["add", "sub"])})
            if s == sh:
                (self.v if vec else self.m)[vd if vec else d] = (sh, nb)
        elif op in ("ment", "vent"):
            vec = op[0] == "v"
            x, bd = self.vx(vln, depth) if vec else self.mx(msh, depth)
            s = self.shape_of(x, vec)
            if s is None:
                self.emit({"op": op, "x": x, "i": 0 if vec else [0, 0]})
            elif vec and s > 0:
                self.emit({"op": op, "x": x, "i": r.choice([0, s - 1, r.randrange(s)])})
            elif not vec and s[0] * s[1] > 0:
                self.emit({"op": op, "x": x, "i": [r.choice([0, n - 1, r.randrange(n)]) for n in s]})
        elif op in ("mset", "mget"):
            self.access(op, d if op == "mset" else a)
        elif op in ("vset", "vget"):
            self.access(op, vd if op == "vset" else va)
        elif op == "dot":
            if r.random() > self.bad:       # mostly equally long
                same = [i for i in range(self.nv) if self.v[i][0] == self.v[va][0]]
                vb = r.choice(same)
            (n, x), (k, y) = self.v[va], self.v[vb]
            if n != k or self.fits(self.mul(x, y, n)):
                self.emit({"op": op, "a": va, "b": vb, "f": r.choice(["rr", "vv"])})
        elif op == "mul":
            (s, x), (t, y) = self.m[a], self.m[b]
            if s[1] != t[0] or s[1] == 0 and s[0] * t[1] > 0:
                if s[1] == t[0] or r.random() > self.bad:
                    return
                self.emit({"op": "meval", "d": d, "x": {"n": "mul", "a": a, "b": b}, "f": ""})
                return
            nb = self.mul(x, y, s[1])
            if self.fits(nb):
                self.emit({"op": "meval", "d": d, "x": {"n": "mul", "a": a, "b": b}, "f": r.choice(["", "ee", "we", "re"])})
                self.m[d] = ((s[0], t[1]), nb)
        elif op == "meq":
            self.emit({"op": op, "a": a, "b": b})
        elif op == "veq":
            self.emit({"op": op, "a": va, "b": vb})
        elif op in ("mzip", "vzip"):
            vec = op[0] == "v"
            f, sh = (self.vx, vln) if vec else (self.mx, msh)
            self.emit({"op": op, "x": f(sh, depth - 1)[0], "z": f(self.other(sh) if r.random() < self.bad else sh, depth - 1)[0]})

    def access(self, op, i, outside=.2):
        r = self.rnd
        vec = op[0] == "v"
        sh = [self.v[i][0]] if vec else list(self.m[i][0])
        e = {"op": op, "d" if op[1:] == "set" else "a": i}
        idx = [r.choice([0, n - 1, r.randrange(n)]) if n else 0 for n in sh]
        if r.random() < outside or 0 in sh:
            t = r.randrange(len(sh))
            if sh[t] or r.random() < .5:
                idx[t] = sh[t] + r.choice([0, 0, 0, 1, 5])
            if not vec and r.random() < .3:      # flattened position inside the storage
                idx = [0, sh[1] + r.randrange(3)] if r.random() < .7 else [r.randrange(sh[0] + 1), sh[1]]
            if r.random() < .25:
                e["sh"] = [0] * len(sh)
                e["sh"][t] = r.choice([63, 62, 61, 60, 32, 33])
                idx[t] = min(idx[t], max(0, sh[t] - 1))
        e["i"] = idx
        if op[1:] == "set":
            e["x"] = self.scalar()
            tgt = self.v if vec else self.m
            s, b = tgt[i]
            tgt[i] = (s, B(max(b.s, self.el.size(e["x"])), max(1, b.d)))
        else:
            e["f"] = r.choice(["ix", "ix", "ow", "re", "wr", "ww"])
        self.emit(e)

    def random(self, n, weights, depth=3, mats=True, vecs=True):
        r = self.rnd
        for d in range(self.nm if mats else 0):
            self.mload(d, r.choice(self.shapes), gens=self.impl == "free" and d % 2 == 0)
        for d in range(self.nv if vecs else 0):
            self.vload(d, r.choice(self.lens), gens=self.impl == "free" and d % 2 == 0)
        ops, ws = list(weights), list(weights.values())
        for _ in range(8 * n):
            if len(self.ev) >= n:
                break
            self.step(r.choices(ops, ws)[0], r.choice([1, 1, 2, 2, depth]))
        self.ev.append({"op": "dump"})
        return self.ev


# ------------------------------------------------------------------ from the model
def dress(r, x, vec, p):
    """Chooses the operand forms of a tree the model emitted."""
    x = dict(x)
    n = x["n"]
    if n in ("m", "v"):
        x["f"] = r.choice(["ref", "own", "wref"])
    if n in ("arr", "slice"):
        x["f"] = r.choice("wv")
    if n in ("mul",):
        return x
    for c in "ab":
        if isinstance(x.get(c), dict):
            x[c] = dress(r, x[c], (n == "vdiag") or (vec and n != "diag"), p)
    if n in ("map", "zip", "gen"):
        x["id"] = p.id()
    if isinstance(x.get("a"), dict) and x["a"]["n"] in ("m", "v") and n not in ("zip", "map", "wrap") and r.random() < .6:
        x["f"] = "m"
    return x


def G(i):
    return [[1, [i]]]


def model_prefix(p):
    t = lambda r, c, b: [[G(b + c * i + j + 1) for j in range(c)] for i in range(r)]
    for d, (r, c, b) in enumerate([(2, 3, 10), (3, 2, 20), (2, 2, 30), (0, 2, 0)]):
        p.m[d] = ((r, c), B(1, 1))
        p.ev.append({"op": "mload", "d": d, "r": r, "c": c, "v": t(r, c, b)})
    for d, (n, b) in enumerate([(2, 40), (3, 50), (0, 0)]):
        p.v[d] = (n, B(1, 1))
        p.ev.append({"op": "vload", "d": d, "v": [G(b + i + 1) for i in range(n)]})


def from_model(run, rnd, start, depth, few, keep, chunk=60, sort=None, lazy=False, only=None):
    em = run.model("DenseMC", emit=True, workers="auto", consts={"Start": '"%s"' % start, "Depth": str(depth), "Few": str(few)})
    em = [e for e in em if sort is None or e["sort"] == sort]
    em = sorted({str(e): e for e in em}.items())
    em = [e for _, e in em]
    p0 = Prog(rnd, "free", 5, 4)
    p0.m[:4] = [((2, 3), 0), ((3, 2), 0), ((2, 2), 0), ((0, 2), 0)]
    p0.v[:3] = [(2, 0), (3, 0), (0, 0)]
    if only == "bad":
        em = [e for e in em if p0.shape_of(e["x"], e["sort"] == "V") is None]
    elif only == "good":
        em = [e for e in em if p0.shape_of(e["x"], e["sort"] == "V") is not None]
    if keep and len(em) > keep:
        em = rnd.sample(em, keep)
    out = []
    for c in range(0, len(em), chunk):
        p = Prog(rnd, "free", 5, 4, lazy=lazy)
        model_prefix(p)
        for e in em[c:c + chunk]:
            vec = e["sort"] == "V"
            s = p.shape_of(e["x"], vec)
            x = dress(rnd, e["x"], vec, p)
            p.emit({"op": "veval" if vec else "meval", "d": 3 if vec else 4, "x": x, "f": rnd.choice(["", "ee", "we", "re"])})
            if s is not None and vec and s > 0:
                p.emit({"op": "vent", "x": x, "i": rnd.randrange(s)})
            elif s is not None and not vec and s[0] * s[1] > 0:
                p.emit({"op": "ment", "x": x, "i": [rnd.randrange(n) for n in s]})
            fit = [i for i in range(3 if vec else 4) if (p.v if vec else p.m)[i][0] == s]
            if rnd.random() < .25 and (fit or not lazy) or s is None and rnd.random() < .5:
                p.emit({"op": "vasg" if vec else "masg", "d": rnd.choice(fit) if fit else rnd.randrange(3 if vec else 4), "x": x, "f": rnd.choice(["add", "sub"])})
                if vec:
                    p.emit({"op": "vload", "d": p.ev[-1]["d"], "v": p.ev[5 + p.ev[-1]["d"]]["v"]})
                else:
                    p.emit({**p.ev[1 + p.ev[-1]["d"]]})
        p.ev.append({"op": "dump"})
        out.append(p.ev)
    return out


def sources(rnd, impl, vec, lazy=False):
    """Every kind of leaf in every form and shape: evaluated in every form, read
    entry by entry, and below every operation, alone and next to another leaf."""
    out = []
    shapes = (list(range(0, 6)) + [8, 16, 17, 33]) if vec else sorted(ARR) + [(0, 3), (7, 0), (4, 4), (8, 8), (9, 5)]
    kinds = ["v:ref", "v:own", "v:wref", "gen", "user", "slice:w", "slice:v", "zeros", "ones", "same"] if vec else \
        ["m:ref", "m:own", "m:wref", "gen", "user", "arr:w", "arr:v", "zeros", "ones", "same", "eye"]
    for sh in shapes:
        p = Prog(rnd, impl, 3, 3, lazy=lazy)
        gens = impl == "free"
        p.mload(0, (rnd.randint(1, 3), rnd.randint(1, 3)))
        p.vload(0, 2)
        for d in (1, 2):
            p.vload(d, sh, gens=gens) if vec else p.mload(d, sh, gens=gens)

        def leaf(kind):
            n, _, f = kind.partition(":")
            if n in ("v", "m"):
                return {"n": n, "i": rnd.choice([1, 2]), "f": f}
            if n in ("zeros", "ones", "same"):
                x = {"n": n, "r": sh if vec else sh[0]}
            elif n == "eye":
                return {"n": n, "r": sh[0]} if sh[0] == sh[1] else None
            else:
                if n == "arr" and sh not in ARR:
                    return None
                x = {"n": n, "v": p.lits(sh, gens=gens)[0] if vec else p.table(sh, gens=gens)[0]}
                if not vec:
                    x["r"] = sh[0]
            if not vec:
                x["c"] = sh[1]
            if n == "same":
                x["x"] = p.scalar()
            if n == "gen":
                x["id"] = p.id()
            if n in ("arr", "slice"):
                x["f"] = f
            return x
        ev, en = ("veval", "vent") if vec else ("meval", "ment")

        def give(x, forms=("",), v=vec):
            for f in forms:
                p.emit({"op": "veval" if v else "meval", "d": 0, "x": x, "f": f})
            s = p.shape_of(x, v)
            if v and s or not v and s[0] * s[1]:
                p.emit({"op": "vent" if v else "ment", "x": x, "i": rnd.randrange(s) if v else [rnd.randrange(k) for k in s]})
        for kind in kinds:
            x = leaf(kind)
            if x is None:
                continue
            give(x, ("",) if lazy else ("", "ee", "we", "re"))
            wide = (sh > 8) if vec else sh[0] * sh[1] > 20
            if wide and rnd.random() < .6:
                continue
            m = {"f": "m"} if x["n"] in ("m", "v") and rnd.random() < .5 else {}
            for n in (["conj", "wrap", "map"] if vec else ["t", "h", "wrap", "map"]):
                y = {"n": n, "a": x, **(m if n in ("t", "h", "conj") else {})}
                if n == "map":
                    y.update(p.fn1(B(1, 1))[0], id=p.id())
                give(y)
            y = {"n": "vdiag" if vec else "diag", "a": x, **m}
            give(y, v=not vec)
            z = leaf(rnd.choice(kinds)) or leaf("user")
            for n in ("add", "sub", "mule", "zip"):
                y = {"n": n, "a": x, "b": z} if rnd.random() < .5 else {"n": n, "a": z, "b": x}
                if n == "zip":
                    y.update(p.fn2(B(1, 1), B(1, 1))[0], id=p.id())
                elif y["a"]["n"] in ("m", "v") and rnd.random() < .5:
                    y["f"] = "m"
                give(y)
            if rnd.random() < .5:
                p.emit({"op": "vasg" if vec else "masg", "d": 1, "x": x, "f": rnd.choice(["add", "sub"])})
                p.vload(1, sh, gens=gens) if vec else p.mload(1, sh, gens=gens)
        p.ev.append({"op": "dump"})
        out.append(p.ev)
    return out


BIGSH = [(8, 8), (16, 17), (7, 33), (33, 2), (2, 40), (1, 64), (65, 1), (9, 16), (32, 5)]
MW = {"mload": 3, "meval": 12, "ment": 4, "masg": 3, "mzip": 2, "mclone": 1, "meq": 1}
VW = {"vload": 3, "veval": 12, "vent": 4, "vasg": 3, "vzip": 2, "veq": 1, "meval": 2}
LW = {"mload": 1, "vload": 1, "meval": 6, "veval": 6, "masg": 2, "vasg": 2, "ment": 3, "vent": 3}
AW = {"mload": 1, "vload": 1, "mset": 8, "mget": 8, "vset": 4, "vget": 4, "masg": 2, "vasg": 2, "mclone": 1, "meq": 1}
BW = {"mload": 3, "vload": 3, "meval": 6, "veval": 6, "masg": 5, "vasg": 5, "mul": 4, "dot": 4, "mzip": 2, "vzip": 2, "ment": 1, "vent": 1}
DW = {"vload": 4, "dot": 14, "veval": 3, "vasg": 1}
PW = {"mload": 4, "mul": 14, "meval": 2, "masg": 1}


HUGE = [(64, 65), (65, 64), (33, 40), (100, 3), (3, 100), (129, 2), (2, 130), (257, 2), (2, 258), (1, 300), (300, 1), (16, 16), (32, 32), (31, 33)]
LONG = [64, 127, 128, 129, 255, 256, 257, 600, 1025]


def large(rnd, impl, shapes, vec=False, lazy=False, only=None):
    """Every operation on large operands: sizes around the powers of two."""
    out = []
    for sh in shapes:
        p = Prog(rnd, impl, 3, 3, lazy=lazy)
        p.mload(0, (1, 2)), p.vload(0, 2)
        for d in (1, 2):
            p.vload(d, sh) if vec else p.mload(d, sh)
        N = "v" if vec else "m"
        size = sh if vec else sh[0] * sh[1]

        def own(i):
            return {"n": N, "i": i, "f": rnd.choice(["ref", "own", "wref"])}

        def leaf(nonzero=False):
            n = rnd.choice([N, "gen", "user"] + (["slice"] if vec else []))
            if n == N and not nonzero:
                return own(rnd.choice([1, 2]))
            n = n if n != N else "gen"
            x = {"n": n, "v": (p.lits if vec else p.table)(sh, nonzero=nonzero)[0]}
            if not vec:
                x.update(r=sh[0], c=sh[1])
            if n == "gen":
                x["id"] = p.id()
            if n == "slice":
                x["f"] = rnd.choice("wv")
            return x

        def some(s):
            return rnd.choice([0, s - 1, s - 1, rnd.randrange(s)])

        def give(x, v=vec):
            p.emit({"op": "veval" if v else "meval", "d": 0, "x": x, "f": rnd.choice(["", "ee", "we", "re"])})
            s = p.shape_of(x, v)
            for _ in range(2):
                p.emit({"op": "vent" if v else "ment", "x": x, "i": some(s) if v else [some(k) for k in s]})
        un = ["conj", "wrap", "map"] if vec else ["t", "h", "wrap", "map"]
        bi = ["add", "sub", "mule", "zip"] + (["dive"] if impl in DIV else [])
        if size > 2000:
            un, bi = rnd.sample(un, 2), rnd.sample(bi, 2)
        for n in un:
            a = own(1) if rnd.random() < .5 else leaf()
            y = {"n": n, "a": a}
            if n == "map":
                y.update(p.fn1(B(1, 1))[0], id=p.id())
            elif n != "wrap" and a["n"] == N:
                y["f"] = "m"
            give(y)
        if not vec or sh <= 130:
            x = own(1)
            give({"n": "vdiag" if vec else "diag", "a": x, "f": "m"}, v=not vec)
        for n in bi:
            a, b = (own(1) if rnd.random() < .5 else leaf()), leaf(nonzero=n == "dive")
            y = {"n": n, "a": a, "b": b}
            if n == "zip":
                y.update(p.fn2(B(1, 1), B(1, 1))[0], id=p.id())
            elif a["n"] == N:
                y["f"] = "m"
            give(y)
        for f in ("add", "sub"):
            p.emit({"op": "vasg" if vec else "masg", "d": 1, "x": own(2) if rnd.random() < .5 else leaf(), "f": f})
        for _ in range(6):
            i = [some(sh)] if vec else [some(k) for k in sh]
            p.ev.append({"op": N + "set", "d": 2, "i": i, "x": p.scalar()})
            for f in ("ix", "ow", "re", "wr", "ww"):
                if rnd.random() < .3:
                    j = list(i)
                    j[rnd.randrange(len(j))] += rnd.choice([0, 0, 1])
                    p.ev.append({"op": N + "get", "a": 2, "i": j, "f": f})
            t = rnd.randrange(len(i))
            i[t] = (sh if vec else sh[t]) + rnd.choice([0, 1, 256])
            p.ev.append({"op": N + "set", "d": 2, "i": i, "x": p.scalar()})
            p.ev.append({"op": N + "get", "a": 2, "i": i, "f": rnd.choice(["ix", "ow", "re", "wr", "ww"])})
        p.ev.append({"op": N + "eq", "a": 1, "b": 2})
        p.ev.append({"op": "dump"})
        out.append(p.ev)
    return out


class Vast(Prog):
    """Expressions of shapes no memory could hold, read entry by entry."""

    def other(self, sh):
        r = self.rnd
        d = lambda n: max(0, n + r.choice([1, -1, 256, -256, 65536, -65536, 1 << 24, 1 << 16]))
        if isinstance(sh, int):
            return d(sh) if d(sh) != sh else sh + 1
        c = r.choice([(d(sh[0]), sh[1]), (sh[0], d(sh[1])), sh[::-1]])
        return c if c != sh else (sh[0] + 65536, sh[1])

    def leafs(self, x, square, nonzero):
        r = self.rnd
        n = r.choice(["ones", "same"] if nonzero else ["lin"] * 5 + ["zeros", "ones", "same"] + ["eye"] * 3 * square)
        x = dict(x, n=n)
        if n == "eye":
            x.pop("c")
        if n == "same":
            x["x"] = self.el.nonzero() if nonzero else self.scalar()
        if n == "lin":
            m = int(self.impl[2:]) if self.impl[0] == "g" else 40
            x.update(p=[r.randrange(m), r.randrange(m), r.randrange(m), m], id=self.id())
        return x, B(40, 1)

    def mleaf(self, sh, gens=False, nonzero=False):
        return self.leafs({"r": sh[0], "c": sh[1]}, sh[0] == sh[1], nonzero)

    def vleaf(self, n, gens=False, nonzero=False):
        return self.leafs({"r": n}, False, nonzero)


def vast(rnd, impl, n, vec=False, lazy=False, bad=0.0):
    """Shapes up to about 2^30 in each direction."""
    p = Vast(rnd, impl, 1, 1, bad=bad, lazy=lazy)
    dims = [1, 2, 3, 100, 255, 256, 257, 1000, 65535, 65536, 65537, 65792, 100000, 1 << 20, (1 << 24) + 1, 1 << 30, (1 << 30) + 65537]
    near = lambda k: min(k - 1, max(0, rnd.choice([0, 1, 255, 256, 257, 65535, 65536, 65537, k - 1, k - 1, k - 2, k // 2, rnd.randrange(k)])))
    while len(p.ev) < n:
        a = rnd.choice(dims)
        if vec:
            x, _ = p.vx(a, rnd.choice([0, 1, 2, 3, 4]))
        else:
            x, _ = p.mx((a, a if rnd.random() < .4 else rnd.choice(dims)), rnd.choice([0, 1, 2, 3, 4]))
        s = p.shape_of(x, vec)
        for _ in range(1 if s is None else 4):
            if s is None:
                p.emit({"op": "vent" if vec else "ment", "x": x, "i": 0 if vec else [0, 0]})
            elif vec:
                p.emit({"op": "vent", "x": x, "i": near(s)})
            else:
                i = [near(k) for k in s]
                if rnd.random() < .3:
                    i[1] = min(i[0], s[1] - 1)
                elif rnd.random() < .3:
                    i[1] = min(s[1] - 1, i[0] + rnd.choice([256, 65536, 1, 1 << 24]))
                p.emit({"op": "ment", "x": x, "i": i})
    return p.ev


def beyond(rnd, impl, n, vec=False, bad=0.0, diag=False):
    """Shapes up to 2^60 in each direction; many pairs agree modulo 2^32."""
    p = Vast(rnd, impl, 2, 2, bad=0)
    K = 1 << 32
    dims = [0, 1, 2, 3, 5, 1 << 16, (1 << 31) - 1, 1 << 31, K - 1, K, K + 1, K + 2, K + 3, 2 * K + 3, K * K >> 5, (K * K >> 4) + 3, K << 16, (K << 16) + 5]
    pair = lambda k: [k >> 30, k & ((1 << 30) - 1)]
    twin = lambda k: rnd.choice([k + K, k + K * rnd.randrange(1, 1 << 20), k - K if k >= K else k + (K << 20), k + (1 << 31), k + (1 << 16)])
    near = lambda k: min(k - 1, max(0, rnd.choice([0, 1, 65536, K - 1, K, K + 1, k - 1, k - 2, k // 2, rnd.randrange(k)])))

    def tree(x):
        x = {a: tree(b) if isinstance(b, dict) else b for a, b in x.items()}
        for a in "rc":
            if a in x:
                x[a] = pair(x[a])
        return dict(x, n="hlin") if x["n"] == "lin" else x

    sh0 = [rnd.choice([(2, 3), (1, 1), (0, 2), (3, 0)]), (2, 2)]
    for d in (0, 1):
        p.mload(d, sh0[d]), p.vload(d, rnd.choice([0, 1, 2, 3]))
    while len(p.ev) < n:
        a = rnd.choice(dims)
        s = a if vec else (a, a if rnd.random() < .4 else rnd.choice(dims))
        if rnd.random() < bad:
            # two operands that nearly fit
            own = rnd.random() < .35
            d = rnd.randrange(2)
            s = (p.v if vec else p.m)[d][0] if own else s
            o = twin(s) if vec else rnd.choice([(twin(s[0]), s[1]), (s[0], twin(s[1])), (twin(s[0]), twin(s[1])), s[::-1]])
            if o == s:
                continue
            leaf = p.vleaf if vec else p.mleaf
            if own:
                p.ev.append({"op": "vasg" if vec else "masg", "d": d, "x": tree(leaf(o)[0]), "f": rnd.choice(["add", "sub"]), "big": 1})
                continue
            ab = [leaf(s)[0], leaf(o)[0]]
            rnd.shuffle(ab)
            x = {"n": rnd.choice(["add", "sub", "mule", "zip"]), "a": ab[0], "b": ab[1]}
            if x["n"] == "zip":
                x.update(p.fn2(B(1, 1), B(1, 1))[0], id=p.id())
            z = [0, 0]
            p.ev.append({"op": "vent" if vec else "ment", "x": tree(x), "i": z if vec else [z, z], "big": 1})
            continue
        if diag:
            x = {"n": "vdiag", "a": p.vx(a, rnd.choice([0, 1, 2]))[0]}
        else:
            x, _ = p.vx(s, rnd.choice([0, 1, 2, 3])) if vec else p.mx(s, rnd.choice([0, 1, 2, 3]))
        s = p.shape_of(x, vec)
        if s is None or (0 in s if not vec else s == 0):
            continue
        for _ in range(3):
            if vec:
                i = pair(near(s))
            else:
                i = [near(k) for k in s]
                if rnd.random() < .5:
                    i[1] = min(s[1] - 1, rnd.choice([i[0], i[0] + K, i[0] % K]))
                i = [pair(k) for k in i]
            p.ev.append({"op": "vent" if vec else "ment", "x": tree(x), "i": i, "big": 1})
    return p.ev


GIANT = [(256, 257), (300, 220), (65537, 1), (1, 65537), (3, 21846)]


def giant(rnd, impl, shapes, vec=False, lazy=False):
    """Operands of more than 65536 elements; few operations on each."""
    out = []
    for sh in shapes:
        p = Prog(rnd, impl, 3, 3, mag=3, lazy=lazy)
        N = "v" if vec else "m"
        size = sh if vec else sh[0] * sh[1]
        for d in (0, 1):
            p.vload(d, sh) if vec else p.mload(d, sh)
        own = lambda i: {"n": N, "i": i, "f": rnd.choice(["ref", "own", "wref"])}

        def at(pos):
            return [pos] if vec else [pos // sh[1], pos % sh[1]]
        places = [0, size - 1, 65535, 65536, rnd.randrange(65537, size) if size > 65537 else 1]
        ops = rnd.sample(["add", "sub", "mule"], 2) + [rnd.choice(["conj", "wrap"] if vec else ["t", "h"]), rnd.choice(["map", "zip"])]
        def src(i):
            if not lazy:
                return own(i)
            x = {"n": "gen", "id": p.id(), "v": (p.lits if vec else p.table)(sh)[0]}
            return x if vec else {**x, "r": sh[0], "c": sh[1]}
        if lazy:
            ops = [n for n in ops if n in ("t", "h", "map", "zip")] + ["add"]
        for n in ops:
            x = {"n": n, "a": src(0)}
            if n in ("add", "sub", "mule", "zip"):
                x["b"] = src(1)
            if n == "map":
                x.update(p.fn1(B(1, 1))[0], id=p.id())
            elif n == "zip":
                x.update(p.fn2(B(1, 1), B(1, 1))[0], id=p.id())
            elif n != "wrap" and not lazy:
                x["f"] = "m"
            p.emit({"op": N + "eval", "d": 2, "x": x, "f": rnd.choice(["", "ee", "we", "re"])})
            t = at(rnd.choice(places))
            p.emit({"op": N + "ent", "x": x, "i": t[0] if vec else t if n not in "th" else t[::-1]})
        if lazy:
            out.append(p.ev)
            continue
        # the constant sources, at the corners and around the powers of two
        leaves = [{"n": "zeros"}, {"n": "ones"}, {"n": "same", "x": p.el.nonzero()}]
        for x in leaves:
            x.update({"r": sh} if vec else {"r": sh[0], "c": sh[1]})
            if rnd.random() < .5 and size < 70000:
                p.ev.append({"op": N + "eval", "d": 2, "x": x, "f": ""})
            for k in [k for k in places if k < size]:
                p.ev.append({"op": N + "ent", "x": x, "i": at(k)[0] if vec else at(k)})
        if not vec:
            for n in (257, 260, 300, 513) if rnd.random() < .5 else (256, 258, 1025, 65537, 1 << 30):
                x = {"n": "eye", "r": n}
                if n < 300 and rnd.random() < .5:
                    p.ev.append({"op": "meval", "d": 2, "x": x, "f": ""})
                for i, j in [(0, n - 1), (n - 1, 0), (n - 1, n - 1), (n - 256, 0) if n > 255 else (0, 0), (0, n - 256), (256 % n, 0), (n - 1, (n - 1) % 256), (0, 0)] + ([(65536, 0), (65536, 65536)] if n > 65536 else []):
                    p.ev.append({"op": "ment", "x": x, "i": [i, j]})
        if not vec:
            p.ev.append({"op": "veval", "d": 0, "x": {"n": "diag", "a": own(0), "f": "m"}, "f": ""})
        p.ev.append({"op": N + "asg", "d": 0, "x": own(1), "f": rnd.choice(["add", "sub"])})
        for k in places:
            p.ev.append({"op": N + "get", "a": 0, "i": at(k), "f": rnd.choice(["ix", "ow", "re", "wr", "ww"])})
        for k in rnd.sample(places, 2):
            p.ev.append({"op": N + "set", "d": 0, "i": at(k), "x": p.scalar()})
        # equal but for one element; shapes that agree modulo a power of two
        p.ev.append({"op": N + "eval", "d": 2, "x": own(0), "f": ""})
        p.ev.append({"op": N + "eq", "a": 0, "b": 2})
        p.ev.append({"op": N + "set", "d": 2, "i": at(rnd.choice(places)), "x": p.el.nonzero()})
        p.ev.append({"op": N + "eq", "a": 0, "b": 2})
        out.append(p.ev)
    return out


def giant_shapes(rnd):
    """Operands whose sizes agree in their low bytes only are rejected."""
    out = []
    for a, b in [((65537, 1), (1, 1)), ((1, 65538), (1, 2)), ((256, 257), (257, 256)), ((65536, 1), (256, 256)), ((257, 2), (1, 2)), ((2, 258), (2, 2)), ((65537, 1), (65792, 1))]:
        p = Prog(rnd, "gf7", 3, 2)
        p.mload(0, a), p.mload(1, b)
        for x, y in ((0, 1), (1, 0)):
            L = lambda i: {"n": "m", "i": i, "f": rnd.choice(["ref", "own", "wref"])}
            p.ev.append({"op": "masg", "d": x, "x": L(y), "f": rnd.choice(["add", "sub"])})
            p.ev.append({"op": "meval", "d": 2, "x": {"n": rnd.choice(["add", "sub", "mule"]), "a": L(x), "b": L(y), "f": "m"}, "f": ""})
            if p.m[x][0][1] != p.m[y][0][0]:
                p.ev.append({"op": "meval", "d": 2, "x": {"n": "mul", "a": x, "b": y}, "f": ""})
        out.append(p.ev)
    for n, k in [(65537, 1), (65536, 0), (70000, 70000 - 65536), (65536, 65792)]:
        p = Prog(rnd, "gf7", 1, 3)
        p.vload(0, n), p.vload(1, k)
        for x, y in ((0, 1), (1, 0)):
            p.ev.append({"op": "dot", "a": x, "b": y, "f": rnd.choice(["rr", "vv"])})
            p.ev.append({"op": "vasg", "d": x, "x": {"n": "v", "i": y, "f": "ref"}, "f": rnd.choice(["add", "sub"])})
            p.ev.append({"op": "veval", "d": 2, "x": {"n": rnd.choice(["add", "sub", "mule"]), "a": {"n": "v", "i": x, "f": "ref"}, "b": {"n": "v", "i": y, "f": "ref"}, "f": "m"}, "f": ""})
        out.append(p.ev)
    return out


def giant_products(rnd):
    out = []
    for l, m, n in [(65537, 1, 1), (1, 65537, 1), (260, 2, 260), (1, 2, 65537), (2, 40000, 1)]:
        p = Prog(rnd, "gf7", 3, 1)
        p.mload(0, (l, m)), p.mload(1, (m, n))
        p.ev.append({"op": "meval", "d": 2, "x": {"n": "mul", "a": 0, "b": 1}, "f": rnd.choice(["", "ee", "we", "re"])})
        p.ev.append({"op": "ment", "x": {"n": "mul", "a": 0, "b": 1}, "i": [l - 1, n - 1]})
        out.append(p.ev)
    return out


def c11(rnd, run, scale):
    s = from_model(run, rnd, "M", 2, 2 if scale == 1 else 10, 900 * scale, sort="M", only="good")
    s += sources(rnd, "free", False) + sources(rnd, rnd.choice(["gi", "m2", "i64", "gf7"]), False)
    for impl in IMPLS:
        for _ in range(3 * scale):
            s.append(Prog(rnd, impl, nv=2).random(45, MW))
    for impl in ("gf7", "gf2", "i64"):
        for _ in range(2 * scale):
            s.append(Prog(rnd, impl, nm=3, nv=1, shapes=BIGSH, lens=[8, 33]).random(14, MW, depth=3))
    for impl in ("gf7", "i64", "gf7")[:1 if scale == 1 else 3]:
        s += large(rnd, impl, HUGE)
    s += giant(rnd, "gf7", GIANT) + giant(rnd, "i64", GIANT[:2])
    s += [vast(rnd, impl, 80) for impl in ["i64", "gf7", "gf2", "f64"] * scale]
    s += [beyond(rnd, impl, 60) for impl in ["i64", "gf7", "f64"] * scale]
    return s


def c12(rnd, run, scale):
    s = from_model(run, rnd, "V", 2, 2 if scale == 1 else 7, 900 * scale, only="good")
    s += sources(rnd, "free", True) + sources(rnd, rnd.choice(["gi", "m2", "i64", "gf7"]), True)
    for impl in IMPLS:
        for _ in range(3 * scale):
            s.append(Prog(rnd, impl, nm=2).random(50, VW))
    for impl in ("gf7", "gf2", "i64"):
        for _ in range(2 * scale):
            s.append(Prog(rnd, impl, nm=1, shapes=[(9, 16), (17, 8)], lens=[0, 1, 16, 17, 31, 32, 33, 64, 65, 100]).random(25, {**VW, "meval": 0}))
    for impl in ("gf7", "i64", "gf7")[:1 if scale == 1 else 3]:
        s += large(rnd, impl, LONG, vec=True)
    s += giant(rnd, "gf7", [65536, 65537, 70000], vec=True) + giant(rnd, "i64", [66000], vec=True)
    s += [vast(rnd, impl, 80, vec=True) for impl in ["i64", "gf7", "gf2", "f64"] * scale]
    s += [beyond(rnd, impl, 60, vec=True) for impl in ["i64", "gf7", "f64"] * scale]
    s += [beyond(rnd, impl, 60, diag=True) for impl in ["i64", "gf7"] * scale]
    return s


def product(impl, l, m, n, rnd):
    """Generic matrices, their product, and the neutral unit matrices."""
    p = Prog(rnd, impl, 6, 1)
    c = [0]

    def t(r, k):
        if impl == "free":
            c[0] += 1
            return [[G(100 * c[0] + k * i + j + 1) for j in range(k)] for i in range(r)]
        return p.table((r, k))[0]
    ld = lambda d, r, k: p.ev.append({"op": "mload", "d": d, "r": r, "c": k, "v": t(r, k)})
    mul = lambda d, a, b, f="": p.ev.append({"op": "meval", "d": d, "x": {"n": "mul", "a": a, "b": b}, "f": f})
    ld(0, l, m), ld(1, m, n)
    mul(2, 0, 1)
    if l * n:
        p.ev.append({"op": "ment", "x": {"n": "mul", "a": 0, "b": 1}, "i": [l - 1, n - 1]})
    p.ev.append({"op": "meval", "d": 3, "x": {"n": "eye", "r": m}, "f": ""})
    mul(4, 0, 3), p.ev.append({"op": "meq", "a": 4, "b": 0})
    mul(4, 3, 1), p.ev.append({"op": "meq", "a": 4, "b": 1})
    p.ev.append({"op": "dump"})
    return p.ev


def assoc(rnd, impl, dims):
    p = Prog(rnd, impl, 6, 1, mag=2)
    l, m, n, k = dims
    for d, s in enumerate([(l, m), (m, n), (n, k)]):
        p.mload(d, s)
    mul = lambda d, a, b: p.ev.append({"op": "meval", "d": d, "x": {"n": "mul", "a": a, "b": b}, "f": ""})
    mul(3, 0, 1), mul(4, 3, 2), mul(3, 1, 2), mul(5, 0, 3)
    p.ev.append({"op": "meq", "a": 4, "b": 5})
    p.ev.append({"op": "dump"})
    return p.ev


def c13(rnd, run, scale):
    run.model("StaticMC", workers="auto", consts={"K": '"gf2"', "Emit": "FALSE"})
    q = 6 if scale > 1 else 4
    s = [product("free", l, m, n, rnd) for l in range(0, q) for m in range(1, q) for n in range(0, q)]
    s += [product("free", *d, rnd) for d in [(1, 9, 1), (2, 8, 2), (1, 17, 2), (7, 1, 5), (5, 6, 5), (1, 33, 1), (8, 8, 1), (1, 8, 9)]]
    for d in [(8, 8, 8), (16, 16, 16), (17, 16, 15), (9, 33, 4), (33, 5, 9), (4, 9, 33), (24, 24, 24), (2, 65, 3), (32, 32, 8), (1, 128, 1), (5, 64, 7), (64, 3, 5), (1, 257, 2), (256, 1, 3), (3, 2, 257), (33, 33, 33), (65, 2, 64), (65, 65, 65), (2, 300, 2), (64, 64, 64), (40, 129, 3), (3, 40, 130), (130, 3, 40), (1, 1025, 1)] + ([(129, 129, 129), (100, 257, 30), (128, 128, 128)] if scale > 1 else []):
        for impl in (["gf7", "i64", "f64"] if scale > 1 and d[0] * d[1] * d[2] < 200000 else ["gf7"] if d[0] * d[1] * d[2] > 200000 else [rnd.choice(["gf7", "i64", "f64", "gf2"])]):
            s.append(product(impl, *d, rnd))
    for d in [(16, 16, 16), (9, 33, 8), (33, 8, 9), (8, 9, 33), (2, 65, 2), (17, 17, 17), (65, 3, 2), (33, 34, 32), (2, 129, 2)]:
        s.append(product("m2", *d, rnd))
    for impl in IMPLS:
        for _ in range(2 * scale):
            if impl != "rat":
                s.append(assoc(rnd, impl, [rnd.randint(1, 3) for _ in range(4)]))
            s.append(Prog(rnd, impl, nv=1, shapes=[(1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 3), (3, 1), (4, 2), (2, 4)]).random(30, PW, vecs=False))
    s += giant_products(rnd)
    return s


def c14(rnd, run, scale):
    run.model("DenseMC", workers="auto", consts={"Start": '"V"', "Depth": "1", "Emit": "FALSE"})
    s = []
    for lens in (range(0, 24), [31, 32, 33, 63, 64, 65, 100, 128, 129]):
        p = Prog(rnd, "free", 1, 2)
        for n in lens:
            p.ev += [{"op": "vload", "d": 0, "v": [G(i + 1) for i in range(n)]}, {"op": "vload", "d": 1, "v": [G(i + 501) for i in range(n)]}]
            p.ev += [{"op": "dot", "a": 0, "b": 1, "f": "rr"}, {"op": "dot", "a": 0, "b": 1, "f": "vv"}, {"op": "dot", "a": 1, "b": 0, "f": "rr"},
                     {"op": "dot", "a": 0, "b": 0, "f": "rr"}]
        p.ev.append({"op": "dump"})
        s.append(p.ev)
    for impl in IMPLS:
        for _ in range(3 * scale):
            s.append(Prog(rnd, impl, nm=1, lens=[0, 1, 2, 3, 5, 8, 9]).random(50, DW, mats=False))
    for impl in ("ci64", "gf7", "m2"):
        for n in LONG + ([65537, 70000] if impl == "gf7" else [65600] if impl == "ci64" else []):
            p = Prog(rnd, impl, 1, 2, mag=3)
            for d in range(2):
                p.vload(d, n)
            for a, b in ((0, 1), (1, 0), (0, 0)):
                p.ev.append({"op": "dot", "a": a, "b": b, "f": rnd.choice(["rr", "vv"])})
            p.ev.append({"op": "dump"})
            s.append(p.ev)
    for impl in ("ci64", "gi", "cfree", "m2"):
        for n in range(0, 12 if impl != "cfree" else 5):
            p = Prog(rnd, impl, 1, 3)
            for d in range(2):
                p.vload(d, n)
            for a in (0, 1):
                for b in (0, 1):
                    p.ev.append({"op": "dot", "a": a, "b": b, "f": rnd.choice(["rr", "vv"])})
            p.ev.append({"op": "dump"})
            s.append(p.ev)
    return s


def grid(rnd, impl, shapes, scale):
    """Every operation on every pair of shapes."""
    out = []
    for s in shapes:
        p = Prog(rnd, impl, 4, 3)
        for t in shapes:
            p.mload(0, s), p.mload(1, t)
            L = lambda i: {"n": "m", "i": i, "f": rnd.choice(["ref", "own", "wref"])}
            for n in ("add", "sub", "mule", "dive", "zip"):
                if n == "dive" and impl not in DIV:
                    continue
                if n == "dive":
                    p.ev.append({"op": "mload", "d": 1, "r": t[0], "c": t[1], "v": p.table(t, nonzero=True)[0]})
                    if impl == "free":
                        p.mload(0, s, gens=True)
                x = {"n": n, "a": L(0), "b": L(1)}
                if n == "zip":
                    x.update(fn=rnd.choice(["fst", "snd", "sub"]), id=1)
                elif rnd.random() < .6:
                    x["f"] = "m"
                p.ev.append({"op": "meval", "d": 2, "x": x, "f": ""})
            for f in ("add", "sub"):
                p.ev.append({"op": "masg", "d": 0, "x": L(1), "f": f})
            p.ev.append({"op": "mzip", "x": L(0), "z": L(1)})
            if s[1] != t[0] or s[1] > 0 or s[0] * t[1] == 0:
                p.ev.append({"op": "meval", "d": 3, "x": {"n": "mul", "a": 0, "b": 1}, "f": ""})
        p.ev.append({"op": "dump"})
        out.append(p.ev)
    return out


def vgrid(rnd, impl, lens):
    out = []
    for s in lens:
        p = Prog(rnd, impl, 1, 3)
        for t in lens:
            p.vload(0, s, gens=impl == "free"), p.vload(1, t, gens=impl == "free", nonzero=impl in DIV and impl != "free")
            L = lambda i: {"n": "v", "i": i, "f": rnd.choice(["ref", "own", "wref"])}
            for n in ("add", "sub", "mule", "dive", "zip"):
                if n == "dive" and impl not in DIV:
                    continue
                x = {"n": n, "a": L(0), "b": L(1)}
                if n == "zip":
                    x.update(fn=rnd.choice(["fst", "snd", "sub"]), id=1)
                elif rnd.random() < .6:
                    x["f"] = "m"
                p.ev.append({"op": "veval", "d": 2, "x": x, "f": ""})
            for f in ("rr", "vv"):
                p.ev.append({"op": "dot", "a": 0, "b": 1, "f": f})
            for f in ("add", "sub"):
                p.ev.append({"op": "vasg", "d": 0, "x": L(1), "f": f})
            p.ev.append({"op": "vzip", "x": L(0), "z": L(1)})
        p.ev.append({"op": "dump"})
        out.append(p.ev)
    return out


def c15(rnd, run, scale):
    s = from_model(run, rnd, "M", 2, 2, 500 * scale, only="bad")
    s += from_model(run, rnd, "V", 2, 2, 300 * scale, only="bad")
    q = 4 if scale > 1 else 3
    s += grid(rnd, "i64", [(r, c) for r in range(q) for c in range(q)], scale)
    s += grid(rnd, "gf7", [(r, c) for r in (1, 4, 6) for c in (1, 4, 6)] + [(2, 12), (12, 2), (3, 8), (24, 1)], scale)
    if scale > 1:
        s += grid(rnd, "free", [(0, 1), (1, 2), (2, 1), (2, 2), (1, 4), (4, 1)], scale)
    s += vgrid(rnd, "i64", list(range(6 if scale == 1 else 10))) + vgrid(rnd, "gf7", [0, 1, 7, 8, 9, 16, 17, 32, 33]) + vgrid(rnd, "free", [0, 1, 2, 5])
    for impl in IMPLS:
        for _ in range(2 * scale):
            s.append(Prog(rnd, impl, bad=.25).random(45, BW))
    s += grid(rnd, "gf7", [(16, 16), (1, 256), (256, 1), (32, 8), (16, 17), (15, 16)], scale)
    s += vgrid(rnd, "gf7", [64, 65, 127, 128, 256, 257])
    s.append(inner_zero(rnd))
    s += giant_shapes(rnd)
    s += [vast(rnd, impl, 60, vec=v, bad=.5) for impl in ["i64", "gf7"] * scale for v in (False, True)]
    s += [beyond(rnd, impl, 60, vec=v, bad=.8) for impl in ["i64", "gf7"] * scale for v in (False, True)]
    return s


def inner_zero(rnd):
    """Products over an empty inner index (a known finding)."""
    p = Prog(rnd, "i64", 3, 1)
    for (a, b) in [((0, 0), (0, 0)), ((0, 0), (0, 2)), ((2, 0), (0, 0)), ((2, 0), (0, 3)), ((1, 0), (0, 1))]:
        p.mload(0, a), p.mload(1, b)
        p.ev.append({"op": "meval", "d": 2, "x": {"n": "mul", "a": 0, "b": 1}, "f": ""})
    return p.ev


def every_access(rnd, impl, sh):
    """All indices in and around one shape, read and written."""
    p = Prog(rnd, impl, 2, 2)
    p.mload(0, sh), p.mload(1, sh)
    for r in range(sh[0] + 2):
        for c in range(sh[1] + 2):
            for f in ("ix", "ow", "re", "wr", "ww"):
                p.ev.append({"op": "mget", "a": 0, "i": [r, c], "f": f})
            p.ev.append({"op": "mset", "d": 0, "i": [r, c], "x": p.scalar()})
    n = sh[0]
    p.vload(0, n)
    for i in range(n + 3):
        for f in ("ix", "ow", "re", "wr", "ww"):
            p.ev.append({"op": "vget", "a": 0, "i": [i], "f": f})
        p.ev.append({"op": "vset", "d": 0, "i": [i], "x": p.scalar()})
    for k in range(60, 64):
        for f in ("ix", "ow", "re", "wr"):
            for shf in ([k, 0], [0, k], [k, k]):
                p.ev.append({"op": "mget", "a": 0, "i": [0, 0], "sh": shf, "f": f})
            p.ev.append({"op": "vget", "a": 0, "i": [0], "sh": [k], "f": f})
        for shf in ([k, 0], [0, k]):
            p.ev.append({"op": "mset", "d": 0, "i": [0, 0], "sh": shf, "x": p.scalar()})
    p.ev.append({"op": "dump"})
    return p.ev


def c16(rnd, run, scale):
    s = []
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (4, 3), (1, 5), (5, 1), (0, 2), (2, 0), (0, 0)] + ([(6, 7), (8, 8), (3, 9)] if scale > 1 else [(4, 8)])
    for i, sh in enumerate(shapes):
        s.append(every_access(rnd, ["i64", "gf7", "free", "f64"][i % 4], sh))
    for impl in IMPLS:
        for _ in range(3 * scale):
            s.append(Prog(rnd, impl, nm=3, nv=2, shapes=[(1, 1), (2, 2), (2, 3), (3, 2), (4, 4), (1, 5), (5, 1), (3, 7), (8, 2), (2, 0), (0, 3)]).random(60, AW, depth=2))
    s += large(rnd, "i64", HUGE) + large(rnd, "gf7", LONG, vec=True)
    s += giant(rnd, "gf7", GIANT[:4]) + giant(rnd, "gf7", [65540], vec=True)
    return s


def c17(rnd, run, scale):
    s = from_model(run, rnd, "M", 2, 2, 450 * scale, lazy=True, only="good")
    s += sources(rnd, "gf7", False, lazy=True) + sources(rnd, "gf7", True, lazy=True)
    s += from_model(run, rnd, "V", 2, 2, 350 * scale, lazy=True, only="good")
    for impl in ("i64", "gf7", "free", "ci64", "i32"):
        for _ in range(5 * scale):
            s.append(Prog(rnd, impl, lazy=True).random(40, LW, depth=4))
    for _ in range(3 * scale):
        s.append(Prog(rnd, "gf7", nm=2, nv=2, shapes=[(6, 6), (5, 9), (9, 5), (1, 20)], lens=[16, 20], lazy=True).random(16, LW, depth=2))
    s += large(rnd, "gf7", HUGE, lazy=True) + large(rnd, "gf7", LONG, vec=True, lazy=True)
    s += [vast(rnd, impl, 60, vec=v, lazy=True) for impl in ["i64", "gf7", "gf2"] * scale for v in (False, True)]
    s += giant(rnd, "gf7", rnd.sample(GIANT, 3), lazy=True) + giant(rnd, "gf7", [65537], vec=True, lazy=True)
    return s
