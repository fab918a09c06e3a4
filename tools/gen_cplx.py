"""Programs over complex variables (C04 - C07)."""
from fractions import Fraction as Fr
from gen_poly import KINDS, Elem

CK = dict(KINDS, gf5=["gf5"], gf11=["gf11"])
LIM = {"i8": 50, "i16": 15000, "f32": 1 << 22}
RINGS = ["i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "gf2", "gf3", "gf5", "gf7", "rat", "free", "m2", "gi"]
ADD, SUB, MUL = ("vv", "av", "ar"), ("vv", "av", "ar"), ("vv", "rr", "mr", "av")


def el_for(rnd, impl):
    e = Elem.__new__(Elem)
    e.rnd, e.k, e.i, e.gen = rnd, CK[impl], impl, 0
    return e


def session(rnd, impl, nev, weights, mag=4, nr=4):
    k = CK[impl]
    el = el_for(rnd, impl)
    finite = k[0].startswith("gf")
    lim = {"rat": 2000, "free": 60, "m2": 1 << 24, "gi": 1 << 24}.get(impl, LIM.get(impl, 1 << 27))
    dmax = {"free": 3, "rat": 3}.get(impl, 99)
    ev = [{"op": "session", "impl": impl, "kind": ["cplx"] + k, "nr": nr}]
    st = [(0, 0)] * nr   # bound of the components, number of factors

    def load(d):
        v = [el.lit(mag), el.lit(mag)]
        if rnd.random() < .15:
            v[rnd.randrange(2)] = el.zero()
        st[d] = (max(el.size(x) for x in v) + (1 if k[0] == "rat" else 0), 1)
        ev.append({"op": "load", "d": d, "v": v})
    for d in range(nr):
        load(d)
    names, ws = list(weights), list(weights.values())
    f2 = {"mat2": 2, "cplx": 2}.get(k[0], 1)
    tries = 0
    while len(ev) < nev and tries < nev * 6:
        tries += 1
        op = rnd.choices(names, ws)[0]
        a, b, d = (rnd.randrange(nr) for _ in range(3))

        def put(res, e):
            if finite or (res[0] <= lim and res[1] <= dmax):
                st[d] = res
                ev.append(e)
        if op == "load":
            load(d)
        elif op in ("zero", "one"):
            put((1, 0), {"op": op, "d": d})
        elif op in ("clone", "neg"):
            put(st[a], {"op": op, "d": d, "a": a})
        elif op == "conj":
            put(st[a], {"op": op, "d": d, "a": a})
        elif op in ("add", "sub"):
            f = rnd.choice(ADD)
            if f != "vv":
                a = d
            A, B = st[a], st[b]
            put((A[0] + B[0] if k[0] != "rat" else 2 * A[0] * B[0] + 1, max(A[1], B[1]) + (1 if k[0] == "rat" else 0)),
                {"op": op, "f": f, "d": d, "a": a, "b": b})
        elif op == "mul":
            f = rnd.choice(MUL)
            if f == "av":
                a = d
            A, B = st[a], st[b]
            put((2 * f2 * A[0] * B[0] * (1 if k[0] != "rat" else 2 * A[0] * B[0]), A[1] + B[1]),
                {"op": "mul", "f": f, "d": d, "a": a, "b": b})
        elif op == "sqr":
            A = st[d]
            put((2 * f2 * A[0] * A[0] * (1 if k[0] != "rat" else 2 * A[0] * A[0]), 2 * A[1]), {"op": "sqr", "d": d})
        elif op == "smul":
            x = el.lit(mag)
            A = st[a]
            put((f2 * A[0] * max(1, el.size(x)), A[1] + 1), {"op": "smul", "d": d, "a": a, "x": x})
        elif op == "div":
            ev.append({"op": "div", "f": rnd.choice(["vv", "rr", "mr"]), "d": d, "a": a, "b": b})
        elif op == "norm":
            A = st[a]
            if finite or 2 * f2 * A[0] * A[0] <= lim * (8 if k[0] == "free" else 1) and 2 * A[1] <= max(dmax, 4):
                ev.append({"op": "norm", "a": a})
        elif op == "eq":
            ev.append({"op": "eq", "a": a, "b": b})
    ev.append({"op": "dump"})
    return ev


def generic(k="free", impl="free"):
    """Both operands with free components: decides every component ring."""
    g = lambda i: [[1, [i]]]
    ev = [{"op": "session", "impl": impl, "kind": ["cplx", k], "nr": 4},
          {"op": "load", "d": 0, "v": [g(1), g(2)]}, {"op": "load", "d": 1, "v": [g(3), g(4)]}]
    for op, fs in (("add", ADD), ("sub", SUB), ("mul", MUL)):
        for f in fs:
            if f in ("av", "ar"):
                ev.append({"op": "clone", "d": 2, "a": 0})
            ev.append({"op": op, "f": f, "d": 2, "a": 2 if f in ("av", "ar") else 0, "b": 1})
            ev.append({"op": "dump"})
    ev += [{"op": "clone", "d": 2, "a": 0}, {"op": "sqr", "d": 2}, {"op": "smul", "d": 2, "a": 0, "x": g(5)},
           {"op": "neg", "d": 2, "a": 0}, {"op": "conj", "d": 2, "a": 0}, {"op": "conj", "d": 2, "a": 2},
           {"op": "eq", "a": 2, "b": 0}, {"op": "norm", "a": 0}, {"op": "zero", "d": 3}, {"op": "one", "d": 3}, {"op": "dump"}]
    return ev


def patterns(rnd, impl, part):
    """Every way in which the four components can be zero, one, minus one, one
    and the same element, its negation, or a free element of their own."""
    k = CK[impl]
    if impl == "free":
        vals = lambda s: [[], [[1, []]], [[-1, []]], [[1, [9]]], [[-1, [9]]], [[1, [s + 1]]]]
    else:
        own = [[[1, 2], [0, 1]], [[0, 1], [1, 0]], [[1, 0], [3, 1]], [[2, 1], [1, 1]]]
        vals = lambda s: [[[0, 0], [0, 0]], [[1, 0], [0, 1]], [[-1, 0], [0, -1]], [[0, 1], [0, 2]], [[0, -1], [0, -2]], own[s]]
    out, ev, n = [], None, 0
    for w in range(6 ** 4):
        if rnd.random() > part:
            continue
        if n % 90 == 0:
            ev = [{"op": "session", "impl": impl, "kind": ["cplx"] + k, "nr": 3}]
            out.append(ev)
        n += 1
        c = [vals(s)[w // 6 ** s % 6] for s in range(4)]
        ev += [{"op": "load", "d": 0, "v": c[:2]}, {"op": "load", "d": 1, "v": c[2:]}]
        f = rnd.choice(MUL)
        if f == "av":
            ev.append({"op": "clone", "d": 2, "a": 0})
        ev.append({"op": "mul", "f": f, "d": 2, "a": 2 if f == "av" else 0, "b": 1})
        ev.append({"op": rnd.choice(["add", "sub"]), "f": "vv", "d": 2, "a": 0, "b": 1})
        if w < 36:
            ev += [{"op": "clone", "d": 2, "a": 0}, {"op": "sqr", "d": 2}, {"op": "norm", "a": 0}, {"op": "conj", "d": 2, "a": 0}, {"op": "neg", "d": 2, "a": 0}]
        ev.append({"op": "eq", "a": 0, "b": 1})
    return out


def from_model(em, impls, only=None, div=True, chunk=25, loads=True):
    s = [e for e in em if "script" in e][0]
    pairs = [e for e in em if "load" in e]
    pick = lambda evs: [e for e in evs if only is None or e["op"] in only]
    out = []
    for impl in impls:
        for c in range(0, len(pairs), chunk):
            ev = [{"op": "session", "impl": impl, "kind": s["kind"], "nr": 3}]
            for e in pairs[c:c + chunk]:
                ev += [{"op": "load", "d": 0, "v": e["load"][0]}, {"op": "load", "d": 1, "v": e["load"][1]}]
                ev += pick(s["script"]) + (pick(s["script2"]) if div and e["div"] else [])
            ev.append({"op": "dump"})
            out.append(ev)
    return out


def mc(run, k, box=2):
    return run.model("CplxMC", emit=True, consts={"K": '"%s"' % k, "Box": str(box)}, workers=1)


W4 = {"load": 4, "zero": 1, "one": 1, "clone": 1, "neg": 2, "add": 6, "sub": 6, "mul": 6, "sqr": 1, "smul": 3, "eq": 1}
W6 = {"load": 8, "clone": 1, "neg": 1, "add": 2, "sub": 1, "mul": 3, "conj": 8, "norm": 8, "eq": 1}


def c04(rnd, run, scale):
    s = [generic()]
    s += patterns(rnd, "free", 1) + patterns(rnd, "m2", 1 if scale > 1 else .4)
    s += from_model(mc(run, "gf2"), ["gf2"], div=False)
    s += from_model(mc(run, "gf3"), ["gf3"], div=False)
    s += from_model(mc(run, "int", 2 if scale > 1 else 1), ["i8", "i64", "f64"], div=False)
    if scale > 1:
        s += from_model(mc(run, "gf5"), ["gf5"], div=False)
    for impl in RINGS:
        for _ in range(4 * scale):
            s.append(session(rnd, impl, 70, W4))
    return s


def ratc(c):
    return [[c[0].numerator, c[0].denominator], [c[1].numerator, c[1].denominator]]


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cdiv(a, b):
    n = b[0] * b[0] + b[1] * b[1]
    p = cmul(a, (b[0], -b[1]))
    return (p[0] / n, p[1] / n)


def lcm_den(c):
    from math import lcm
    return lcm(c[0].denominator, c[1].denominator)


def c05(rnd, run, scale):
    s = from_model(mc(run, "gf3"), ["gf3"], only=("div", "mul", "eq"))
    s += from_model(mc(run, "gf7"), ["gf7"], only=("div", "mul", "eq"), chunk=60)
    if scale > 1:
        s += from_model(mc(run, "gf11"), ["gf11"], only=("div", "mul", "eq"), chunk=60)
    small = lambda m: Fr(rnd.randint(-m, m))
    for impl in ("rat", "f64", "f32"):
        for _ in range(6 * scale):
            ev = [{"op": "session", "impl": impl, "kind": ["cplx", "rat"], "nr": 4}]

            def emit(e, val):
                if impl != "rat":
                    e["den"] = lcm_den(val)
                ev.append(e)
            for i in range(12):
                m = rnd.choice([1, 2, 5, 12])
                a = (small(m), small(m))
                if impl == "rat" and rnd.random() < .5:
                    a = (a[0] / rnd.randint(1, 3), a[1] / rnd.randint(1, 3))
                b = (Fr(0), Fr(0))
                while b == (0, 0):
                    b = (small(m), small(m))
                    if rnd.random() < .3:
                        b = (b[0], Fr(0)) if rnd.random() < .5 else (Fr(0), b[1])
                emit({"op": "load", "d": 0, "v": ratc(a)}, a)
                emit({"op": "load", "d": 1, "v": ratc(b)}, b)
                for f in ("vv", "rr", "mr"):
                    emit({"op": "div", "f": f, "d": 2, "a": 0, "b": 1}, cdiv(a, b))
                emit({"op": "mul", "f": "rr", "d": 3, "a": 2, "b": 1}, a)
                emit({"op": "mul", "f": "rr", "d": 3, "a": 0, "b": 1}, cmul(a, b))
                emit({"op": "div", "f": rnd.choice(["vv", "rr", "mr"]), "d": 3, "a": 3, "b": 1}, a)
                emit({"op": "div", "f": rnd.choice(["vv", "rr", "mr"]), "d": 3, "a": 1, "b": 1}, (Fr(1), Fr(0)))
                x = Fr(rnd.choice([1, -1, 2, 3, -4, 5]), rnd.choice([1, 1, 2, 4]))
                for f in ("vv", "vr", "rr"):
                    emit({"op": "sdiv", "f": f, "d": 3, "a": 0, "x": [x.numerator, x.denominator]}, (a[0] / x, a[1] / x))
            s.append(ev)
    # magnitudes far from one (still moderate): the quotient does not depend on the scale
    for impl, e in (("f64", 10), ("f32", 7)):
        for _ in range(4 * scale):
            ev = [{"op": "session", "impl": impl, "kind": ["cplx", "rat"], "nr": 4}]
            for i in range(10):
                p = 2 ** rnd.randint(0, e)
                b0 = (rnd.randint(-5, 5), rnd.randint(1, 5))
                q = (rnd.randint(-5, 5), rnd.randint(-5, 5))
                b = (Fr(b0[0] * p), Fr(b0[1] * p))
                a = cmul(b, (Fr(q[0]), Fr(q[1])))
                ev += [{"op": "load", "d": 0, "v": ratc(a), "den": 1}, {"op": "load", "d": 1, "v": ratc(b), "den": 1}]
                for f in ("vv", "rr", "mr"):
                    ev.append({"op": "div", "f": f, "d": 2, "a": 0, "b": 1, "den": 1})
            s.append(ev)
    # the quotient of scaled numbers is the scaled quotient
    for impl, e in (("f64", 230), ("f32", 28)):
        for _ in range(8 * scale):
            ev = [{"op": "session", "impl": impl, "kind": ["cplx", "rat"], "nr": 4}]
            for i in range(10):
                ka, kb = (rnd.choice([rnd.randint(-e, e), e, -e, 0]) for _ in "ab")
                b = (0, 0)
                while b == (0, 0):
                    b = (Fr(rnd.randint(-5, 5)), Fr(rnd.randint(-5, 5)))
                q = (Fr(rnd.randint(-5, 5)), Fr(rnd.randint(-5, 5)))
                a = cmul(b, q)
                ev += [{"op": "load", "d": 0, "v": ratc(a), "den": 1, "sh": ka, "osh": ka}, {"op": "load", "d": 1, "v": ratc(b), "den": 1, "sh": kb, "osh": kb}]
                for f in ("vv", "rr", "mr"):
                    ev.append({"op": "div", "f": f, "d": 2, "a": 0, "b": 1, "den": 1, "osh": ka - kb})
                ev.append({"op": "mul", "f": rnd.choice(["vv", "rr", "mr"]), "d": 2, "a": 0, "b": 1, "den": 1, "osh": ka + kb})
                x = rnd.choice([1, 2, -4, -8])
                ev.append({"op": "sdiv", "f": rnd.choice(["vv", "vr", "rr"]), "d": 3, "a": 0, "x": [x, 1], "den": 8, "osh": ka})
            s.append(ev)
    for impl in ("i8", "i16", "i32", "i64", "i128", "isize", "gf2", "gf5", "gf7"):
        k = CK[impl]
        ev = [{"op": "session", "impl": impl, "kind": ["cplx"] + k, "nr": 2}]
        for i in range(15 * scale):
            lit = lambda z=True: rnd.randint(-50, 50) if k[0] == "int" else rnd.randrange(int(impl[2:]))
            x = 0
            while x == 0:
                x = lit() if rnd.random() < .5 else rnd.randint(1, 9) % (10 if k[0] == "int" else int(impl[2:]))
            ev.append({"op": "load", "d": 0, "v": [lit(), lit()]})
            for f in ("vv", "vr", "rr"):
                ev.append({"op": "sdiv", "f": f, "d": 1, "a": 0, "x": x})
        s.append(ev)
    return s


TRIPLES = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25), (20, 21, 29), (1, 0, 1), (0, 1, 1), (2, 0, 2), (0, 0, 0), (0, 7, 7)]


def c06(rnd, run, scale):
    s = [generic()]
    s += from_model(mc(run, "gf3"), ["gf3"], only=("conj", "norm", "mul", "add"), div=False)
    s += from_model(mc(run, "int", 2), ["i8", "f64", "f32", "i128"], only=("conj", "norm"), div=False, chunk=60)
    for impl in RINGS:
        for _ in range(2 * scale):
            s.append(session(rnd, impl, 60, W6))
    # modulus and argument
    for _ in range(4 * scale):
        ev = [{"op": "session", "impl": "rat", "kind": ["cplx", "rat"], "nr": 1}]
        for _ in range(15):
            x, y, r = rnd.choice(TRIPLES)
            if rnd.random() < .5:
                x, y = y, x
            x, y, d = x * rnd.choice([1, -1]), y * rnd.choice([1, -1]), rnd.randint(1, 5)
            ev.append({"op": "load", "d": 0, "v": [[x, d], [y, d]]})
            ev += [{"op": "abs", "f": "v", "a": 0}, {"op": "abs", "f": "r", "a": 0}, {"op": "norm", "a": 0}]
        s.append(ev)
    box = [(x, y) for x in range(-3, 4) for y in range(-3, 4)]
    for impl in ("f64", "f32"):
        pts = list(box) + [(x * sx, y * sy) for x, y, _ in TRIPLES for sx in (1, -1) for sy in (1, -1)]
        m = 4000 if impl == "f64" else 60
        pts += [(rnd.randint(-m, m), rnd.randint(-m, m)) for _ in range(60 * scale)]
        pts += [(rnd.choice([1, -1]) * m, rnd.choice([1, -1, 0])) for _ in range(6)]
        pts += [(rnd.choice([1, -1, 0]), rnd.choice([1, -1]) * m) for _ in range(6)]
        for c in range(0, len(pts), 40):
            ev = [{"op": "session", "impl": impl, "kind": ["cplx", "rat"], "nr": 1}]
            for x, y in pts[c:c + 40]:
                d = rnd.choice([1, 1, 2, 8]) if max(abs(x), abs(y)) <= 60 else 1
                ev.append({"op": "load", "d": 0, "v": [[x, d], [y, d]], "den": d})
                ev += [{"op": "abs", "f": f, "a": 0, "den": d} for f in "vr"]
                ev.append({"op": "arg", "a": 0, "den": d})
            s.append(ev)
        # scaled numbers
        top = 480 if impl == "f64" else 55
        for _ in range(4 * scale):
            ev = [{"op": "session", "impl": impl, "kind": ["cplx", "rat"], "nr": 1}]
            for _ in range(25):
                x, y, k = rnd.randint(-20, 20), rnd.randint(-20, 20), rnd.choice([rnd.randint(-top, top), top, -top])
                ev.append({"op": "load", "d": 0, "v": [[x, 1], [y, 1]], "den": 1, "sh": k, "osh": k})
                ev.append({"op": "norm", "a": 0, "den": 1, "osh": 2 * k})
                ev += [{"op": "abs", "f": f, "a": 0, "den": 1, "osh": k} for f in "vr"]
                ev.append({"op": "arg", "a": 0, "den": 1, "osh": k})
                ev.append({"op": "conj", "d": 0, "a": 0, "den": 1, "osh": k})
                ev.append({"op": "arg", "a": 0, "den": 1, "osh": k})
            s.append(ev)
    return s


def c07(rnd, run, scale):
    mc(run, "int", 3 if scale > 1 else 2)   # at most one principal root; +-q is one of q*q
    s = []
    # the root is representable: every principal root with parts in a grid
    grid = [Fr(n, d) for d in (1, 2, 3) for n in range(-6, 7) if Fr(n, d).denominator == d]
    roots = [(x, y) for x in grid for y in grid if x > 0 or (x == 0 and y >= 0)]
    roots += [(Fr(rnd.randint(0, 40), rnd.randint(1, 6)), Fr(rnd.randint(-40, 40), rnd.randint(1, 6))) for _ in range(60 * scale)]
    # both sides of |re| = 2 |im| of the square, and close to the axes
    roots += [(Fr(a), Fr(b)) for a, b in [(1, 4), (4, 1), (5, 21), (21, 5), (13, 55), (55, 13), (1, 40), (40, 1), (17, 4), (17, 72), (72, 17)]]
    roots += [(Fr(a), -Fr(b)) for a, b in [(1, 4), (4, 1), (5, 21), (21, 5), (13, 55), (55, 13), (1, 40), (40, 1), (17, 72), (72, 17)]]
    roots = [r for r in roots if r[0] > 0 or r[1] >= 0]
    dy = [r for r in roots if lcm_den(r) in (1, 2)]
    for impl, rs in (("rat", roots), ("f64", dy), ("f32", [r for r in dy if max(abs(r[0]), abs(r[1])) <= 45])):
        for c in range(0, len(rs), 40):
            ev = [{"op": "session", "impl": impl, "kind": ["cplx", "rat"], "nr": 1}]
            for r in rs[c:c + 40]:
                z = cmul(r, r)
                e = {"op": "load", "d": 0, "v": ratc(z)}
                q = {"op": "sqrt", "a": 0}
                if impl != "rat":
                    e["den"] = q["den"] = lcm_den(z)
                    q["rden"] = lcm_den(r)
                ev += [e, q]
            s.append(ev)
    # scaled by powers of four
    for impl, rs in (("f64", dy), ("f32", [r for r in dy if max(abs(r[0]), abs(r[1])) <= 45])):
        top = 235 if impl == "f64" else 25
        for _ in range(6 * scale):
            ev = [{"op": "session", "impl": impl, "kind": ["cplx", "rat"], "nr": 1}]
            for r in rnd.sample(rs, min(len(rs), 40)):
                k = rnd.choice([rnd.randint(-top, top), rnd.randint(-10, 10), top, -top])
                z = cmul(r, r)
                ev.append({"op": "load", "d": 0, "v": ratc(z), "den": lcm_den(z), "sh": 2 * k, "osh": 2 * k})
                ev.append({"op": "sqrt", "a": 0, "den": lcm_den(z), "rden": lcm_den(r), "osh": k})
                x, y = rnd.randint(-30, 30), rnd.randint(-30, 30)
                ev.append({"op": "load", "d": 0, "v": [[x, 1], [y, 1]], "den": 1, "sh": 2 * k, "osh": 2 * k})
                ev.append({"op": "sqrt", "a": 0, "den": 1, "osh": k})
            s.append(ev)
    # other numbers: the square of the root is the number
    for impl, big in (("f64", 28), ("f32", 11)):
        pts = [(x, y) for x in range(-5, 6) for y in range(-5, 6)]
        for e in range(3, big + 1, 1 if scale > 1 else 3):
            for sx in (1, -1):
                for y in (1, -1, 0, 3):
                    pts += [(sx * 2 ** e, y), (y, sx * 2 ** e), (sx * (2 ** e - 1), y)]
        m = 10000 if impl == "f64" else 100
        pts += [(rnd.randint(-m, m), rnd.randint(-m, m)) for _ in range(80 * scale)]
        for _ in range(30 * scale):   # around the switch of the formulas
            y = rnd.randint(-m // 3, m // 3)
            pts += [(2 * y + rnd.choice([-1, 0, 1]), y), (-2 * y + rnd.choice([-1, 0, 1]), y), (y + rnd.choice([-1, 0, 1]), y)]
        pts = [(x, y, 1) for x, y in pts]
        pts += [(rnd.randint(-30, 30), rnd.randint(-30, 30), rnd.choice([2, 4, 64])) for _ in range(40 * scale)]
        for c in range(0, len(pts), 50):
            ev = [{"op": "session", "impl": impl, "kind": ["cplx", "rat"], "nr": 1}]
            for x, y, d in pts[c:c + 50]:
                ev += [{"op": "load", "d": 0, "v": [[x, d], [y, d]], "den": d}, {"op": "sqrt", "a": 0, "den": d}]
            s.append(ev)
    return s
