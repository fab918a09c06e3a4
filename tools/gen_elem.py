"""Calls of elementary functions (C08 complex, C23 real)."""
from fractions import Fraction as Fr
from math import lcm, gcd

CAP = {"f32": 5000, "f64": 10 ** 8}
rat = lambda x: [Fr(x).numerator, Fr(x).denominator]
R = lambda x: {"k": "rat", "v": rat(x)}
LN = lambda x: {"k": "ln", "v": rat(x)}
P2 = lambda n: {"k": "p2", "n": n}
TWO = lambda n: {"k": "two", "n": n}
SP = lambda v: {"k": "sp", "v": v}
ANG = lambda c, s, w=0: {"k": "ang", "c": rat(c), "s": rat(s), "w": w}


def sessions(impl, calls, n=120):
    out = []
    for c in range(0, len(calls), n):
        out.append([{"op": "session", "impl": impl}] + calls[c:c + n])
    return out


def size(e):
    v = e["val"]
    if isinstance(v, list):
        return max(e["den"], max(abs(x[0]) * e["den"] // x[1] for x in v))
    if v["k"] == "rat":
        return max(e["den"], abs(v["v"][0]))
    return e["den"]


def grid(run, scale):
    big = scale > 1
    return run.model("ElemMC", emit=True, workers=1, cfg="ElemMCBig" if big else None, timeout=800)


def turns(impl, f):
    """Numbers of turns after which the rounding of the argument does not matter yet."""
    if impl == "f32":
        return [1, -1, 2, -3, 5, -7] if f == "tan" else [1, -1, 2, -2, 3, -5, 8, -17, 33, -50]
    return [1, -1, 2, -3, 10, -25, 60, -160, 400, -900] + ([] if f == "tan" else [1700, -2600, 5000])


def wind(rnd, call, impl):
    """The same call, some turns further."""
    c = dict(call)
    for k in "xy":
        if k in c and c[k]["k"] == "ang" and not (c["op"] == "real" and c["f"] == "asin"):
            w = rnd.choice(turns(impl, call["f"]))
            c[k] = dict(c[k], w=w)
    return c


def from_grid(rnd, em, impl, op, winds):
    calls = []
    for e in em:
        c = e["call"]
        if c["op"] != op or size(e) > CAP[impl]:
            continue
        calls.append(dict(c, den=e["den"]))
        if any(c.get(k, {}).get("k") == "ang" for k in "xy") and rnd.random() < winds:
            if impl == "f32" and (c["f"] == "tan" or size(e) > 500):
                continue
            calls.append(dict(wind(rnd, c, impl), den=e["den"]))
    return calls


SERIES = {"exp": [1, 1, Fr(1, 2), Fr(1, 6)], "sin": [0, 1, 0, -Fr(1, 6)], "cos": [1, 0, -Fr(1, 2), 0], "tan": [0, 1, 0, Fr(1, 3)],
          "asin": [0, 1, 0, Fr(1, 6)], "sinh": [0, 1, 0, Fr(1, 6)], "cosh": [1, 0, Fr(1, 2), 0], "ln1p": [0, 1, -Fr(1, 2), Fr(1, 3)],
          "sqrt1p": [1, Fr(1, 2), -Fr(1, 8), Fr(1, 16)], "atan": [0, 1, 0, -Fr(1, 3)]}
ODD = {"sin", "cos", "tan", "asin", "sinh", "cosh", "atan"}


def near_zero(rnd, impl, real, scale):
    """Small arguments, in every order the precision allows."""
    eps = {"f64": 2.0 ** -52, "f32": 2.0 ** -23}[impl]
    top = 1000 if impl == "f64" else 110
    calls = []
    us = [[1], [-1], [3], [-3]] if real else [[1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [-1, 1], [1, -1], [-1, -1], [3, 1], [-1, 2], [2, -3]]
    ns = list(range(3, 34)) + [40, 48, 52, 53, 60, 80, 100] + ([200, 400, 700, 1000] if impl == "f64" else [])
    for f, c in SERIES.items():
        if f in (() if real else ("asin", "atan")):
            continue
        for n in ns:
            # 1 + z is rounded; the error of ln(1+z) is relative to that of 1
            for u in us if n < 20 or scale > 1 else rnd.sample(us, 2):
                r = (sum(x * x for x in u)) ** .5 * 2.0 ** -n
                if f in ("ln1p", "sqrt1p") and n > (50 if impl == "f64" else 21):
                    continue
                lv = []
                for j in range(4):
                    large = max([abs(float(c[i])) * r ** i for i in range(j + 1)] + [1 if f == "ln1p" and not real else 0])
                    tol = 16 * eps * large / r ** j if r ** j > 0 else 9
                    if 48 * (tol + 2 * r ** (2 if f in ODD and c[j] else 1)) < .19 and n * j <= top and (f != "ln1p" or real or j != 0):
                        lv.append(j)
                if lv:
                    calls.append({"op": "series", "f": f, "n": n, "u": u, "c": [rat(x) for x in c], "lv": lv, "odd": f in ODD})
    return calls


def c08(rnd, run, scale):
    em = grid(run, scale)
    s = []
    for impl in ("f64", "f32"):
        calls = from_grid(rnd, em, impl, "cplx", .5)
        pts = [(x, y, 1) for x in range(-4, 5) for y in range(-4, 5)]
        m = 2000 if impl == "f64" else 40
        pts += [(rnd.randint(-m, m), rnd.randint(-m, m), 1) for _ in range(60 * scale)]
        pts += [(rnd.randint(-20, 20), rnd.randint(-20, 20), rnd.choice([2, 3, 5, 7])) for _ in range(60 * scale)]
        pts += [(x * sx, y * sx, 1) for x, y in ((0, m), (m, 0), (m, 1), (1, m)) for sx in (1, -1)]
        for x, y, d in pts:
            if (x, y) == (0, 0):
                continue
            a = {"x": R(Fr(x, d)), "y": R(Fr(y, d)), "den": d}
            calls.append({"op": "cplx", "f": "ln", **a})
            calls.append({"op": "cplx", "f": "expln", **a})
        # scaled arguments of the logarithm
        top = 400 if impl == "f64" else 40
        for _ in range(150 * scale):
            x, y, k = rnd.randint(-12, 12), rnd.randint(-12, 12), rnd.choice([rnd.randint(-top, top), top, -top])
            if x or y:
                calls.append({"op": "cplx", "f": "ln", "x": R(x), "y": R(y), "den": 1, "sh": k})
                if abs(k) <= 100:
                    calls.append({"op": "cplx", "f": "expln", "x": R(x), "y": R(y), "den": 1, "sh": k})
        calls += scattered(rnd, impl, scale) + far_out(rnd, impl, scale)
        calls += near_zero(rnd, impl, False, scale)
        s += sessions(impl, calls)
    return s


def angle(rnd, top=9):
    a, b = rnd.randint(1, top), rnd.randint(0, top)
    h = a * a + b * b
    c, s = Fr(a * a - b * b, h), Fr(2 * a * b, h)
    if rnd.random() < .5:
        c, s = s, c
    return c * rnd.choice([1, -1]), s * rnd.choice([1, -1])


def scattered(rnd, impl, scale):
    """Complex arguments off the grid."""
    out = []
    big = impl == "f64"
    for _ in range(250 * scale):
        c, s = angle(rnd, 9 if big else 4)
        m = rnd.choice([5, 12, 40]) if big else 6
        v = Fr(rnd.randint(1, m), rnd.randint(1, m))
        if rnd.random() < .2:
            v = Fr(rnd.randint(1, 900 if big else 60))
        if rnd.random() < .1:
            v = 1 / v
        ch, sh = (v + 1 / v) / 2, (v - 1 / v) / 2
        w = 0 if rnd.random() < .5 else rnd.choice(turns(impl, "tan"))
        a, lg = ANG(c, s, w), LN(v)
        for f in ("exp", "sinh", "cosh", "sin", "cos", "tan"):
            res = {"exp": (v * c, v * s), "sinh": (sh * c, ch * s), "cosh": (ch * c, sh * s), "sin": (s * ch, c * sh), "cos": (c * ch, -s * sh)}
            if f == "tan":
                d = (c * ch) ** 2 + (s * sh) ** 2
                if d < Fr(1, 16):
                    continue
                # the intermediate numbers of the specification's division stay small
                p, q, x, y = *res["sin"], *res["cos"]
                parts = [p * x, q * y, q * x, p * y, x * x, y * y, d, (p * x + q * y) / d, (q * x - p * y) / d]
                res = parts[-2:]
            else:
                res = parts = res[f]
            den = lcm(res[0].denominator, res[1].denominator)
            if max([den] + [abs(x) * den for x in res]) > (10 ** 7 if big else 2000):
                continue
            if any(max(abs(x.numerator), x.denominator) > 30000 for x in parts):
                continue
            x, y = (lg, a) if f in ("exp", "sinh", "cosh") else (a, lg)
            out.append({"op": "cplx", "f": f, "x": x, "y": y, "den": den})
    return out


def far_out(rnd, impl, scale):
    """Exponentially large values."""
    out = []
    big = impl == "f64"
    for _ in range(120 * scale):
        c, s = angle(rnd)
        n = rnd.choice([1, -1]) * (rnd.randint(30, 900 if rnd.random() < .5 else 100) if big else rnd.randint(30, 110))
        den = lcm(c.denominator, s.denominator)
        a, p = ANG(c, s), P2(n)
        for f in ("exp", "sinh", "cosh", "sin", "cos", "tan"):
            if f == "tan" and abs(n) > (400 if big else 50):
                continue
            sc = n if f == "exp" else 0 if f == "tan" else abs(n) - 1
            x, y = (p, a) if f in ("exp", "sinh", "cosh") else (a, p)
            out.append({"op": "cplx", "f": f, "x": x, "y": y, "den": den if f != "tan" else 1, "sc": sc})
    return out


def c23(rnd, run, scale):
    em = grid(run, scale)
    s = []
    for impl in ("f64", "f32"):
        big = impl == "f64"
        calls = from_grid(rnd, em, impl, "real", 1.0)
        C = lambda op, f, x, den=1, **k: calls.append({"op": op, "f": f, "x": x, "den": den, **k})
        for f in ("abs", "sqrt", "exp", "ln", "sin", "cos", "tan", "asin", "sinh", "cosh"):
            for v in ("nan", "inf", "-inf"):
                C("real", f, SP(v))
                if f == "abs":
                    C("real", f, SP(v), form="r")
        calls += near_zero(rnd, impl, True, scale)
        # abs, sqrt, ln of rationals, negative ones included
        vals = [Fr(n, d) for d in (1, 2, 3, 10) for n in range(-12, 13)] + [Fr(rnd.randint(-999, 999), rnd.choice([1, 7, 4])) for _ in range(30 * scale)]
        vals += [Fr(n) for n in (1000, -1000, 2000, -2000)] + ([Fr(10 ** 6), Fr(-10 ** 6), Fr(65537)] if big else [])
        for v in vals:
            for form in "vr":
                C("real", "abs", R(v), v.denominator, form=form)
            C("real", "sqrt", R(v), v.denominator)
            C("real", "ln", R(v), v.denominator)
            if abs(v) > 1:
                C("real", "asin", R(v), 1)
        # powers of two: wide ranges of magnitude
        top = 1000 if big else 120
        ns = sorted(set(list(range(-30, 31, 3)) + list(range(-top, top + 1, 97 if big else 11)) + [rnd.randint(-top, top) for _ in range(20 * scale)] + [top, -top]))
        for n in ns:
            C("real", "exp", P2(n))
            C("real", "sqrt", TWO(n), lgden=2)
            C("real", "ln", TWO(n))
            if abs(n) >= 30:
                C("real", "sinh", P2(n))
                C("real", "cosh", P2(n))
        # exp, sinh, cosh at logarithms of rationals
        for _ in range(40 * scale):
            v = Fr(rnd.randint(1, 40), rnd.randint(1, 40))
            C("real", "exp", LN(v), v.denominator)
            h = (v - 1 / v) / 2
            if max(h.denominator, abs(h.numerator)) <= CAP[impl]:
                for f in ("sinh", "cosh"):
                    d = ((v - 1 / v) / 2 if f == "sinh" else (v + 1 / v) / 2).denominator
                    C("real", f, LN(v), d)
        # angles from any Pythagorean triple
        for _ in range(60 * scale):
            a, b = rnd.randint(1, 9), rnd.randint(0, 9)
            h = a * a + b * b
            c, sn = Fr(a * a - b * b, h), Fr(2 * a * b, h)
            if rnd.random() < .5:
                c, sn = sn, c
            c, sn = c * rnd.choice([1, -1]), sn * rnd.choice([1, -1])
            w = rnd.choice([0] * 9 + turns(impl, "sin"))
            C("real", "sin", ANG(c, sn, w), sn.denominator)
            C("real", "cos", ANG(c, sn, w), c.denominator)
            w = rnd.choice([0] * 6 + turns(impl, "tan"))
            if abs(c) >= Fr(1, 8):
                C("real", "tan", ANG(c, sn, w), (sn / c).denominator)
            if c >= Fr(1, 8) or c == 0:
                C("real", "asin", ANG(c, sn), lcm(c.denominator, sn.denominator))
        # atan2: a box, the axes, all infinities
        pts = [(x, y) for x in range(-3, 4) for y in range(-3, 4)]
        m = 2000 if big else 60
        pts += [(rnd.randint(-m, m), rnd.randint(-m, m)) for _ in range(60 * scale)] + [(m, 1), (-m, 1), (1, m), (1, -m), (-m, -1), (-1, -m)]
        for x in [m, -m, 1, -1, 2, -3, Fr(1, 2), -Fr(1, 4), "inf", "-inf"]:      # both zeros
            for y in (R(0), {"k": "nz"}):
                calls.append({"op": "atan2", "y": y, "x": SP(x) if isinstance(x, str) else R(x), "den": 1 if isinstance(x, str) else Fr(x).denominator})
        for x, y in pts:
            calls.append({"op": "atan2", "y": R(y), "x": R(x), "den": 1})
        for y in ("nan", "inf", "-inf", 0, 1, -1, 5):
            for x in ("nan", "inf", "-inf", 0, 2, -2, -7):
                if isinstance(x, str) or isinstance(y, str):
                    calls.append({"op": "atan2", "y": SP(y) if isinstance(y, str) else R(y), "x": SP(x) if isinstance(x, str) else R(x), "den": 1})
        s += sessions(impl, calls)
    return s
