"""Programs over scalars: primitive and user types (C25)."""
import struct
from gen_cplx import el_for, CK

INTS = {"i8": (1, 1), "i16": (2, 1), "i32": (4, 1), "i64": (8, 1), "i128": (16, 1), "isize": (8, 1),
        "u8": (1, 0), "u16": (2, 0), "u32": (4, 0), "u64": (8, 0), "u128": (16, 0), "usize": (8, 0)}
FLOATS = {"f32": 4, "f64": 8}
USER = ["gf2", "gf3", "gf7", "rat", "free", "m2", "gi"]


def word(rnd, n, signed):
    bits = 8 * n
    r = rnd.random()
    if r < .25:
        v = rnd.choice([0, 1, 2, 3, -1, -2, 7, 10, 100])
    elif r < .45:
        v = rnd.choice([1 << (bits - 1), (1 << (bits - 1)) - 1, (1 << bits) - 1, (1 << (bits - 1)) + 1, 1 << (bits // 2),
                        (1 << (bits // 2)) - 1, -(1 << (bits // 2))])
    elif r < .7:   # products that fit
        v = rnd.randint(-(1 << (bits // 2 - 1)), 1 << (bits // 2 - 1))
    else:
        v = rnd.getrandbits(bits)
        if rnd.random() < .5:
            v >>= rnd.randrange(bits)
    if not signed and rnd.random() < .9:
        v = abs(v)
    return list((v % (1 << bits)).to_bytes(n, "little"))


def flt(rnd, n):
    r = rnd.random()
    fmt = {4: "<f", 8: "<d"}[n]
    if r < .3:
        v = rnd.choice([0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 3.0, -6.0, 12.0, 0.75, -1.5])
    elif r < .45:
        v = rnd.choice([float("inf"), float("-inf"), float("nan"), 0.0, -0.0])
    elif r < .75:
        v = rnd.choice([-1, 1]) * rnd.randint(1, 4095) * 2.0 ** rnd.randint(-20, 20)
    else:   # any bits at all
        return [rnd.randrange(256) for _ in range(n)]
    return list(struct.pack(fmt, v))


def prim(rnd, impl, nev, nr=4):
    if impl in FLOATS:
        n, sg, sort, lit = FLOATS[impl], 1, "ieee", lambda: flt(rnd, FLOATS[impl])
    else:
        (n, sg), sort = INTS[impl], "word"
        lit = lambda: word(rnd, n, sg)
    ev = [{"op": "session", "impl": impl, "sort": sort, "n": n, "sg": bool(sg), "kind": ["int"], "nr": nr}]
    ev += [{"op": "load", "d": d, "v": lit()} for d in range(nr)]
    ops = ["load"] * 6 + ["mul"] * 4 + ["div"] * 4
    if impl not in ("isize", "usize"):
        ops += ["conj"] * 3
    if sg:
        ops += ["neutral"] * 3 + ["zero", "one"]
    for _ in range(nev):
        op = rnd.choice(ops)
        a, b, d = (rnd.randrange(nr) for _ in range(3))
        if op == "load":
            ev.append({"op": op, "d": d, "v": lit()})
        elif op in ("zero", "one"):
            ev.append({"op": op, "d": d})
        elif op == "conj":
            ev.append({"op": op, "d": d, "a": a})
        elif op == "neutral":
            ev.append({"op": op, "a": a})
        else:
            ev.append({"op": op, "d": d, "a": a, "b": b})
    return ev + [{"op": "dump"}]


def specials(rnd, impl):
    """Every operation on every (pair of) notable values."""
    if impl in FLOATS:
        n, sg, sort = FLOATS[impl], 1, "ieee"
        top = {4: [0x7f7fffff, 0x00800000, 1, 0x7fc12345], 8: [0x7fefffffffffffff, 0x0010000000000000, 1, 0x7ff8000000012345]}[n]
        vals = [list(struct.pack({4: "<f", 8: "<d"}[n], v)) for v in (0.0, -0.0, 1.0, -1.0, 2.0, -0.5, 3.0, float("inf"), float("-inf"))]
        vals += [list(v.to_bytes(n, "little")) for v in top] + [flt(rnd, n)]
        vals += [list((v | 1 << (8 * n - 1)).to_bytes(n, "little")) for v in top[:3]]
    else:
        (n, sg), sort = INTS[impl], "word"
        b = 8 * n
        vs = {0, 1, 2, 3, 7, (1 << (b - 1)) - 1, 1 << (b - 1), (1 << b) - 1, (1 << b) - 2, (1 << (b - 1)) + 1, 1 << (b // 2), (1 << (b // 2)) - 1}
        vals = [list(v.to_bytes(n, "little")) for v in sorted(vs)]
    ev = [{"op": "session", "impl": impl, "sort": sort, "n": n, "sg": bool(sg), "kind": ["int"], "nr": len(vals) + 1}]
    ev += [{"op": "load", "d": d, "v": v} for d, v in enumerate(vals)]
    last = len(vals)
    ev.append({"op": "load", "d": last, "v": vals[0]})
    for a in range(last):
        if impl not in ("isize", "usize"):
            ev.append({"op": "conj", "d": last, "a": a})
        if sg:
            ev.append({"op": "neutral", "a": a})
        for b in range(last):
            if len(vals) < 14 or rnd.random() < .7:
                ev += [{"op": f, "d": last, "a": a, "b": b} for f in ("mul", "div")]
    return ev + [{"op": "dump"}]


def user(rnd, impl, nev, nr=4):
    k = CK[impl]
    el = el_for(rnd, impl)
    ev = [{"op": "session", "impl": impl, "sort": "ring", "n": 0, "sg": True, "kind": k, "nr": nr}]

    def gen(d, g):
        ev.append({"op": "load", "d": d, "v": [[1, [g]]]})
    for _ in range(nev // 6):
        ev += [{"op": "load", "d": d, "v": el.lit(5)} for d in range(nr)]
        a, b, d, c = rnd.sample(range(4), 4)
        ev += [{"op": "mul", "d": d, "a": a, "b": b}, {"op": "mul", "d": c, "a": d, "b": a}, {"op": "neutral", "a": c},
               {"op": rnd.choice(["zero", "one"]), "d": a}, {"op": "neutral", "a": a}, {"op": "mul", "d": d, "a": b, "b": a},
               {"op": "dump"}]
        if impl == "free":
            gen(0, rnd.randint(1, 90)), gen(1, rnd.randint(1, 90))
            ev += [{"op": "div", "d": 2, "a": 0, "b": 1}, {"op": "div", "d": 3, "a": 1, "b": 0}, {"op": "dump"}]
        elif k[0].startswith("gf") or impl == "rat":
            ev += [{"op": "load", "d": d, "v": el.lit(5)} for d in range(nr)]
            ev += [{"op": "div", "d": d, "a": a, "b": b}, {"op": "div", "d": d, "a": b, "b": b}, {"op": "dump"}]
    return ev


def c25(rnd, run, scale):
    run.model("ScalMC", consts={"Step": "17" if scale == 1 else "1"}, timeout=800)
    out = []
    for t in ("i8", "u8"):
        for f in ("mul", "div"):
            head = {"op": "session", "impl": t, "sort": "word", "n": 1, "sg": t == "i8", "kind": ["int"], "nr": 1}
            out.append([head] + [{"op": "row", "f": f, "a": a} for a in range(256)])
    for t in list(INTS) + list(FLOATS):
        out.append(specials(rnd, t))
        for _ in range(2 * scale):
            out.append(prim(rnd, t, 80))
    for t in USER:
        for _ in range(2 * scale):
            out.append(user(rnd, t, 60))
    return out
