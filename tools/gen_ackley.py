"""Points for the Ackley function (C24)."""


def c24(rnd, run, scale):
    big = scale > 1
    run.model("AckleyMC", consts={"Max": "40" if big else "20"}, timeout=800)
    V = lambda a, b, d: {"op": "val", "a": a, "b": b, "d": d}
    out = []

    def session(pts, n=10 ** 9):
        for i in range(0, len(pts), n):
            out.append([{"op": "session", "impl": "ackley"}] + [V(*p) for p in pts[i:i + n]])
    lat = [(a, b, 4) for a in range(-20, 21) for b in range(-20, 21)]
    for _ in range(1 if not big else 4):
        rnd.shuffle(lat)
        session(lat)
    # one octant in order of the radius, and backwards
    octant = sorted([p for p in lat if 0 <= p[0] <= p[1]], key=lambda p: p[0] ** 2 + p[1] ** 2)
    session(octant), session(octant[::-1])
    # other denominators, near the origin, and far away
    pts = []
    for d in (1, 2, 3, 5, 6, 7, 8, 10, 12, 16, 25, 32, 64, 100):
        for _ in range(60 * scale):
            m = min(5 * d, 180)
            pts.append((rnd.randint(-m, m), rnd.randint(-m, m), d))
        pts += [(0, 0, d), (1, 0, d), (0, 1, d), (-1, 0, d), (0, -1, d), (1, 1, d), (-1, 1, d), (d, 0, d), (0, -d, d)]
    for _ in range(60 * scale):
        d = rnd.choice([1, 2, 4])
        pts.append((rnd.randint(-32 * d, 32 * d), rnd.randint(-32 * d, 32 * d), d))
    session(pts, 150)
    return out
