"""Runs of the differential evolution optimiser (C19 - C22)."""
from itertools import product

NUM = lambda n, d=1: {"k": "num", "v": [n, d]}
SP = lambda k: {"k": k}
SESSION = {"op": "session", "impl": "de"}


def bounds(rnd, n):
    """Disjoint ranges, so that mixed up coordinates are out of bounds."""
    out, lo = [], rnd.randint(-900, 100)
    for _ in range(n):
        w = rnd.choice([1, 2, 7, 50])
        out.append([NUM(lo), NUM(lo + w)])
        lo += w + rnd.randint(1, 20)
    rnd.shuffle(out)
    return out


WEIGHTS = [NUM(0), NUM(2), NUM(1), NUM(1, 2), NUM(4, 5), NUM(3, 2), NUM(1, 3), NUM(199, 100), NUM(1, 100)]
CROSS = [NUM(0), NUM(1), NUM(1, 2), NUM(9, 10), NUM(1, 10), NUM(1, 3), NUM(99, 100)]
CROSSX = CROSS + [NUM(8388607, 8388608), NUM(1, 8388608), SP("tiny"), SP("-zero")]
FITS = ["rank", "newest", "oldest", "const", "random", "coarse", "first", "-last"]


def wide(rnd, n):
    """Bounds for many coordinates (each fits into an i8 as well as an i64)."""
    out = [[NUM(2 * i - n), NUM(2 * i - n + 1)] for i in range(n)]
    rnd.shuffle(out)
    return out


def one(rnd, impl="w", n=None, np=None, cr=None, fw=None, iters=None, fit=None, script=None, rng=None, seed=None, bnd=None, **kw):
    n = n or rnd.choice([1, 2, 2, 3, 3, 4, 5])
    np = np if np is not None else rnd.choice([4, 4, 5, 5, 6, 7, 8])
    iters = iters if iters is not None else rnd.choice([np, 2 * np, 3 * np + 1, rnd.randint(np, 5 * np)])
    e = {"op": "run", "impl": impl, "n": n, "np": np, "cr": cr or rnd.choice(CROSSX), "fw": fw or rnd.choice(WEIGHTS),
         "iters": iters, "bounds": bnd or bounds(rnd, n), "fit": fit or rnd.choice(FITS),
         "rng": rng or rnd.choice(["mix", "mix", "std", "spiky"]), "seed": seed if seed is not None else rnd.randrange(1 << 30)}
    if script or e["fit"] == "rank":
        e["script"] = script or [rnd.randint(0, 20) for _ in range(60)]
    e.update(kw)
    return e


def pack(evs, n=8):
    return [[dict(SESSION)] + evs[i:i + n] for i in range(0, len(evs), n)]


def histories(run, big):
    """Every better/equal/worse pattern of the model's first trials."""
    hs = set()
    for it in ((2, 3) if not big else (2, 3, 4)):
        for e in run.model("DiffEvoMC", emit=True, consts={"Iters": str(it), "Emit": "TRUE", "Q": "2"}, heap="4g"):
            hs.add(tuple(e["hist"]))
    return sorted(hs)


def models(run, big):
    run.model("DiffEvoMC", consts={"Iters": "4" if big else "3"}, heap="6g")
    run.model("DiffEvoMC", consts={"N": "2", "Q": "2", "Ranks": "2" if not big else "3", "Iters": "2", "CrD": "1", "CrN": "0"}, heap="6g")
    run.model("DiffEvoMC", consts={"N": "2", "Q": "2", "Ranks": "2" if not big else "3", "Iters": "2", "CrD": "1", "CrN": "1"}, heap="6g")
    run.model("DiffEvoMC", consts={"Np": "5", "Q": "2", "Ranks": "2", "FwN": "2", "Iters": "4" if big else "3"}, heap="6g")


def c19(rnd, run, scale):
    big = scale > 1
    run.model("DiffEvoMC", consts={"N": "2", "Q": "2", "Ranks": "2", "Iters": "2"}, heap="4g")
    ev = []
    for h in histories(run, False):
        ev.append(one(rnd, fit="rel", script=list(h) * 4, np=rnd.choice([4, 5, 6])))
    for np in (4, 5, 6, 7, 9, 12):
        for cr in CROSSX:
            for _ in range(1 if np > 7 else 2 * (scale if np < 7 else 1)):
                ev.append(one(rnd, np=np, cr=cr, iters=3 * np if np < 9 else np + 2))
    for fw in WEIGHTS:
        for cr in (NUM(0), NUM(1), NUM(1, 2)):
            ev.append(one(rnd, fw=fw, cr=cr, np=5, iters=20, fit=rnd.choice(["newest", "oldest", "random"])))
    for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10):
        for cr in (NUM(0), NUM(1), NUM(1, 2), NUM(9, 10)):
            for rng in ("mix", "spiky"):
                ev.append(one(rnd, n=n, cr=cr, rng=rng, np=rnd.choice([4, 5, 6]), iters=25))
    # fewer trials than members: some members are donors before their turn
    for _ in range(20 * scale):
        np = rnd.choice([4, 5, 6, 8])
        ev.append(one(rnd, np=np, iters=rnd.randint(0, np - 1), fw=rnd.choice(WEIGHTS[1:])))
    for _ in range(15 * scale):
        ev.append(one(rnd, fit="answers", script=[rnd.randint(0, 1) for _ in range(37)]))
    for _ in range(2 * scale):     # long runs
        ev.append(one(rnd, np=rnd.choice([4, 5]), iters=220, fit=rnd.choice(["newest", "random", "oldest"])))
    # large populations, many coordinates, long runs
    for np in (15, 16, 17, 20, 31, 33, 64, 65, 128, 130, 257, 300):
        for cr in rnd.sample(CROSSX, 2 if np > 100 else 4):
            ev.append(one(rnd, np=np, cr=cr, iters=np + 30 if np < 256 else 100, n=rnd.choice([1, 2, 3, 12]), fit=rnd.choice(["newest", "random", "coarse"])))
    for n in (12, 16, 17, 32, 33, 64, 65, 100):
        for cr in CROSS:
            ev.append(one(rnd, n=n, np=rnd.choice([4, 6, 9]), cr=cr, iters=30, bnd=wide(rnd, n)))
    for np in (4, 7, 11, 19):
        for fit in ("newest", "random", "rel"):
            ev.append(one(rnd, np=np, n=rnd.choice([1, 2, 4]), iters=1500, fit=fit, script=[rnd.choice([-1, -1, 0, 1]) for _ in range(97)]))
    # very long runs, with few and with many replacements
    for np, it, fit in ((4, 9000, "rel"), (5, 9000, "oldest"), (6, 12000, "random")) + (((4, 66000, "oldest"), (5, 33000, "newest")) if big else ()):
        ev.append(one(rnd, np=np, n=rnd.choice([1, 2]), iters=it, fit=fit, fw=rnd.choice([NUM(1, 2), NUM(4, 5), NUM(3, 2)]), cr=rnd.choice([NUM(1), NUM(1, 2)]),
                      script=[rnd.choice([-1, 1, 1, 1]) for _ in range(97)]))
    for np, it in ((513, 30), (700, 12), (1025, 6)):
        ev.append(one(rnd, np=np, n=2, iters=it, fit=rnd.choice(["newest", "coarse"]), cr=rnd.choice(CROSS), fw=rnd.choice(WEIGHTS[1:])))
    for e in ev:
        e["hints"] = 1
    return pack(ev, 6)


def c20(rnd, run, scale):
    big = scale > 1
    models(run, big)
    ev = []
    for h in histories(run, big):
        for np in (4, 5) if not big else (4, 5, 6, 7):
            ev.append(one(rnd, fit="rel", script=list(h), np=np, iters=len(h) if rnd.random() < .3 else rnd.randint(len(h), 9),
                          fw=rnd.choice(WEIGHTS[1:])))
    # the best member at every place of the knockout, for every population size
    for np in list(range(4, 26 if not big else 70)) + [31, 32, 33, 63, 64, 65, 100, 101]:
        places = range(np) if np < 26 else rnd.sample(range(np), 6)
        for k in places:
            if not big and np > 13 and rnd.random() < .5:
                continue
            sc = [rnd.randint(1, 5) for _ in range(np)]
            sc[k] = 0
            if np % 3 == 0 and rnd.random() < .5:
                # with turns: members are first seen in the order of their turns,
                # each right after its trial point
                it = np
                sc = [x for y in sc for x in (9, y)]
                ev.append(one(rnd, np=np, iters=it, n=1, fit="rank", script=sc, impl=rnd.choice(["w", "f64"])))
            else:
                ev.append(one(rnd, np=np, iters=0, n=rnd.choice([1, 2]), fit="rank", script=sc, impl=rnd.choice(["w", "f32", "f64"])))
    # populations beyond a byte
    for np in (127, 128, 129, 255, 256, 257, 300, 513, 1023, 1024, 1025) + ((700, 2047, 2049) if big else ()):
        for k in [0, 1, np - 2, np - 1, rnd.randrange(np), min(np - 1, 256), np // 2] if np < 600 else [0, np - 1, rnd.randrange(np), np // 2]:
            sc = [rnd.randint(1, 5) for _ in range(np)]
            sc[k] = 0
            ev.append(one(rnd, np=np, iters=0, n=1, fit="rank", script=sc, impl=rnd.choice(["w", "f64"])))
        for fit in ("newest", "random", "rel", "oldest") if np < 600 else ("random",):
            ev.append(one(rnd, np=np, iters=rnd.choice([np - 1, np, np + 40, 2 * np + 1]), n=2, fit=fit, script=[rnd.choice([-1, 0, 1]) for _ in range(97)]))
    # long runs
    for np in (4, 9, 30):
        for fit in ("newest", "random", "rel", "oldest"):
            ev.append(one(rnd, np=np, n=1, iters=2000 * scale, impl=rnd.choice(["w", "f64"]), fit=fit, script=[rnd.choice([-1, 0, 1, 1, 1]) for _ in range(97)]))
    # the best point at every step of the run
    for np in (4, 5, 7, 8):
        for it in range(np, 3 * np):
            ev.append(one(rnd, np=np, iters=it, fit="newest"))
            ev.append(one(rnd, np=np, iters=it, fit="oldest"))
            ev.append(one(rnd, np=np, iters=it, fit="rank", script=[rnd.randint(2, 9) for _ in range(rnd.randint(1, it + np))] + [0] + [rnd.randint(1, 9) for _ in range(200)]))
            ev.append(one(rnd, np=np, iters=it, fit="rel", script=[rnd.choice([-1, -1, 0, 0, 1, 1, -5, 7]) for _ in range(97)]))
    for _ in range(60 * scale):
        ev.append(one(rnd, fit=rnd.choice(["coarse", "random", "const", "rel"]), script=[rnd.choice([-1, 0, 0, 1]) for _ in range(97)],
                      np=rnd.choice([4, 5, 6, 9, 16, 21]), iters=rnd.randint(0, 60)))
        ev.append(one(rnd, fit="answers", script=[rnd.randint(0, 1) for _ in range(37)], np=rnd.choice([4, 5, 9]), iters=rnd.randint(0, 40)))
        ev.append(one(rnd, impl=rnd.choice(["f32", "f64"]), fit=rnd.choice(["sphere", "first", "-last"]), np=rnd.choice([4, 7, 10, 20]),
                      iters=rnd.randint(40, 120), bnd=None))
    return pack(ev)


def c21(rnd, run, scale):
    ev = []
    run.model("DiffEvoMC", heap="4g")
    fl = lambda m, e: {"k": "exp", "m": m, "e": e}
    # bounds, budget
    for np in list(range(4, 12)) + [20, 33]:
        for it in (0, 1, np - 1, np, np + 1, 3 * np):
            for impl in ("w", "f32", "f64"):
                ev.append(one(rnd, impl=impl, np=np, iters=it, n=rnd.choice([1, 2, 3, 5]), fw=rnd.choice(WEIGHTS[1:])))
    exotic = [("f64", fl(1, 300), fl(2, 300)), ("f64", fl(-1, -300), fl(1, -300)), ("f32", fl(1, 30), fl(3, 30)), ("f64", NUM(0), SP("tiny")),
              ("f32", NUM(1), NUM(8388609, 8388608)), ("f32", SP("-tiny"), SP("tiny")), ("f64", fl(-3, 250), NUM(0)), ("f32", NUM(-1), NUM(0)),
              ("f64", NUM(-1), NUM(1)), ("f32", NUM(5), NUM(500000)), ("f64", NUM(1, 3), NUM(1, 2)), ("f32", NUM(-1, 3), NUM(-1, 4))]
    for impl, lo, hi in exotic:
        for np in (4, 5, 9, 30):
            for rng in ("mix", "spiky"):
                ev.append(one(rnd, impl=impl, n=2, np=np, bnd=[[lo, hi], [NUM(7), NUM(8)]], iters=rnd.choice([0, np, 2 * np]), rng=rng))
                ev.append(one(rnd, impl=impl, n=3, np=np, bnd=[[NUM(-1), NUM(0)], [NUM(100), NUM(101)], [lo, hi]], iters=rnd.choice([0, np, 2 * np]), rng=rng))
    # the limits of the parameters
    cok = [NUM(0), NUM(1), SP("-zero"), SP("tiny"), NUM(1, 2), NUM(16777215, 16777216)]
    cbad = [SP("nan"), SP("inf"), SP("-inf"), SP("-tiny"), NUM(8388609, 8388608), NUM(-1, 8388608), NUM(2), NUM(-1), NUM(-1, 2), NUM(3, 2), NUM(90), NUM(100)]
    wok = {"w": [NUM(0), NUM(2), NUM(1), NUM(536870911, 268435456)], "f32": [NUM(0), SP("-zero"), NUM(2), SP("tiny"), NUM(16777215, 8388608), NUM(1)]}
    wok["f64"] = wok["f32"] + [NUM(1073741823, 536870912)]
    wbad = {"w": [NUM(-1), NUM(3), NUM(-1, 10000), NUM(20001, 10000), SP("nan"), SP("inf"), SP("-inf"), NUM(536870913, 268435456)]}
    wbad["f32"] = [SP("nan"), SP("inf"), SP("-inf"), SP("-tiny"), NUM(4194305, 2097152), NUM(-1), NUM(3), NUM(-1, 8388608), NUM(5, 2)]
    wbad["f64"] = wbad["f32"] + [NUM(1073741825, 536870912)]
    for impl in ("w", "f32", "f64"):
        for c in cok:
            for w in wok[impl]:
                ev.append(one(rnd, impl=impl, cr=c, fw=w, np=rnd.choice([4, 5, 6]), iters=rnd.choice([0, 6, 13])))
        for c in cbad:
            for w in (NUM(1), NUM(0), NUM(2)):
                ev.append(one(rnd, impl=impl, cr=c, fw=w, np=rnd.choice([4, 9]), iters=rnd.choice([0, 3, 9])))
        for w in wbad[impl]:
            for c in (NUM(1, 2), NUM(0), NUM(1)):
                ev.append(one(rnd, impl=impl, cr=c, fw=w, np=rnd.choice([4, 9]), iters=rnd.choice([0, 3, 9])))
        for np in (0, 1, 2, 3):
            for it in (0, 1, 5):
                ev.append(one(rnd, impl=impl, cr=NUM(1, 2), fw=NUM(1), np=np, iters=it))
            ev.append(one(rnd, impl=impl, cr=NUM(1), fw=NUM(0), np=np, iters=1))
        ev.append(one(rnd, impl=impl, cr=NUM(3, 2), fw=NUM(3), np=3, iters=4))
    for np in (127, 128, 255, 256, 257, 400, 513, 601, 1025) + ((2049,) if scale > 1 else ()):
        for impl in ("w", "f32", "f64"):
            ev.append(one(rnd, impl=impl, np=np, iters=rnd.choice([0, np // 2, np + 30]), n=rnd.choice([2, 3]), fw=rnd.choice(WEIGHTS[1:])))
    for n in (6, 7, 9, 10, 12, 16, 17, 32, 33, 64, 65, 100):
        for impl in ("w", "f32", "f64"):
            for cr in (NUM(0), NUM(1), NUM(1, 2)):
                ev.append(one(rnd, impl=impl, n=n, np=5, cr=cr, iters=20, bnd=wide(rnd, n)))
    for it in (255, 256, 257, 1000, 4000):
        ev.append(one(rnd, impl="f64", n=1, np=rnd.choice([4, 5, 7]), iters=it, fit=rnd.choice(["random", "coarse"])))
    # F = 0: the points stay few, however long the run
    for it in (32767, 32769, 65535, 65536, 65537, 70000):
        ev.append(one(rnd, impl=rnd.choice(["w", "f64"]), n=1, np=rnd.choice([4, 5, 7]), iters=it, fw=NUM(0), fit=rnd.choice(["random", "coarse"])))
    for _ in range(20 * scale):
        ev.append(one(rnd, impl=rnd.choice(["w", "f32", "f64"]), np=rnd.choice([4, 5, 6, 7, 50, 128]), iters=rnd.randint(0, 300)))
        ev.append(one(rnd, fit="answers", script=[rnd.randint(0, 1) for _ in range(37)], np=rnd.choice([4, 5, 9]), iters=rnd.randint(0, 40)))
    return pack(ev, 10)


def long_enough(np, n, cr, level):
    """Iterations after which a fair run has missed one of the cases the
    specification counts at this level with probability below 1e-11."""
    from math import log, ceil

    def need(cells, p, turns):     # each case has probability p per trial of its kind
        return 1 if p >= 1 else turns * ceil(log(2e11 * cells) / -log(1 - p))
    pairs = (np - 1) * (np - 2)
    it = [need(3 * np * (np - 1), 1 / (np - 1), np), need(3 * np * (np - 1), 1 / (np * (np - 1)), 1)]
    if level >= 2:
        it.append(need(3 * np * pairs, 1 / pairs, np))
    if cr == NUM(0):
        sets, p = n, 1 / n
    elif cr == NUM(1):
        sets, p = 1, 1
    else:
        # the rarest set: one forced coordinate, all others the less likely way
        c = cr["v"][0] / cr["v"][1]
        sets, p = 2 ** n - 1, 1 / n * min(c, 1 - c) ** (n - 1)
    it.append(need(np * sets, p, np))
    if level >= 3:
        it.append(need(np * pairs * (np - 3), 1 / (pairs * (np - 3)), np))
        it.append(need(np * sets * 3 * (np - 1), p / (np - 1), np))
    return max(max(it), 1200)


def c22(rnd, run, scale):
    ev = []
    out = []
    # the same run again, with others in between
    for _ in range(30 * scale):
        a = one(rnd, impl=rnd.choice(["w", "f32", "f64"]), iters=rnd.randint(0, 40), np=rnd.choice([4, 5, 8, 13]))
        b = one(rnd, impl=rnd.choice(["w", "f32", "f64"]), iters=rnd.randint(0, 40))
        out.append([dict(SESSION), a, b, a, dict(b), a])
    # long runs
    runs = [(4, 1, NUM(1, 2), 3), (4, 3, NUM(0), 3), (5, 3, NUM(1, 2), 3), (5, 2, NUM(1, 2), 3), (4, 3, NUM(3, 10), 3), (5, 2, NUM(7, 10), 3),
            (4, 4, NUM(0), 3), (5, 2, NUM(1), 3), (6, 3, NUM(1, 2), 3), (5, 5, NUM(0), 3), (4, 4, NUM(1, 2), 3), (6, 1, NUM(0), 3), (6, 2, NUM(2, 5), 3),
            (7, 3, NUM(0), 2), (7, 2, NUM(1, 2), 2), (8, 2, NUM(1, 2), 2), (8, 3, NUM(0), 2), (9, 1, NUM(1, 2), 2), (5, 12, NUM(0), 2), (4, 17, NUM(0), 2),
            (4, 6, NUM(0), 2), (4, 7, NUM(0), 2), (4, 10, NUM(0), 2), (4, 16, NUM(0), 2), (4, 32, NUM(0), 2), (4, 6, NUM(1, 2), 1), (10, 4, NUM(0), 1), (11, 4, NUM(2, 5), 1), (12, 8, NUM(0), 1), (13, 3, NUM(1), 1), (14, 5, NUM(0), 1), (16, 2, NUM(9, 10), 1),
            (17, 3, NUM(1, 2), 1), (20, 3, NUM(0), 1), (25, 2, NUM(1, 2), 1)]
    if scale > 1:
        runs += [(7, 2, NUM(1, 2), 3), (7, 3, NUM(0), 3), (8, 1, NUM(1, 2), 3), (10, 3, NUM(0), 2), (11, 2, NUM(1, 2), 2), (12, 3, NUM(1), 2), (33, 2, NUM(1, 2), 1),
                 (24, 8, NUM(0), 1), (32, 1, NUM(1), 1), (20, 5, NUM(1, 2), 1), (5, 33, NUM(0), 2), (4, 64, NUM(0), 2), (4, 65, NUM(0), 2), (4, 7, NUM(1, 2), 1), (4, 8, NUM(1, 2), 1), (4, 100, NUM(0), 1), (40, 2, NUM(0), 1)]
    for np, n, cr, level in runs:
        # no replacements, and a weight that is not 1: the donors of a trial
        # point can then be told from the point
        for _ in range(2 if np < 6 and n < 5 else 1):
            ev.append(one(rnd, np=np, n=n, cr=cr, fit="const", hints=1, iters=long_enough(np, n, cr, level), bnd=wide(rnd, n) if n > 5 else None,
                          fw=rnd.choice([NUM(2), NUM(1, 2), NUM(4, 5), NUM(3, 2), NUM(7, 10)]), rng=rnd.choice(["mix", "std"]), long=level))
    # probabilities next to 0 and 1: only the rate is judged
    for n, cr in [(17, NUM(1, 1000)), (17, NUM(999, 1000)), (12, NUM(1, 200)), (16, NUM(99, 100))] + [(33, NUM(1, 2000)), (33, NUM(1999, 2000)), (64, NUM(1, 100))] * (scale > 1):
        ev.append(one(rnd, np=4, n=n, cr=cr, fit="const", hints=1, iters=4000 if n < 64 else 1000, bnd=wide(rnd, n), fw=rnd.choice([NUM(2), NUM(1, 2), NUM(4, 5)]), rng=rnd.choice(["mix", "std"]), long=0))
    # large initial populations
    for impl in ("f32", "f64", "w"):
        for n in (1, 2, 3, 5) if scale == 1 else (1, 2, 3, 4, 5, 8):
            for rng in ("mix", "std"):
                ev.append(one(rnd, impl=impl, n=n, np=rnd.choice([600, 601, 800]), iters=0, fit="const", cr=NUM(1, 2), fw=NUM(1), rng=rng, spread=1))
    return out + pack(ev, 1)
