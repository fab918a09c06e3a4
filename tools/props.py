"""Which specification, model and programs decide which property."""
import json, os, tempfile
import vlib
import gen_poly
import gen_cplx
import gen_elem
import gen_static
import gen_dense
import gen_tower
import gen_de
import gen_ackley
import gen_scal
import gen_store

ASSUME = ["sampled programs and the library run in the dev and release profiles of this toolchain",
          "the harness's own scalar rings, its JSON code and TLC are correct"]


def ring(suite, bin_, module, gen):
    def f(run, rnd, scale):
        vlib.build([bin_])
        run.conform(suite, bin_, module, gen(rnd, run, scale))
    return f


def static(gen, gendims):
    def f(run, rnd, scale):
        vlib.build(["smat", "smatdim"])
        run.conform("static", "smat", "StaticTrace", gen(rnd, run, scale))
        run.conform("static-dims", "smatdim", "StaticTrace", gendims(rnd, run, scale))
    return f


def de(pid):
    gen = getattr(gen_de, pid.lower())

    def f(run, rnd, scale):
        vlib.build(["de"])
        run.conform("de", "de", "DiffEvoTrace", gen(rnd, run, scale), env={"ASPECT": pid}, cfg="DiffEvoTrace", timeout=60,
                    cost=lambda s: sum(e.get("iters", 0) + e.get("np", 0) for e in s))
    return f


CHECKS = {
    "C01": ring("poly", "poly", "PolyTrace", gen_poly.c01),
    "C02": ring("poly", "poly", "PolyTrace", gen_poly.c02),
    "C03": ring("poly", "poly", "PolyTrace", gen_poly.c03),
    "C04": ring("cplx", "cplx", "CplxTrace", gen_cplx.c04),
    "C05": ring("cplx", "cplx", "CplxTrace", gen_cplx.c05),
    "C06": ring("cplx", "cplx", "CplxTrace", gen_cplx.c06),
    "C07": ring("cplx", "cplx", "CplxTrace", gen_cplx.c07),
    "C08": ring("elem", "elem", "ElemTrace", gen_elem.c08),
    "C09": static(gen_static.c09, gen_static.c09dims),
    "C10": static(gen_static.c10, gen_static.c10dims),
    **{"C%d" % i: ring("dense", "dense", "DenseTrace", getattr(gen_dense, "c%d" % i)) for i in range(11, 18)},
    "C18": ring("tower", "tower", "TowerTrace", gen_tower.c18),
    **{"C%d" % i: de("C%d" % i) for i in range(19, 23)},
    "C23": ring("elem", "elem", "ElemTrace", gen_elem.c23),
    "C24": ring("ackley", "ackley", "AckleyTrace", gen_ackley.c24),
    "C25": ring("scal", "scal", "ScalTrace", gen_scal.c25),
    "C26": ring("store", "store", "StoreTrace", gen_store.c26),
}

TECH = {
    "C01": "polynomial variables over many rings (Poly.tla)",
    "C02": "polynomial evaluation over many rings (Poly.tla)",
    "C03": "polynomial equality and ring axioms (Poly.tla)",
    "C04": "complex variables over many rings (Cplx.tla)",
    "C05": "complex quotients over exact fields and floats (Cplx.tla)",
    "C06": "conjugate, norms, modulus and argument (Cplx.tla)",
    "C07": "principal square roots of exact squares and of every branch (Cplx.tla)",
    "C08": "complex elementary functions at points with exactly known values (Elem.tla)",
    "C09": "static matrix variables over many rings and shapes (Static.tla)",
    "C10": "static vector variables over many rings and lengths (Static.tla)",
    "C11": "matrix expression trees with evaluation semantics (Dense.tla)",
    "C12": "vector expression trees with evaluation semantics (Dense.tla)",
    "C13": "products of dynamic matrices (Dense.tla)",
    "C14": "inner products of dynamic vectors (Dense.tla)",
    "C15": "acceptance of operand shapes (Dense.tla)",
    "C16": "element storage under writes, in-place updates and reads (Dense.tla)",
    "C17": "the calls of user functions an evaluation makes (Dense.tla)",
    "C18": "towers of ring constructors behind the Ring interface (Tower.tla)",
    "C19": "differential evolution runs: trial points (DiffEvo.tla)",
    "C20": "differential evolution runs: selection and result (DiffEvo.tla)",
    "C21": "differential evolution runs: bounds, budget, parameters (DiffEvo.tla)",
    "C22": "differential evolution runs: reproducibility and coverage of draws (DiffEvo.tla)",
    "C23": "real elementary functions at points with exactly known values (Elem.tla)",
    "C24": "the Ackley function in fixed point arithmetic and its order structure on a lattice (Ackley.tla)",
    "C25": "byte-exact words, IEEE 754 values and user rings (Scal.tla)",
    "C26": "containers as values: equality, copies, writes to copies (Store.tla)",
}
NOTES = {
    "C07": "Floating point results are judged up to a relative rounding tolerance; exactly representable roots exactly.",
    "C08": "Judged at arguments whose values are rational or algebraic, up to a rounding tolerance.",
    "C23": "Judged at arguments whose values are rational or algebraic, up to a rounding tolerance.",
    "C22": "The coverage half is statistical: runs are so long that a fair implementation misses a case with probability below 1e-9.",
    "C24": "Judged within 120/16384 of the formula, and exactly by order on the quarter lattice.",
}
NA = {}


def replay(path):
    """Runs the recorded events again and lets TLC judge them again."""
    lines = open(path).read().split("\n")
    head = json.loads(lines[0])
    ev = [json.loads(x) for x in lines[1:] if x]
    run = vlib.Run("replay")
    vlib.build([head["bin"]])
    run.conform("replay", head["bin"], head["module"], [ev], env=head.get("env"), cfg=head.get("cfg", "Trace"))
    for p, e, want in run.violations:
        print("mismatch: %s\n  specification: %s" % (json.dumps(e), want))
    print("reproduced" if run.violations else "not reproduced")
    return 1 if run.violations else 0
