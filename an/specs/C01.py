"""C01: blade product signs."""
from .common import *

EXPLAIN = ("value-flow summaries of blade_wedge_product_sign, blade_geo_product_sign, ac_product_sign and "
           "ac_negated_product_sign (their precomputed tables folded from the source constants) are compared with "
           "the closed form 'number of index pairs i in a, j in b with i < j' for every table dimension and for "
           "dimensions 7..63")
RULE = ("sign == Null iff the blades share a (null) generator; otherwise Minus iff the transposition count, plus the "
        "number of shared -1 generators for the geometric sign, is odd")
FLOOR = 4


def run(cx):
    contract_ac_sign(cx)
    for name in ("blade_wedge_product_sign", "blade_geo_product_sign"):
        with cx.clause(name):
            s = cx.sess()
            t = s.method(name, AL, "algebra::ClAlgebra")
            a, b = VAR("x", s.alg["dim"]), VAR("y", s.alg["dim"])
            r = s.call(t, [a, b])
            if "wedge" in name:
                null, par = wedge_null(a, b), odd(acs(a, b))
            else:
                null, par = geo_null(a, b, s.alg), geo_par(a, b, s.alg)
            want = s.sign(null, par)
            cx.equal("%s(x, y)" % name, r.d, want, [a, b], models=dim_models(cx), where=where(t),
                     cap=4096 if cx.tier == "quick" else 60000, budget=10 ** 9)
            cx.no_panics(s, models=[m for m in dim_models(cx) if m["dim"] <= 5])
