"""What is assumed about libm functions on symbolic arguments (exact-FP mode).

Each axiom is a consequence of the C standard / glibc's documented behaviour.
The result is otherwise arbitrary."""
import z3
from fl import F32, F64, sort_of


def fp_axioms(name, w, args, res, prev):
    so = sort_of(w)
    r = res.to_fp()
    one = z3.FPVal(1.0, so)
    zero = z3.FPVal(0.0, so)
    out = []
    if name == "pow":
        x, y = args[0].to_fp(), args[1].to_fp()
        yfin = z3.And(z3.fpGT(y, zero), z3.Not(z3.fpIsInf(y)))
        # base in [0,1], exponent > 0: result in [0,1]; endpoints exact
        unit = z3.And(z3.fpGEQ(x, zero), z3.fpLEQ(x, one), yfin)
        out.append(z3.Implies(unit, z3.And(z3.fpGEQ(r, zero), z3.fpLEQ(r, one))))
        out.append(z3.Implies(z3.And(z3.fpEQ(x, one)), z3.fpEQ(r, one)))
        out.append(z3.Implies(z3.And(z3.fpEQ(x, zero), yfin), z3.fpEQ(r, zero)))
        # base > 1 finite, exponent in (0, 1]: 1 <= r <= base
        out.append(z3.Implies(z3.And(z3.fpGEQ(x, one), z3.Not(z3.fpIsInf(x)), yfin, z3.fpLEQ(y, one)),
                              z3.And(z3.fpGEQ(r, one), z3.fpLEQ(r, x))))
        # a nonnegative non-NaN base with finite positive exponent never yields NaN
        out.append(z3.Implies(z3.And(z3.fpGEQ(x, zero), yfin), z3.And(z3.Not(z3.fpIsNaN(r)), z3.fpGEQ(r, zero))))
    elif name in ("sin", "cos", "tanh"):
        x = args[0].to_fp()
        fin = z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x)))
        out.append(z3.Implies(fin, z3.And(z3.fpGEQ(r, z3.FPVal(-1.0, so)), z3.fpLEQ(r, one))))
    elif name == "exp":
        x = args[0].to_fp()
        out.append(z3.Implies(z3.Not(z3.fpIsNaN(x)), z3.And(z3.Not(z3.fpIsNaN(r)), z3.fpGEQ(r, zero))))
        out.append(z3.Implies(z3.fpLEQ(x, zero), z3.fpLEQ(r, one)))
        out.append(z3.Implies(z3.fpEQ(x, zero), z3.fpEQ(r, one)))
    elif name == "atan2":
        x, y = args[0].to_fp(), args[1].to_fp()
        ok = z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y)))
        pi = z3.FPVal(3.1415927410125732, so)
        out.append(z3.Implies(ok, z3.And(z3.fpGEQ(r, z3.fpNeg(pi)), z3.fpLEQ(r, pi))))
    elif name == "fmod":
        x, y = args[0].to_fp(), args[1].to_fp()
        ok = z3.And(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsInf(x)), z3.Not(z3.fpIsNaN(y)), z3.Not(z3.fpIsZero(y)))
        out.append(z3.Implies(ok, z3.And(z3.Not(z3.fpIsNaN(r)), z3.fpLT(z3.fpAbs(r), z3.fpAbs(y)))))
        out.append(z3.Implies(z3.And(ok, z3.fpLT(z3.fpAbs(x), z3.fpAbs(y))), z3.fpEQ(r, x)))
        out.append(z3.Implies(z3.And(ok, z3.fpGEQ(x, zero)), z3.fpGEQ(r, zero)))
        out.append(z3.Implies(z3.And(ok, z3.fpLEQ(x, zero)), z3.fpLEQ(r, zero)))
    elif name in ("log", "log2", "log10"):
        x = args[0].to_fp()
        out.append(z3.Implies(z3.fpGT(x, zero), z3.Not(z3.fpIsNaN(r))))
    return out
