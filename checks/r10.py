"""R10: solid tides: deformation coefficients of every perturber and the acceleration they cause."""
from fractions import Fraction as Q
from math import factorial
from spec import *
from r05 import v3, nrm
from r09 import legendre, potential

TECHNIQUE = "value graphs of the tidal acceleration and its partials with symbolic perturbers and position (loops unrolled), compared with the symbolic derivative of the tidal potential (IERS deformation coefficients)"
RULE_TEXT = ["dC_nm + i dS_nm = k_n/(2n+1) sum_j GM_j/GM (R/r_j)^(n+1) Pbar_nm(sin lat_j) e^(i m lon_j), degree 3 only where asked", "acceleration and partials are the first and second derivatives of the potential of those coefficients, rotated to the integration frame",
             "any missing datum is an error"]


def deltas(perts, me, alm, epoch, mu, R):
    C = {}
    goods, cosl = [], []
    for fr, deg3 in perts:
        t = app("Almanac::transform", alm, fr, me["frame"], epoch, TT.NONE)
        mj = app("Frame::mu_km3_s2", fr)
        goods += [t, mj]
        r = v3(t[("Ok", "0")]["radius_km"])
        d = nrm(r)
        s, tt, u = [x / d for x in r]
        cosl.append(sqrt(1 - u * u))
        for n in (2, 3) if deg3 else (2,):
            k = me["k2"] if n == 2 else me["k3"]
            com = k / (2 * n + 1) * mj[("Ok", "0")] / mu
            for _ in range(n + 1):
                com = com * R / d
            for m in range(n + 1):
                c = legendre(n)
                for _ in range(m):
                    c = [i * c[i] for i in range(1, len(c))]
                A = num(0)
                for q in reversed(c):
                    A = A * u + num(q)
                re, im = num(1), num(0)
                for _ in range(m):
                    re, im = s * re - tt * im, s * im + tt * re
                nn = sqrt(num(Q((1 if m == 0 else 2) * (2 * n + 1) * factorial(n - m), factorial(n + m))))
                o = C.get((n, m), (num(0), num(0)))
                C[(n, m)] = (o[0] + com * nn * A * re, o[1] + com * nn * A * im)
    return C, goods, cosl


def off_pole(cosl):
    """Slice: no perturber exactly over a pole."""
    def f(a):
        if a.op == "pos":
            for c in cosl:
                if same_real(a.args[0], c - num(1e-12)):
                    return True
                if same_real(a.args[0], num(1e-12) - c):
                    return False
        return None
    return f


def setup(ck, flags):
    osc, alm = S("osc"), S("almanac")
    perts = [rec(S("p%d" % i), compute_degree_3=TRUE if d else FALSE) for i, d in enumerate(flags)]
    me = rec(S("self"), perturbers=arr(*perts))
    mu, R = app("Frame::mu_km3_s2", me["frame"]), app("Frame::mean_equatorial_radius_km", me["frame"])
    t = app("Almanac::transform_to", alm, osc, me["frame"], TT.NONE)
    rot = app("Almanac::rotate", alm, me["frame"], osc["frame"], osc["epoch"])
    C, goods, cosl = deltas([(S("p%d" % i)["frame"], d) for i, d in enumerate(flags)], me, alm, osc["epoch"], mu[("Ok", "0")], R[("Ok", "0")])
    z = (num(0), num(0))
    r = v3(t[("Ok", "0")]["radius_km"])
    U = potential(r, mu[("Ok", "0")], R[("Ok", "0")], 3, 3, lambda n, m: C.get((n, m), z))
    good = band(*[is_variant(x, TT.RES, "Ok") for x in goods + [mu, R, t, rot]])
    return me, r, U, rot[("Ok", "0")]["rot_mat"], good, chain(default_assume, off_pole(cosl))


def eom(ck):
    b = ck.fn("eom", "SolidTides")
    for flags in ((False,), (True,), (True, False), (True, True)):
        me, r, U, D, good, asm = setup(ck, flags)
        e = ck.ev(b, [("self", me), "osc", "almanac"])
        a = [diff(U, x) for x in r]
        out = field(e.ret, "0", "Ok")
        for i in range(3):
            ck.match("tides", "degree-3 flags %s, component %d" % (list(flags), i), b, ment(out, i, 0), D[(i, 0)] * a[0] + D[(i, 1)] * a[1] + D[(i, 2)] * a[2], asm)
        ck.match("tides-errors", str(list(flags)), b, is_variant(e.ret, TT.RES, "Ok"), good, None)


def gradient(ck):
    b = ck.fn("gradient", "SolidTides")
    for flags in ((False,), (True,), (True, False)):
        me, r, U, D, good, asm = setup(ck, flags)
        g = ck.ev(b, [("self", me), "osc", "almanac"])
        a = [diff(U, x) for x in r]
        H = [[diff(p, x) for x in r] for p in a]
        out = field(g.ret, "0", "Ok")
        for i in range(3):
            ck.match("tides-value", "degree-3 flags %s, component %d" % (list(flags), i), b, ment(field(out, "0"), i, 0), D[(i, 0)] * a[0] + D[(i, 1)] * a[1] + D[(i, 2)] * a[2], asm)
            for j in range(3):
                w = num(0)
                for k in range(3):
                    for l in range(3):
                        w = w + D[(i, k)] * H[k][l] * D[(j, l)]
                ck.match("tides-partial", "degree-3 flags %s, [%d][%d]" % (list(flags), i, j), b, ment(field(out, "1"), i, j), w, asm)
        ck.match("tides-errors", "gradient %s" % list(flags), b, is_variant(g.ret, TT.RES, "Ok"), good, None)


RULES = [("eom", eom), ("gradient", gradient)]
