"""R09: the gravity field acceleration is the gradient of the spherical-harmonic potential."""
from math import factorial
from spec import *
from r05 import v3, nrm

TECHNIQUE = "value graphs of the coefficient set-up and of the recursion, with every loop unrolled for several degrees and orders and symbolic coefficients and position, compared with the symbolic derivative of the potential"
RULE_TEXT = ["acceleration = grad of mu/r sum (R/r)^n Pbar_nm (C_nm cos m.lon + S_nm sin m.lon) over 1..degree, 0..min(n, order), in the field frame, rotated to the integration frame",
             "partials = Hessian of that potential, rotated on both sides"]


def legendre(n):
    """Coefficients of P_n, lowest power first (fractions)."""
    from fractions import Fraction as Q
    p0, p1 = [Q(1)], [Q(0), Q(1)]
    if n == 0:
        return p0
    for k in range(1, n):
        nx = [Q(0)] * (k + 2)
        for i, c in enumerate(p1):
            nx[i + 1] += Q(2 * k + 1, k + 1) * c
        for i, c in enumerate(p0):
            nx[i] -= Q(k, k + 1) * c
        p0, p1 = p1, nx
    return p1


def potential(r, mu, R, N, M, cs):
    d = nrm(r)
    s, t, u = [x / d for x in r]
    U = num(0)
    for n in range(1, N + 1):
        for m in range(0, min(n, M) + 1):
            c = legendre(n)
            for _ in range(m):
                c = [k * c[k] for k in range(1, len(c))]
            A = num(0)
            for q in reversed(c):
                A = A * u + num(q)
            re, im = num(1), num(0)
            for _ in range(m):
                re, im = s * re - t * im, s * im + t * re
            from fractions import Fraction as Q
            nn = sqrt(num(Q((1 if m == 0 else 2) * (2 * n + 1) * factorial(n - m), factorial(n + m))))
            C, S_ = cs(n, m)
            q = R / d
            p = num(1)
            for _ in range(n):
                p = p * q
            U = U + mu / d * p * nn * A * (C * re + S_ * im)
    return U


def field_of(ck, N, M):
    stor = rec(S("stor"), degree=num(N), order=num(M))
    b = ck.fn("new", "GravityField")
    return ck.ev(b, [("stor", stor)]).ret


def model(ck, N, M):
    osc, alm, stor = S("osc"), S("almanac"), S("stor")
    me = field_of(ck, N, M)
    fr = stor["frame"]
    t = app("Almanac::transform_to", alm, osc, fr, TT.NONE)
    R, mu = app("Frame::mean_equatorial_radius_km", fr), app("Frame::mu_km3_s2", fr)
    rot = app("Almanac::rotate", alm, fr, osc["frame"], osc["epoch"])
    r = v3(t[("Ok", "0")]["radius_km"])
    U = potential(r, mu[("Ok", "0")], R[("Ok", "0")], N, M, lambda n, m: (ment(stor["c_nm"], n, m), ment(stor["s_nm"], n, m)))
    return osc, alm, me, r, U, rot[("Ok", "0")]["rot_mat"], band(*[is_variant(z, TT.RES, "Ok") for z in (t, R, mu, rot)])


def eom(ck):
    b = ck.fn("eom", "GravityField")
    for N, M in ((2, 0), (2, 2), (3, 1), (3, 3), (4, 4), (5, 2)):
        osc, alm, me, r, U, D, good = model(ck, N, M)
        e = ck.ev(b, [("self", me), "osc", "almanac"])
        a = [diff(U, x) for x in r]
        out = field(e.ret, "0", "Ok")
        for i in range(3):
            w = D[(i, 0)] * a[0] + D[(i, 1)] * a[1] + D[(i, 2)] * a[2]
            ck.match("field", "%dx%d, component %d" % (N, M, i), b, ment(out, i, 0), w)
        ck.match("field-errors", "%dx%d" % (N, M), b, is_variant(e.ret, TT.RES, "Ok"), good, None)


def gradient(ck):
    b = ck.fn("gradient", "GravityField")
    for N, M in ((2, 0), (2, 2), (3, 1), (3, 3)):
        osc, alm, me, r, U, D, good = model(ck, N, M)
        g = ck.ev(b, [("self", me), "osc", "almanac"])
        a = [diff(U, x) for x in r]
        H = [[diff(p, x) for x in r] for p in a]
        out = field(g.ret, "0", "Ok")
        for i in range(3):
            w = D[(i, 0)] * a[0] + D[(i, 1)] * a[1] + D[(i, 2)] * a[2]
            ck.match("field-value", "%dx%d, component %d" % (N, M, i), b, ment(field(out, "0"), i, 0), w)
            for j in range(3):
                w = num(0)
                for k in range(3):
                    for l in range(3):
                        w = w + D[(i, k)] * H[k][l] * D[(j, l)]
                ck.match("field-partial", "%dx%d, [%d][%d]" % (N, M, i, j), b, ment(field(out, "1"), i, j), w)
        ck.match("field-errors", "gradient %dx%d" % (N, M), b, is_variant(g.ret, TT.RES, "Ok"), good, None)


RULES = [("eom", eom), ("gradient", gradient)]
