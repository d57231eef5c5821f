"""R32: the numerical helpers of the library compute what their names say."""
from spec import *

TECHNIQUE = "gated value graph of every helper on symbolic scalars, vectors, matrices and polynomial coefficients, compared case by case with its definition"
RULE_TEXT = ["the angle wraps return the congruent angle of the advertised interval", "r1, r2, r3 are the passive rotations about x, y, z; rotv rotates by the right-hand rule", "the skew matrix, projections, unit vectors and spherical coordinates follow their definitions, inverses included",
             "normalisation maps the interval to [-1, 1] and denormalisation undoes it", "root-sum-squared errors are norms of differences", "polynomials evaluate to their value and derivative for every coefficient order"]
EPS = TT.num(2.220446049250313e-16)


def V(n, k=3):
    return mat(k, 1, [S(n + "xyzuvw"[i]) for i in range(k)])


def c_(v, i):
    return ment(v, i, 0)


def norm(v, k=3):
    return sqrt(sum_([c_(v, i) * c_(v, i) for i in range(k)]))


def sum_(l):
    r = l[0]
    for x in l[1:]:
        r = r + x
    return r


def dot3(a, b):
    return sum_([c_(a, i) * c_(b, i) for i in range(3)])


def vec(*xs):
    return mat(3, 1, list(xs))


def scl(k, v):
    return vec(*[k * c_(v, i) for i in range(3)])


def sub(a, b):
    return vec(*[c_(a, i) - c_(b, i) for i in range(3)])


def crs(a, b):
    return vec(*[c_(a, (i + 1) % 3) * c_(b, (i + 2) % 3) - c_(a, (i + 2) % 3) * c_(b, (i + 1) % 3) for i in range(3)])


def wraps(ck):
    a = S("a")
    b = ck.fn("between_0_360")
    r = ck.ev(b, ["a"])
    m = app("rem", a, num(360))
    e = app("rem_euclid", a, num(360))
    ck.match_any("wrap", "between_0_360", b, r.ret, [ite(lt(m, num(0)), m + num(360), m), e, ite(lt(a, num(0)), app("rem", m + num(360), num(360)), m), app("rem", m + num(360), num(360))])
    for fn, tag, names, h in [("between_pm_x", " %s" % k, ["a", ("x", k)], k) for k in (num(180), num(90), num(12), num(1) / num(2))] + [("between_pm_180", "", ["a"], num(180))]:
        b = ck.fn(fn)
        r = ck.ev(b, names)
        f = num(2) * h
        m = app("rem", a, f)
        e = app("rem_euclid", a, f)
        want = ite(gt(m, h), m - f, ite(lt(m, neg(h)), m + f, m))
        ck.match_any("wrap", fn + tag, b, r.ret, [want, ite(gt(e, h), e - f, e), ite(gt(m, h), ite(lt(m - f, neg(h)), m, m - f), ite(lt(m, neg(h)), m + f, m))])


def matrices(ck):
    v = V("v")
    b = ck.fn("tilde_matrix")
    r = ck.ev(b, [("v", v)])
    x, y, z = [c_(v, i) for i in range(3)]
    ck.match("definition", "tilde_matrix", b, r.ret, mat(3, 3, [num(0), neg(z), y, z, num(0), neg(x), neg(y), x, num(0)]))
    t = S("t")
    s, c, o, i = app("sin", t), app("cos", t), num(0), num(1)
    for fn, m in (("r1", [i, o, o, o, c, s, o, neg(s), c]), ("r2", [c, o, neg(s), o, i, o, s, o, c]), ("r3", [c, s, o, neg(s), c, o, o, o, i])):
        b = ck.fn(fn)
        r = ck.ev(b, ["t"])
        ck.match("rotation", fn, b, r.ret, mat(3, 3, m))
    b = ck.fn("rotv")
    a, k, th = V("a"), V("k"), S("th")
    r = ck.ev(b, [("v", a), ("axis", k), "th"])
    u = scl(num(1) / norm(k), k)
    s, c = app("sin", th), app("cos", th)
    w = crs(u, a)
    d = dot3(u, a)
    ck.match("rotation", "rotv", b, r.ret, vec(*[c * c_(a, j) + s * c_(w, j) + (num(1) - c) * d * c_(u, j) for j in range(3)]))
    m = mat(3, 3, [S("m%d%d" % (j, l)) for j in range(3) for l in range(3)])
    b = ck.fn("is_diagonal")
    r = ck.ev(b, [("m", m)])
    ck.match("definition", "is_diagonal", b, tobool(r.ret), band(*[bnot(gt(absv(ment(m, j, l)), EPS)) for j in range(3) for l in range(3) if j != l]))
    b = ck.fn("are_eigenvalues_stable")
    ev = mat(3, 1, [S("e%d" % j) for j in range(3)])
    r = ck.ev(b, [("ev", ev)])
    ck.match("definition", "are_eigenvalues_stable", b, tobool(r.ret), band(*[bnot(gt(S("e%d" % j)["re"], num(0))) for j in range(3)]))
    b = ck.fn("kronecker")
    r = ck.ev(b, ["a", "b"])
    ck.match("definition", "kronecker", b, r.ret, ite(gt(absv(S("a") - S("b")), EPS), num(0), num(1)))


def vectors(ck):
    a, w = V("a"), V("b")
    nn = dot3(w, w)
    b = ck.fn("projv")
    r = ck.ev(b, [("a", a), ("b", w)])
    big = assume_bool(lt(nn, EPS), False)
    ck.match("projection", "projv", b, r.ret, scl(dot3(a, w) / nn, w), chain(assume_bool(lt(absv(nn), EPS), False), big, default_assume))
    ck.match("projection", "projv of a null vector", b, r.ret, vec(num(0), num(0), num(0)), chain(assume_bool(lt(absv(nn), EPS), True), assume_bool(lt(nn, EPS), True), default_assume))
    b = ck.fn("perpv")
    r = ck.ev(b, [("a", a), ("b", w)], contract={"projv": lambda p, q: scl(dot3(p, q) / dot3(q, q), q), "utils::projv": lambda p, q: scl(dot3(p, q) / dot3(q, q), q)})
    ck.vocab |= {"Matrix::amax"}
    A, B = app("Matrix::amax", a), app("Matrix::amax", w)
    sa, sb = lt(A, EPS), lt(B, EPS)
    ck.match("projection", "perpv", b, r.ret, sub(a, scl(dot3(a, w) / nn, w)), chain(assume_bool(sa, False), assume_bool(sb, False), default_assume))
    ck.match("projection", "perpv of a null vector", b, r.ret, vec(num(0), num(0), num(0)), chain(assume_bool(sa, True), default_assume))
    ck.match("projection", "perpv to a null vector", b, r.ret, a, chain(assume_bool(sa, False), assume_bool(sb, True), default_assume))
    b = ck.fn("unitize")
    r = ck.ev(b, [("v", a)])
    n = norm(a)
    ck.match("definition", "unitize", b, r.ret, ite(lt(n, EPS), a, scl(num(1) / n, a)))
    b = ck.fn("cartesian_to_spherical")
    r = ck.ev(b, [("v", a)])
    reg = chain(assume_bool(lt(n, EPS), False), default_assume)
    ck.match("spherical", "range, angles", b, r.ret, mk("agg", ("tuple",), n, app("atan2", c_(a, 1), c_(a, 0)), app("acos", c_(a, 2) / n)), reg)
    ck.match("spherical", "null vector", b, r.ret, mk("agg", ("tuple",), num(0), num(0), num(0)), chain(assume_bool(lt(n, EPS), True), default_assume))
    b = ck.fn("spherical_to_cartesian")
    r = ck.ev(b, ["r", "t", "p"])
    q, t, p = S("r"), S("t"), S("p")
    ck.match("spherical", "components", b, r.ret, ite(lt(q, EPS), vec(num(0), num(0), num(0)), vec(q * app("sin", p) * app("cos", t), q * app("sin", p) * app("sin", t), q * app("cos", p))))


def scalars(ck):
    x, lo, hi = S("x"), S("lo"), S("hi")
    b = ck.fn("normalize")
    r = ck.ev(b, ["x", "lo", "hi"])
    ck.match("normalisation", "normalize", b, r.ret, num(2) * (x - lo) / (hi - lo) - num(1))
    b = ck.fn("denormalize")
    r = ck.ev(b, ["x", "lo", "hi"])
    ck.match("normalisation", "denormalize", b, r.ret, (hi - lo) * (x + num(1)) / num(2) + lo)
    a, w = V("a"), V("b")
    b = ck.fn("rss_errors")
    r = ck.ev(b, [("a", a), ("b", w)])
    ck.match("error", "rss_errors", b, r.ret, norm(sub(a, w)))
    b = ck.fn("rss_orbit_errors")
    o1, o2 = S("p"), S("q")
    r = ck.ev(b, ["p", "q"])

    def n3(f):
        return sqrt(sum_([(ment(o1[f], i, 0) - ment(o2[f], i, 0)) * (ment(o1[f], i, 0) - ment(o2[f], i, 0)) for i in range(3)]))
    ck.match("error", "rss_orbit_errors", b, r.ret, mk("agg", ("tuple",), n3("radius_km"), n3("velocity_km_s")))
    b = ck.fn("rss_orbit_vec_errors")
    a, w = V("a", 6), V("b", 6)
    r = ck.ev(b, [("a", a), ("b", w)])
    d = [c_(a, i) - c_(w, i) for i in range(6)]
    ck.match("error", "rss_orbit_vec_errors", b, r.ret, mk("agg", ("tuple",), sqrt(sum_([x * x for x in d[:3]])), sqrt(sum_([x * x for x in d[3:]]))))
    b = ck.fn("mag_order")
    r = ck.ev(b, ["x"])
    f = app("floor", app("log10", absv(x)))
    ck.match_any("definition", "mag_order", b, r.ret, [app("trunc", f), f])


def poly(ck):
    x = S("x")
    for n in range(1, 7):
        cs = [S("c%d" % i) for i in range(n)]
        p = rec(S("p"), coefficients=arr(*cs))
        sb = {"SIZE": str(n)}
        val = sum_([cs[i] * pw(x, i) for i in range(n)])
        der = sum_([num(0)] + [num(i) * cs[i] * pw(x, i - 1) for i in range(1, n)])
        for fn, want in (("eval_n_deriv", mk("agg", ("tuple",), val, der)), ("eval", val), ("deriv", der)):
            b = ck.fn(fn, "Polynomial")
            r = ck.ev(b, [("p", p), "x"], subst=sb)
            ck.match("polynomial", "%s, %d coefficients" % (fn, n), b, r.ret, want)
        b = ck.fn("from_most_significant", "Polynomial")
        r = ck.ev(b, [("cs", arr(*cs))], subst=sb)
        ck.match("polynomial", "from_most_significant, %d coefficients" % n, b, field(r.ret, "coefficients"), arr(*cs[::-1]))
        b = ck.fn("order", "Polynomial")
        r = ck.ev(b, [("p", p)], subst=sb)
        ck.match("polynomial", "order, %d coefficients" % n, b, r.ret, num(n - 1))
    n = 3
    cs = [S("c%d" % i) for i in range(n)]
    p = rec(S("p"), coefficients=arr(*cs))
    b = ck.fn("zero_below_tolerance", "Polynomial")
    r = ck.ev(b, [("self", p), "tol"], subst={"SIZE": "3"})
    for i in range(n):
        ck.match("polynomial", "zero_below_tolerance %d" % i, b, index(field(r.final["self"], "coefficients"), num(i)), ite(lt(absv(cs[i]), S("tol")), num(0), cs[i]))
    b = ck.fn("zero_power", "Polynomial")
    for i in range(4):
        r = ck.ev(b, [("self", p), ("i", num(i))], subst={"SIZE": "3"})
        for j in range(n):
            ck.match("polynomial", "zero_power %d, coefficient %d" % (i, j), b, index(field(r.final["self"], "coefficients"), num(j)), num(0) if i == j else cs[j])
    b = ck.fn("is_nan", "Polynomial")
    r = ck.ev(b, [("p", p)], subst={"SIZE": "3"})
    ck.match("polynomial", "is_nan", b, tobool(r.ret), bor(*[batom(app("is_nan", c)) for c in cs]))
    # the named polynomials
    a_, b_, c2 = S("a"), S("b"), S("c")
    for v, f, val, der, co in (("Constant", dict(a=a_), a_, num(0), [a_]), ("Linear", dict(a=a_, b=b_), a_ * x + b_, a_, [b_, a_]),
                               ("Quadratic", dict(a=a_, b=b_, c=c2), a_ * x * x + b_ * x + c2, num(2) * a_ * x + b_, [c2, b_, a_])):
        q = variant(ck, "CommonPolynomial", v, **f)
        for fn, want in (("eval", val), ("deriv", der)):
            b = ck.fn(fn, "CommonPolynomial")
            r = ck.ev(b, [("self", q), "x"])
            ck.match("polynomial", "%s.%s" % (v, fn), b, r.ret, want)
        b = ck.fn("coeff_in_order", "CommonPolynomial")
        for o in range(4):
            r = ck.ev(b, [("self", q), ("order", num(o))])
            if o < len(co):
                ck.match("polynomial", "%s.coeff_in_order(%d)" % (v, o), b, r.ret, ok(co[o]), None)
            else:
                ck.match("polynomial", "%s.coeff_in_order(%d)" % (v, o), b, is_variant(r.ret, TT.RES, "Ok"), FALSE, None)


def pw(x, n):
    r = num(1)
    for _ in range(n):
        r = r * x
    return r


RULES = [("wraps", wraps), ("matrices", matrices), ("vectors", vectors), ("scalars", scalars), ("poly", poly)]
