"""R30: Lambert solvers: direction, time equation and its derivatives, root finding, reconstruction."""
import itertools
import math
from r20 import okp, okv
from r24 import fieldless
from spec import *

TECHNIQUE = "gated value graphs of both Lambert solvers, with the root finder's iterations unrolled (Izzo) or summarised as a loop with its step relation (universal variables), compared with the boundary-value equations on exact rational geometries with symbolic time, gravity and unknowns"
RULE_TEXT = ["short, long and automatic transfers turn by the angle their kind asks for", "Izzo's time of flight, its derivatives, starting points and Householder step follow their equations, and a root is returned only once the step is below the tolerance",
             "the velocities are those of the transfer in the plane and sense chosen", "the universal-variable iteration returns the values whose time of flight matches the requested one", "departure and arrival quantities derive from the solution"]
ASSUMPTIONS = ["geometries are rational triangles in several planes, on either side of the reference plane", "convergence of the root finding is not decided, only what is accepted"]
PI_ = num(math.pi)
DIR = "direction_of_motion"
# (tag, r1, r2, |r1|, |r2|, |r2 - r1|, unit vectors along the motion at both ends when turning the short way)
GEO = [("right angle", (8, 0, 0), (0, 6, 0), 8, 6, 10), ("right angle, below", (8, 0, 0), (0, -6, 0), 8, 6, 10), ("polar", (8, 0, 0), (0, 0, 6), 8, 6, 10),
       ("acute", (14, 0, 0), (5, 12, 0), 14, 13, 15), ("inclined", (28, 28, 14), (-14, 22, 29), 42, 39, 45), ("inclined, below", (-14, 22, 29), (28, 28, 14), 39, 42, 45)]


def vec3(v):
    return mat(3, 1, [num(x) for x in v])


def kind(ck, n, **a):
    return variant(ck, "TransferKind", n, **a)


def problem(g):
    s = S("input")
    return rec(s, initial_state=rec(s["initial_state"], radius_km=vec3(g[1]), epoch=S("t")), final_state=rec(s["final_state"], radius_km=vec3(g[2]), epoch=S("t") + S("T")))


def direction(ck):
    b = ck.fn(DIR, "TransferKind")
    rf, ri = S("rf"), S("ri")
    one = lambda k: ck.ev(b, [("self", k), ("r_final", rf), ("r_init", ri)]).ret
    ck.match("direction", "short way", b, okv(one(kind(ck, "ShortWay"))), num(1))
    ck.match("direction", "long way", b, okv(one(kind(ck, "LongWay"))), num(-1))
    r = one(kind(ck, "Auto"))
    d = atan2(rf[(1, 0)], rf[(0, 0)]) - atan2(ri[(1, 0)], ri[(0, 0)])
    turn = ite(lt(d, num(0)), d + PI_ * num(2), d)
    ck.match("direction", "automatic: the way round that moves eastward", b, okv(r), ite(gt(turn, PI_), num(-1), num(1)))
    ck.match("direction", "automatic: always decided", b, okp(r), TRUE, None)
    ck.match("direction", "revolutions are not a direction", b, okp(one(kind(ck, "NRevs", **{"0": S("n")}))), FALSE, None)


def atan2(y, x):
    return app("atan2", y, x)


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def tangents(g):
    """Unit vectors along the motion at both ends when turning the short way, as rationals."""
    from fractions import Fraction as Q
    _, r1, r2, n1, n2, c = g
    a, b = [Q(x, n1) for x in r1], [Q(x, n2) for x in r2]
    h = cross(a, b)
    n = math.isqrt(int(sum(x * x for x in h) * (n1 * n2) ** 2))
    h = [x * n1 * n2 / n for x in h]
    assert sum(x * x for x in h) == 1
    return cross(h, a), cross(h, b)


def solvers(ck, fn, g, k, dm):
    b = ck.fn(fn)
    calls, dirs = [], []

    def found(*a):
        calls.append(a)
        return app("found", num(len(calls) - 1))

    def way(k_, rf, ri):
        dirs.append((k_, rf, ri))
        return ok(num(dm))
    ck.vocab |= {"found", "mu"}
    r = ck.ev(b, [("input", problem(g)), ("kind", k)], turns=4, contract={"find_xy": found, "izzo::find_xy": found, "TransferKind::" + DIR: way, "LambertInput::mu_km2_s3": lambda x: S("mu")})
    return b, r, calls, dirs


def asked(ck, rule, t, b, dirs, k, g):
    ck.expect(len(dirs) == 1 and dirs[0][0] is k, rule, t + ": asks for the direction of the kind", b.where(), "%d decisions" % len(dirs))
    for n, x, want in (("final", dirs[0][1], g[2]), ("initial", dirs[0][2], g[1])) if dirs else ():
        for i in range(3):
            ck.match(rule, "%s: direction from the %s position %d" % (t, n, i), b, x[(i, 0)], num(want[i]))


def reconstruction(ck):
    from fractions import Fraction as Q
    mu, T = S("mu"), S("T")
    for g in GEO:
        tag, r1, r2, n1, n2, c = g
        t1, t2 = tangents(g)
        s = Q(n1 + n2 + c, 2)
        for way in ("short", "long", "revolutions"):
            dm = -1 if way == "long" else 1
            k = S("kind") if way != "revolutions" else kind(ck, "NRevs", **{"0": S("n")})
            if way != "revolutions":
                k = kind(ck, "Auto")
            b, r, calls, dirs = solvers(ck, "izzo", g, k, dm)
            t = "%s, %s" % (tag, way)
            if way != "revolutions":
                asked(ck, "reconstruction", t, b, dirs, k, g)
            if len(calls) != 1 or len(calls[0]) != 7:
                raise Undecidable("the search for the unknowns is not one call")
            lam = sqrt(num(1 - c / s)) * num(dm)
            for n, i, want in (("λ", 0, lam), ("normalised time", 1, sqrt(num(2) * mu / num(s ** 3)) * T), ("revolutions", 2, S("n") if way == "revolutions" else num(0))):
                ck.match("reconstruction", "%s: %s" % (t, n), b, calls[0][i], want)
            f = app("found", num(0))
            ck.match("reconstruction", t + ": succeeds if the unknowns are found", b, okp(r.ret), okp(f), None)
            x, y = field(okv(f), "0"), field(okv(f), "1")
            gam, rho = sqrt(mu * num(s / 2)), num(Q(n1 - n2, c))
            sig = sqrt(num(1 - Q(n1 - n2, c) ** 2))
            vr = [gam * ((lam * y - x) - rho * (lam * y + x)) / num(n1), num(0) - gam * ((lam * y - x) + rho * (lam * y + x)) / num(n2)]
            vt = [gam * sig * (y + lam * x) / num(n1), gam * sig * (y + lam * x) / num(n2)]
            for n, rr, nn, tt, a, c_ in (("v_init_km_s", r1, n1, t1, vr[0], vt[0]), ("v_final_km_s", r2, n2, t2, vr[1], vt[1])):
                for i in range(3):
                    ck.match("reconstruction", "%s: %s %d" % (t, n, i), b, okv(r.ret)[n][(i, 0)], a * num(Q(rr[i], nn)) + c_ * num(tt[i] * dm))
            for n in ("initial_state", "final_state"):
                for q in ("velocity_km_s", "epoch", "frame"):
                    ck.match("reconstruction", "%s: input %s %s" % (t, n, q), b, okv(r.ret)["input"][n][q], problem(g)[n][q])


def series(x):
    return app("hyp", x)


def tof(x, y, ll, m):
    eta = y - ll * x
    near = (eta * eta * eta * (num(4) / num(3) * series((num(1) - ll - x * eta) / num(2))) + num(4) * ll * eta) / num(2)
    psi = ite(gt(x, num(1)), app("asinh", (y - x * ll) * sqrt(x * x - num(1))), ite(lt(x, num(1)), app("acos", x * y + ll * (num(1) - x * x)), num(0)))
    den = num(1) - x * x
    far = ((psi + num(m) * PI_) / sqrt(absv(den)) - x + ll * y) / den
    if m:
        return far
    return ite(band(gt(x * x, num(0.6)), lt(x * x, num(1.4))), near, far)


def derivatives(x, y, t, ll):
    den = num(1) - x * x
    l3 = ll * ll * ll
    d1 = (num(3) * t * x - num(2) + num(2) * l3 * x / y) / den
    d2 = (num(3) * t + num(5) * x * d1 + num(2) * (num(1) - ll * ll) * l3 / (y * y * y)) / den
    d3 = (num(7) * x * d2 + num(8) * d1 - num(6) * (num(1) - ll * ll) * (l3 * ll * ll) * x / ((y * y) * (y * y) * y)) / den
    return d1, d2, d3


def step(x, ll, m, t0):
    y = sqrt(num(1) - ll * ll * (num(1) - x * x))
    t = tof(x, y, ll, m)
    f = t - t0
    d1, d2, d3 = derivatives(x, y, t, ll)
    den = d1 * (d1 * d1 - f * d2) + d3 * f * f / num(6)
    return x - f * ((d1 * d1 - f * d2 / num(2)) / den), lt(absv(den), num(1e-14))


def search(ck):
    b = ck.fn("householder")
    x, ll, t0, at, rt = (S(n) for n in ("x", "ll", "t0", "atol", "rtol"))
    ck.vocab |= {"hyp", "acos", "asinh"}
    con = {"hyp2f1b": series, "izzo::hyp2f1b": series}
    for m in (0, 1, 3):
        args = lambda n: [("p0", x), ("t0", t0), ("ll", ll), ("m", num(m)), ("atol", at), ("rtol", rt), ("maxiter", num(n))]
        r = ck.ev(b, args(1), contract=con)
        t = "%d revolutions" % m
        p, flat_ = step(x, ll, m, t0)
        near = lt(absv(p - x), rt * absv(x) + at)
        ck.match("search", t + ": one step", b, okv(r.ret), p)
        ck.match("search", t + ": returned once the step is below the tolerance", b, okp(r.ret), band(bnot(flat_), near), None)
        r = ck.ev(b, args(0), contract=con)
        ck.match("search", t + ": no iteration left is an error", b, okp(r.ret), FALSE, None)


def unknowns(ck):
    b = ck.fn("find_xy")
    t, ll = S("tof"), S("ll")
    ck.vocab |= {"root", "tmin", "acos", "pow", "ln", "exp", "floor", "u32", "max", "min"}
    for m in (0, 2):
        calls, mins = [], []

        def root(*a):
            calls.append(a)
            return app("root", num(len(calls) - 1))

        def least(*a):
            mins.append(a)
            return app("tmin", num(len(mins) - 1))
        r = ck.ev(b, [("ll", ll), ("t", t), ("m", num(m)), ("maxiter", S("maxiter")), ("atol", S("atol")), ("rtol", S("rtol")), ("low_path", TRUE)], contract={"householder": root, "compute_t_min": least, "izzo::householder": root, "izzo::compute_t_min": least})
        tg = "%d revolutions" % m
        if len(calls) != 1 or len(calls[0]) != 7:
            raise Undecidable("the root is not searched by one call")
        for n, i, w in (("time", 1, t), ("λ", 2, ll), ("revolutions", 3, num(m)), ("absolute tolerance", 4, S("atol")), ("relative tolerance", 5, S("rtol")), ("iterations", 6, S("maxiter"))):
            ck.match("unknowns", "%s: search with the %s" % (tg, n), b, calls[0][i], w)
        x = okv(app("root", num(0)))
        ck.match("unknowns", tg + ": x", b, field(okv(r.ret), "0"), x)
        ck.match("unknowns", tg + ": y", b, field(okv(r.ret), "1"), sqrt(num(1) - ll * ll * (num(1) - x * x)))
        a0 = app("acos", ll) + ll * sqrt(num(1) - ll * ll)
        if m == 0:
            t1 = num(2) * (num(1) - ll * ll * ll) / num(3)
            l5 = ll * ll * ll * ll * ll
            two3 = num(2) / num(3)
            slow = app("pow", a0 / t, two3) - num(1)
            fast = num(2.5) * t1 / t * (t1 - t) / (num(1) - l5) + num(1)
            mid = app("exp", app("ln", num(2)) * app("ln", t / a0) / app("ln", t1 / a0)) - num(1)
            want = ite(ge(t, a0), slow, ite(lt(t, t1), fast, mid))
        else:
            l_ = app("pow", (num(m) * PI_ + PI_) / (num(8) * t), num(2) / num(3))
            r_ = app("pow", num(8) * t / (num(m) * PI_), num(2) / num(3))
            want = fmax((l_ - num(1)) / (l_ + num(1)), (r_ - num(1)) / (r_ + num(1)))
        ck.match("unknowns", tg + ": starting point", b, calls[0][0], want)
        mm = app("trunc", app("floor", t / PI_))
        tm = app("tmin", num(0))
        doubt = band(lt(t, a0 + mm * PI_), gt(mm, num(0)))
        most = ite(band(doubt, lt(t, field(okv(tm), "1"))), mm - num(1), mm)
        ck.match("unknowns", tg + ": found if feasible in that many revolutions", b, okp(r.ret), band(bor(bnot(doubt), okp(tm)), le(num(m), most), okp(app("root", num(0)))), assume_bool(lt(absv(ll), num(1)), True))


def hypergeometric(ck):
    b = ck.fn("hyp2f1b")
    r = ck.ev(b, [("x", S("x"))])
    if len(r.loops) != 1:
        raise Undecidable("%d loops" % len(r.loops))
    L = r.loops[0]
    x = S("x")
    ms = list(L.mus)
    for res, term, i in itertools.permutations(ms, 3):
        if not (same(L.mus[res][0], num(1)) and same(L.mus[term][0], num(1)) and same(L.mus[i][0], num(0))):
            continue
        nt = term * ((num(3) + i) * (num(1) + i) / (num(2.5) + i) * x / (i + num(1)))
        if same(L.mus[i][1], i + num(1)) and same(L.mus[term][1], nt) and same(L.mus[res][1], res + nt):
            ck.held("unknowns", "hypergeometric series 2F1(3, 1; 5/2; x)")
            ck.match("unknowns", "hypergeometric series: its sum", b, r.ret, res + nt, chain(default_assume, assume_bool(ge(x, num(1)), False)), mus=tuple(L.mus))
            return
    ck.violation("unknowns", "hypergeometric series 2F1(3, 1; 5/2; x)", b.where(), "the terms do not follow (3)_n (1)_n / (5/2)_n x^n / n!: %s" % "; ".join("%r from %r becomes %r" % (m, i_, s_) for m, (i_, s_) in L.mus.items())[:900])


def universal(ck):
    mu, T = S("mu"), S("T")
    for g in GEO:
        tag, r1, r2, n1, n2, c = g
        for dm in (-1, 1):
            b, r, calls, dirs = solvers(ck, "gooding", g, kind(ck, "Auto"), dm)
            t = "%s, %s" % (tag, "long" if dm < 0 else "short")
            asked(ck, "universal", t, b, dirs, kind(ck, "Auto"), g)
            a = sqrt(num(n1 * n2 + sum(p * q for p, q in zip(r1, r2)))) * num(dm)
            one(ck, t, b, r, g, a, mu, T)


def stumpff(p):
    q, n = sqrt(p), sqrt(num(0) - p)
    eps = num(1e-4)
    pos, neg = gt(p, eps), lt(p, num(0) - eps)
    c2 = ite(pos, (num(1) - app("cos", q)) / p, ite(neg, (num(1) - app("cosh", n)) / p, num(0.5)))
    c3 = ite(pos, (q - app("sin", q)) / sqrt(p * p * p), ite(neg, (app("sinh", n) - n) / sqrt(num(0) - p * p * p), num(1) / num(6)))
    return c2, c3


def one(ck, t, b, r, g, a, mu, T):
    tag, r1, r2, n1, n2, c = g
    outer = [L for L in r.loops if len(L.mus) >= 6]
    if len(outer) != 1:
        raise Undecidable("%d candidate loops" % len(outer))
    L = outer[0]
    by = lambda v: [m for m in L.mus if is_num(L.mus[m][0]) and abs(float(nval(L.mus[m][0])) - v) < 1e-12]
    zero = by(0.0)
    up, lo, c2, c3 = by(4 * math.pi ** 2), by(-4 * math.pi ** 2), by(0.5), by(1 / 6)
    if not all(len(x) == 1 for x in (up, lo, c2, c3)):
        raise Undecidable("the iteration's variables")
    up, lo, c2, c3 = up[0], lo[0], c2[0], c3[0]
    v = okv(r.ret)
    used = [m for m in zero if any(z is m for i in range(3) for z in subterms(v["v_init_km_s"][(i, 0)]))]
    off = lambda m: gt(absv(m - T), num(1e-4))
    tofs = [m for m in zero if TT.cofactor(L.back_pc, off(m).args[0], off(m).args[1] is not TRUE) is FALSE]
    if len(used) != 1 or len(tofs) != 1:
        raise Undecidable("which variable is matched, and which one is returned")
    y, tf = used[0], tofs[0]
    phis = [m for m in zero if m not in (y, tf) and any(z is m for z in subterms(L.mus[y][1]))]
    if len(phis) != 1:
        raise Undecidable("the iterated unknown")
    phi = phis[0]
    f, gd, gg = num(1) - y / num(n1), num(1) - y / num(n2), a * sqrt(y / mu)
    for i in range(3):
        ck.match("universal", "%s: departure velocity %d" % (t, i), b, v["v_init_km_s"][(i, 0)], (num(r2[i]) - f * num(r1[i])) / gg, mus=tuple(L.mus))
        ck.match("universal", "%s: arrival velocity %d" % (t, i), b, v["v_final_km_s"][(i, 0)], (gd * num(r2[i]) - num(r1[i])) / gg, mus=tuple(L.mus))
    Y = num(n1 + n2) + a * (phi * c3 - num(1)) / sqrt(c2)
    al = chain(default_assume, assume_bool(lt(Y, num(0)), False))
    chi = sqrt(Y / c2)
    tof_ = (chi * chi * chi * c3 + a * sqrt(Y)) / sqrt(mu)
    ck.match("universal", t + ": y", b, L.mus[y][1], Y, al, mus=tuple(L.mus))
    ck.match("universal", t + ": its time of flight", b, L.mus[tf][1], tof_, al, mus=tuple(L.mus))
    early = lt(tof_, T)
    nu, nl = ite(early, up, phi), ite(early, phi, lo)
    ck.match("universal", t + ": upper bound", b, L.mus[up][1], nu, al, mus=tuple(L.mus))
    ck.match("universal", t + ": lower bound", b, L.mus[lo][1], nl, al, mus=tuple(L.mus))
    np = (nu + nl) / num(2)
    ck.match("universal", t + ": bisection", b, L.mus[phi][1], np, al, mus=tuple(L.mus))
    s2, s3 = stumpff(np)
    ck.match("universal", t + ": c2", b, L.mus[c2][1], s2, al, mus=tuple(L.mus))
    ck.match("universal", t + ": c3", b, L.mus[c3][1], s3, al, mus=tuple(L.mus))
    ck.match("universal", t + ": returned only if the time of flight matches", b, band(okp(r.ret), gt(absv(tf - T), num(1e-4))), FALSE, None, mus=tuple(L.mus))


def derived(ck):
    s = S("self")
    i, f = s["input"]["initial_state"], s["input"]["final_state"]
    vo = [i["velocity_km_s"][(k, 0)] - s["v_init_km_s"][(k, 0)] for k in range(3)]
    vi = [f["velocity_km_s"][(k, 0)] - s["v_final_km_s"][(k, 0)] for k in range(3)]
    ev = lambda n: (ck.fn(n, "LambertSolution"), ck.ev(ck.fn(n, "LambertSolution"), [("self", s)]).ret)
    for n, w in (("v_inf_outgoing_km_s", vo), ("v_inf_incoming_km_s", vi)):
        b, r = ev(n)
        for k in range(3):
            ck.match("derived", "%s %d" % (n, k), b, r[(k, 0)], w[k])
    n2 = vo[0] * vo[0] + vo[1] * vo[1] + vo[2] * vo[2]
    deg = num(180) / PI_
    z = num(0)
    for n, w in (("c3_km2_s2", n2), ("v_inf_outgoing_declination_deg", app("asin", (z - vo[2]) / sqrt(n2)) * deg), ("v_inf_outgoing_right_ascension_deg", atan2(z - vo[1], z - vo[0]) * deg)):
        b, r = ev(n)
        ck.match("derived", n, b, r, w)
    for n, o, v in (("transfer_orbit", i, s["v_init_km_s"]), ("arrival_orbit", f, s["v_final_km_s"])):
        b, r = ev(n)
        for q in ("radius_km", "epoch", "frame"):
            ck.match("derived", "%s: %s" % (n, q), b, r[q], o[q])
        for k in range(3):
            ck.match("derived", "%s: velocity %d" % (n, k), b, r["velocity_km_s"][(k, 0)], v[(k, 0)])
    b = ck.fn("from_planetary_states", "LambertInput")
    r = ck.ev(b, [("initial_state", S("a")), ("final_state", S("b"))]).ret
    ck.match("derived", "problem: initial state", b, okv(r)["initial_state"], S("a"))
    ck.match("derived", "problem: final state", b, okv(r)["final_state"], S("b"))
    ck.match("derived", "problem: only between states of one frame, with its gravity known", b, okp(r), band(eq(S("b")["frame"], S("a")["frame"]), okp(app("Frame::mu_km3_s2", S("a")["frame"]))), None)


RULES = [("direction", direction), ("reconstruction", reconstruction), ("search", search), ("unknowns", unknowns), ("hypergeometric", hypergeometric), ("universal", universal), ("derived", derived)]
