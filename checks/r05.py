"""R05: orbital acceleration: two-body plus every configured model; third bodies by the relative formulation."""
from spec import *

TECHNIQUE = "gated value graph of the orbital equations of motion and of the third-body model with symbolic lists of models and bodies"
RULE_TEXT = ["dx/dt = (v, -mu r/|r|^3 + sum of the models' accelerations), no STM entries", "third body j: -GM_j (r_j/|r_j|^3 + r_ij/|r_ij|^3), the integration centre being skipped",
             "a failing model or missing datum is an error, never a silent zero"]


def v3(t):
    return [t[(i, 0)] for i in range(3)]


def nrm(v):
    return sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])


def twobody(osc):
    mu = app("Frame::mu_km3_s2", osc["frame"])
    r = v3(osc["radius_km"])
    n = nrm(r)
    return [neg(mu[("Ok", "0")]) / (n * n * n) * x for x in r], mu


def eom(ck):
    osc, alm = S("osc"), S("almanac")
    for n in (0, 1, 2, 3):
        me = rec(S("self"), accel_models=arr(*[S("m%d" % i) for i in range(n)]))
        b = ck.fn("eom", "OrbitalDynamics")
        r = ck.ev(b, [("self", me), "osc", "almanac"])
        acc, mu = twobody(osc)
        calls = [app("AccelModel::eom", S("m%d" % i), osc, alm) for i in range(n)]
        for c in calls:
            acc = [x + y for x, y in zip(acc, v3(c[("Ok", "0")]))]
        want = mat(42, 1, v3(osc["velocity_km_s"]) + acc + [num(0)] * 36)
        ck.match("orbital", "%d models" % n, b, r.ret, ok(want))
        ck.match("orbital-errors", "%d models" % n, b, is_variant(r.ret, TT.RES, "Ok"), band(*[is_variant(c, TT.RES, "Ok") for c in [mu] + calls]), None)


def third(ck):
    osc, alm = S("osc"), S("almanac")
    for n in (0, 1, 2):
        bodies = [S("b%d" % i) for i in range(n)]
        me = rec(S("self"), celestial_objects=arr(*bodies))
        b = ck.fn("eom", "PointMasses")
        r = ck.ev(b, [("self", me), "osc", "almanac"])
        acc = [num(0)] * 3
        good = TRUE
        for x in bodies:
            skip = batom(app("Frame::ephem_origin_id_match", osc["frame"], x))
            fi = app("Almanac::frame_info", alm, app("Frame::with_ephem", osc["frame"], x))
            fr = fi[("Ok", "0")]
            st = app("Almanac::transform", alm, fr, osc["frame"], osc["epoch"], me["correction"])
            mu = app("Frame::mu_km3_s2", fr)
            rij = v3(st[("Ok", "0")]["radius_km"])
            rj = [p - q for p, q in zip(v3(osc["radius_km"]), rij)]
            c = [neg(mu[("Ok", "0")]) * (p / nrm(rj) ** 3 + q / nrm(rij) ** 3) for p, q in zip(rj, rij)]
            acc = [p + ite(skip, num(0), q) for p, q in zip(acc, c)]
            good = band(good, bor(skip, band(*[is_variant(z, TT.RES, "Ok") for z in (fi, st, mu)])))
        ck.match("third-body", "%d bodies" % n, b, r.ret, ok(mat(3, 1, acc)))
        ck.match("third-body-errors", "%d bodies" % n, b, is_variant(r.ret, TT.RES, "Ok"), good, None)


RULES = [("eom", eom), ("third", third)]
