"""R12: closed-loop guidance (Ruggiero, Kluever): steering, objectives, eclipse coasting."""
from spec import *
from r05 import v3, nrm

TECHNIQUE = "gated value graphs of the locally optimal and blended guidance laws for every supported element, one and two objectives, compared with the published steering laws"
RULE_TEXT = ["an objective within tolerance (or below its efficiency threshold, or of weight zero) does not steer; the others are summed with their weights and the sum is normalised and rotated from RCN",
             "thrust iff not inhibited, some objective not achieved and the shadow not darker than allowed", "an unsupported element is refused"]
OPV = ("State::value", "Spacecraft::value")


def par(ck, e):
    return variant(ck, "StateParameter", "Element", **{"0": variant(ck, "OrbitalElement", e)})


def val(sc, p):
    return app("State::value", sc, p)


def el(o, n):
    return app("CartesianState::" + n, o)[("Ok", "0")]


def rad(x):
    return x * (app_const_pi() / 180)


def app_const_pi():
    import math
    return num(math.pi)


sin = lambda x: app("sin", x)
cos = lambda x: app("cos", x)
atan2 = lambda y, x: app("atan2", y, x)


def rcn(al, be):
    return [sin(al) * cos(be), cos(al) * cos(be), sin(be)]


HALF = num(1.5707963267948966)


def copysign(m, s):
    return app("copysign", m, s)


def common(o):
    return el(o, "ecc"), rad(el(o, "ta_deg")), rad(el(o, "aop_deg"))


def efficiency(ck):
    o = S("osc")
    b = ck.fn("efficiency", "Ruggiero")
    e, ta, w = common(o)
    a, mu = el(o, "sma_km"), app("Frame::mu_km3_s2", o["frame"])[("Ok", "0")]
    v = nrm(v3(o["velocity_km_s"]))
    den = 1 + e * cos(ta)
    spec = {"SemiMajorAxis": v * sqrt((a * (1 - e)) / (mu * (1 + e))),
            "Eccentricity": (1 + 2 * e * cos(ta) + cos(ta) * cos(ta)) / (2 * den),
            "Inclination": absv(cos(w + ta)) * (sqrt(1 - e * e * sin(w) * sin(w)) - e * absv(cos(w))) / den,
            "RAAN": absv(sin(w + ta)) * (sqrt(1 - e * e * cos(w) * cos(w)) - e * absv(sin(w))) / den,
            "AoP": num(1)}
    for n, s in spec.items():
        r = ck.ev(b, [("parameter", par(ck, n)), "osc"])
        ck.match("efficiency", n, b, r.ret, ok(s))
    for n in ("TrueAnomaly", "PeriapsisRadius"):
        r = ck.ev(b, [("parameter", par(ck, n)), "osc"])
        ck.match("efficiency", n + " refused", b, is_variant(r.ret, TT.RES, "Ok"), FALSE)


def weighting(ck):
    b = ck.fn("weighting", "Ruggiero")
    me, ob, sc, th = S("self"), S("obj"), S("sc"), S("th")
    r = ck.ev(b, ["self", "obj", "sc", "th"], opaque=OPV + ("Ruggiero::efficiency",))
    init, osc = val(me["init_state"], ob["parameter"])[("Ok", "0")], val(sc, ob["parameter"])[("Ok", "0")]
    eta = app("Ruggiero::efficiency", ob["parameter"], sc["orbit"])[("Ok", "0")]
    tg, tol = ob["desired_value"], ob["tolerance"]
    ref = ite(lt(absv(init - tg), tol), init + tol, init)
    ck.match("weight", "weighting", b, r.ret, ite(bor(lt(absv(osc - tg), tol), lt(eta, th)), num(0), (tg - osc) / absv(tg - ref)))


def ruggiero_dir(ck, n, o):
    e, ta, w = common(o)
    ea, inc = rad(el(o, "ea_deg")), rad(el(o, "inc_deg"))
    if n == "SemiMajorAxis":
        return rcn(atan2(e * sin(ta), 1 + e * cos(ta)), num(0))
    if n == "Eccentricity":
        return rcn(atan2(sin(ta), cos(ta) + cos(ea)), num(0))
    if n == "Inclination":
        return rcn(num(0), copysign(HALF, cos(ta + w)))
    if n == "RAAN":
        return rcn(num(0), copysign(HALF, sin(ta + w)))
    oe2, e3 = 1 - e * e, e * e * e
    sq = sqrt((oe2 / e3) * (oe2 / e3) / 4 + num(1) / 27)
    third = num(1) / 3
    oa = app("acos", app("pow", oe2 / (2 * e3) + sq, third) - app("pow", sq - oe2 / (2 * e3), third) - 1 / e)
    obt = app("acos", neg(e * cos(w))) - w
    p = el(o, "semi_parameter_km")
    rm = nrm(v3(o["radius_km"]))
    ip = rcn(atan2(neg(p * cos(ta)), (p + rm) * sin(ta)), num(0))
    op = rcn(num(0), copysign(HALF, neg(sin(ta + w))) * cos(inc))
    c = lt(absv(ta - oa), absv(ta - obt))
    return [ite(c, x, y) for x, y in zip(ip, op)]


def ruggiero(ck):
    G = ck.F.adt("GuidanceMode")[0]
    b = ck.fn("direction", "Ruggiero", "GuidanceLaw")
    sc = S("sc")
    o = sc["orbit"]
    th = is_variant(sc["mode"], G, "Thrust")
    names = ("SemiMajorAxis", "Eccentricity", "Inclination", "RAAN", "AoP")
    for lst in [(n,) for n in names] + [("SemiMajorAxis", "Inclination"), ("RAAN", "Eccentricity"), ()]:
        objs = [rec(S("o%d" % i), objective=rec(S("ob%d" % i), parameter=par(ck, n))) for i, n in enumerate(lst)]
        me = rec(S("self"), objectives=arr(*objs))
        r = ck.ev(b, [("self", me), "sc"], opaque=OPV + ("Ruggiero::weighting",))
        W = [app("Ruggiero::weighting", me, x["objective"], sc, x["efficiency"]) for x in objs]
        st = [num(0)] * 3
        for n, w in zip(lst, W):
            d = ruggiero_dir(ck, n, o)
            st = [s + ite(gt(absv(w), num(0)), w * x, num(0)) for s, x in zip(st, d)]
        m = nrm(st)
        un = [ite(gt(m, num(0)), x / m, x) for x in st]
        got = field(r.ret, "0", "Ok")
        # compare the rotated vector's argument: the rotation itself is anise's
        spec = rotated(app("CartesianState::dcm_from_rcn_to_inertial", o)[("Ok", "0")], un)
        lab = "+".join(lst) or "none"
        ck.match("steering", "Ruggiero " + lab, b, r.ret, ite(th, ok(spec), ok(mat(3, 1, [num(0)] * 3))))
    b = ck.fn("throttle", "Ruggiero", "GuidanceLaw")
    r = ck.ev(b, ["self", "sc"], opaque=("GuidanceLaw::direction", "Ruggiero::direction"))
    d = app("GuidanceLaw::direction", S("self"), sc)
    dn = nrm([d[("Ok", "0")][(i, 0)] for i in range(3)])
    ck.match("throttle", "Ruggiero", b, r.ret, ok(ite(band(th, gt(dn, num(0))), num(1), num(0))))


def kluever(ck):
    G = ck.F.adt("GuidanceMode")[0]
    b = ck.fn("direction", "Kluever", "GuidanceLaw")
    sc = S("sc")
    o = sc["orbit"]
    th = is_variant(sc["mode"], G, "Thrust")
    e, ta, w = common(o)
    u = ta + w
    l = u + rad(el(o, "raan_deg"))
    sl, cl = sin(l), cos(l)
    h, k = val(sc, par(ck, "EquinoctialH"))[("Ok", "0")], val(sc, par(ck, "EquinoctialK"))[("Ok", "0")]
    q = 1 + h * sl + k * cl
    pm = lambda x: ite(ge(x, num(0)), num(1), num(-1))
    Z = num(0)
    T_ = {"SemiMajorAxis": (e * sin(ta), 1 + e * cos(ta), Z), "Eccentricity": (sin(ta), cos(ta) + (e + cos(ta)) / (1 + e * cos(ta)), Z),
          "Inclination": (Z, Z, pm(cos(u))), "RAAN": (Z, Z, pm(sin(u))),
          "EquinoctialH": (cl, sl + (h + sl) / q, Z), "EquinoctialK": (neg(sl), cl + (k + cl) / q, Z),
          "EquinoctialP": (Z, Z, pm(sl)), "EquinoctialQ": (Z, Z, pm(cl)), "EquinoctialLambda": (Z, num(1), Z)}
    for lst in [(n,) for n in T_] + [("SemiMajorAxis", "Inclination"), ("Eccentricity", "EquinoctialK"), ()]:
        objs = [rec(S("o%d" % i), objective=rec(S("ob%d" % i), parameter=par(ck, n))) for i, n in enumerate(lst)]
        me = rec(S("self"), objectives=arr(*objs))
        r = ck.ev(b, [("self", me), "sc"], opaque=OPV)
        na, da, nb = Z, Z, Z
        for n, x in zip(lst, objs):
            er = x["objective"]["desired_value"] - val(sc, par(ck, n))[("Ok", "0")]
            wt = x["weight"] * app("signum", er)
            off = bor(eq(x["weight"], num(0)), lt(absv(er), x["objective"]["tolerance"]))
            ta_ = T_[n]
            na, da, nb = [s + ite(off, Z, wt * y) for s, y in zip((na, da, nb), ta_)]
        al = atan2(na, da)
        be = atan2(nb, sqrt(na * na + da * da))
        spec = rotated(app("CartesianState::dcm_from_rcn_to_inertial", o)[("Ok", "0")], rcn(al, be))
        ck.match("steering", "Kluever " + ("+".join(lst) or "none"), b, r.ret, ite(th, ok(spec), ok(mat(3, 1, [Z] * 3))))
    me = rec(S("self"), objectives=arr(rec(S("o0"), objective=rec(S("ob0"), parameter=par(ck, "AoP")))))
    r = ck.ev(b, [("self", me), "sc"], opaque=OPV)
    x = S("o0")
    er = S("ob0")["desired_value"] - val(sc, par(ck, "AoP"))[("Ok", "0")]
    ck.match("refused", "Kluever AoP", b, is_variant(r.ret, TT.RES, "Ok"), bor(bnot(th), eq(x["weight"], num(0)), lt(absv(er), S("ob0")["tolerance"])))
    b = ck.fn("throttle", "Kluever", "GuidanceLaw")
    ck.match("throttle", "Kluever", b, ck.ev(b, ["self", "sc"]).ret, ok(ite(th, num(1), num(0))))


def modes(ck):
    G = ck.F.adt("GuidanceMode")[0]
    sc, alm, me = S("sc"), S("almanac"), S("self")
    opq = ("GuidanceLaw::achieved", "ShadowModel::compute", "ShadowModel::cislunar")
    for ty in ("Ruggiero", "Kluever"):
        b = ck.fn("next", ty, "GuidanceLaw")
        r = ck.ev(b, ["self", "sc", "almanac"], opaque=opq)
        done = tobool(app("GuidanceLaw::achieved", me, sc)[("Ok", "0")])
        shadow = app("ShadowModel::compute", app("ShadowModel::cislunar", alm), sc["orbit"], alm)[("Ok", "0")]["percentage"]
        mx = me["max_eclipse_prct"]
        dark = band(is_variant(mx, TT.OPT, "Some"), gt(shadow, mx[("Some", "0")]))
        want = ite(is_variant(sc["mode"], G, "Inhibit"), sc["mode"], ite(bor(done, dark), variant(ck, "GuidanceMode", "Coast"), variant(ck, "GuidanceMode", "Thrust")))
        ck.match("mode", ty, b, field(r.final["sc"], "mode"), want, chain(default_assume))
        b = ck.fn("achieved", ty, "GuidanceLaw")
        for n in (0, 1, 2, 3):
            objs = [S("o%d" % i) for i in range(n)]
            m2 = rec(me, objectives=arr(*objs))
            r = ck.ev(b, [("self", m2), "sc"], opaque=OPV)
            good = TRUE
            for x in objs:
                ob = x["objective"]
                err_ = ob["multiplicative_factor"] * (ob["desired_value"] - val(sc, ob["parameter"])[("Ok", "0")]) + ob["additive_factor"]
                good = band(good, le(absv(err_), ob["tolerance"]))
            ck.match("achieved", "%s, %d objectives" % (ty, n), b, r.ret, ok(good))


def construct(ck):
    good = ("SemiMajorAxis", "Eccentricity", "Inclination", "RAAN", "AoP")
    ob = lambda i, n: rec(S("b%d" % i), parameter=par(ck, n))
    for nm in ("from_ηthresholds", "from_max_eclipse"):
        b = ck.fn(nm, "Ruggiero")
        for lst in [(n,) for n in good] + [good, ("RAAN", "TrueAnomaly"), ("Period",), (), good + ("RAAN",)]:
            objs = [ob(i, n) for i, n in enumerate(lst)]
            ths = [S("t%d" % i) for i in range(len(lst))]
            if nm == "from_max_eclipse":
                r = ck.ev(b, [("objectives", arr(*objs)), "initial", "max"])
            else:
                r = ck.ev(b, [("objectives", arr(*objs)), ("th", arr(*ths)), "initial"])
            okk = 1 <= len(lst) <= 5 and all(n in good for n in lst)
            lab = "%s, %s" % (nm, "+".join(lst) or "none")
            ck.match("construct", lab, b, is_variant(r.ret, TT.RES, "Ok"), TRUE if okk else FALSE, None)
            if not okk:
                continue
            v = field(r.ret, "0", "Ok")
            ck.match("construct", lab + ", initial state", b, field(v, "init_state"), S("initial"))
            ck.match("construct", lab + ", eclipse", b, field(v, "max_eclipse_prct"), some(S("max")) if nm == "from_max_eclipse" else TT.NONE)
            ck.match("construct", lab + ", count", b, length(field(v, "objectives")), num(len(lst)))
            for i in range(len(lst)):
                x = index(field(v, "objectives"), num(i))
                ck.match("construct", lab + ", objective %d" % i, b, field(x, "objective"), objs[i])
                ck.match("construct", lab + ", threshold %d" % i, b, field(x, "efficiency"), num(0) if nm == "from_max_eclipse" else ths[i])
    b = ck.fn("from_ηthresholds", "Ruggiero")
    r = ck.ev(b, [("objectives", arr(ob(0, "RAAN"), ob(1, "AoP"))), ("th", arr(S("t0"))), "initial"])
    ck.match("construct", "too few thresholds", b, is_variant(r.ret, TT.RES, "Ok"), FALSE, None)
    for nm in ("new", "from_max_eclipse"):
        b = ck.fn(nm, "Kluever")
        a = [("objectives", arr(S("b0"), S("b1"))), ("weights", arr(S("w0"), S("w1")))] + (["max"] if nm != "new" else [])
        v = ck.ev(b, a).ret
        ck.match("construct", "Kluever %s, eclipse" % nm, b, field(v, "max_eclipse_prct"), some(S("max")) if nm != "new" else TT.NONE)
        for i in range(2):
            x = index(field(v, "objectives"), num(i))
            ck.match("construct", "Kluever %s, objective %d" % (nm, i), b, field(x, "objective"), S("b%d" % i))
            ck.match("construct", "Kluever %s, weight %d" % (nm, i), b, field(x, "weight"), S("w%d" % i))


def objective(ck):
    ob = S("self")
    b = ck.fn("assess_value", "Objective")
    e = ob["multiplicative_factor"] * (ob["desired_value"] - S("x")) + ob["additive_factor"]
    ck.match("objective", "assess_value", b, ck.ev(b, ["self", "x"]).ret, mk("agg", ("tuple",), le(absv(e), ob["tolerance"]), e))
    b = ck.fn("assess", "Objective")
    v = val(S("sc"), ob["parameter"])
    e = ob["multiplicative_factor"] * (ob["desired_value"] - v[("Ok", "0")]) + ob["additive_factor"]
    r = ck.ev(b, ["self", "sc"], opaque=OPV)
    ck.match("objective", "assess", b, r.ret, ok(mk("agg", ("tuple",), le(absv(e), ob["tolerance"]), e)))
    b = ck.fn("within_tolerance", "Objective")
    r = ck.ev(b, ["p", "d", "t"]).ret
    for f, s in (("parameter", S("p")), ("desired_value", S("d")), ("tolerance", S("t")), ("multiplicative_factor", num(1)), ("additive_factor", num(0))):
        ck.match("objective", f, b, field(r, f), s)


RULES = [("efficiency", efficiency), ("weighting", weighting), ("ruggiero", ruggiero), ("kluever", kluever), ("modes", modes), ("construct", construct), ("objective", objective)]
