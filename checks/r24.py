"""R24: B-plane construction, its partials and B-plane targeting."""
from spec import *

TECHNIQUE = "gated value graph of the B-plane construction over the dual-number algebra (value and partials at once), of its accessors and of the unrolled targeting iteration, compared with the definition"
RULE_TEXT = ["S along the incoming asymptote, T perpendicular to S and to the z axis, R completing the frame", "B perpendicular to S with the length of the semi-minor axis; B.R, B.T, their partials and the frame follow",
             "only hyperbolic orbits", "Jacobian rows are BR, BT, LTOF and columns vx, vy, vz", "targeting returns the accumulated correction and the B-plane of the corrected orbit, only within both tolerances"]


def dotv(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def unit(a):
    n = sqrt(dotv(a, a))
    return [x / n for x in a]


def okv(t):
    return t[("Ok", "0")]


def v3(t):
    return [t[(i, 0)] for i in range(3)]


def build(ck):
    b = ck.fn("from_dual", "BPlane")
    o = S("orbit")
    r = ck.ev(b, ["orbit"])
    e = okv(app("OrbitGrad::ecc", o))["dual"]
    ev_ = v3(okv(app("OrbitGrad::evec", o)))
    hv = v3(app("OrbitGrad::hvec", o))
    hm = app("OrbitGrad::hmag", o)["dual"]
    sma = okv(app("OrbitGrad::semi_minor_axis_km", o))["dual"]
    eh = [x / e for x in ev_]
    hh = [x / hm for x in hv]
    nh = cross(hh, eh)
    k = sqrt(num(1) - num(1) / (e * e))
    sh = unit([p / e + k * q for p, q in zip(eh, nh)])
    bv = [sma * (k * p - q / e) for p, q in zip(eh, nh)]
    th = unit([sh[1], neg(sh[0]), num(0)])
    rh = cross(sh, th)
    hyp = chain(default_assume, assume_bool(gt(app("OrbitalElementPartials::real", okv(app("OrbitGrad::ecc", o))), num(1)), True))
    bp = okv(r.ret)
    ck.match("b-plane", "B.T and its partials", b, bp["b_t_km"]["dual"], dotv(bv, th), hyp)
    ck.match("b-plane", "B.R and its partials", b, bp["b_r_km"]["dual"], dotv(bv, rh), hyp)
    ck.match("b-plane", "time of flight", b, bp["ltof_s"]["dual"], dotv(bv, sh) / app("OrbitGrad::vmag_km_s", o)["dual"], hyp)
    for i, row in enumerate((sh, th, rh)):
        for j in range(3):
            ck.match("b-plane", "rotation [%d][%d]" % (i, j), b, ment(bp["str_dcm"], i, j), row[j], hyp)
    ck.match("b-plane", "frame", b, bp["frame"], o["frame"], hyp)
    ck.match("b-plane", "epoch", b, bp["epoch"], o["epoch"], hyp)
    ok_ = lambda n: is_variant(app("OrbitGrad::" + n, o), TT.RES, "Ok")
    ck.match("b-plane", "only hyperbolic orbits with data", b, is_variant(r.ret, TT.RES, "Ok"),
             band(ok_("ecc"), gt(app("OrbitalElementPartials::real", okv(app("OrbitGrad::ecc", o))), num(1)), ok_("evec"), ok_("semi_minor_axis_km")), None)
    b = ck.fn("new", "BPlane")
    r = ck.ev(b, ["orbit"], opaque=("BPlane::from_dual",))
    ck.vocab |= {"conv", "BPlane::from_dual"}
    ck.match("b-plane", "from an orbit", b, r.ret, app("BPlane::from_dual", app("conv", TT.mk("str", "OrbitGrad"), o)))


W = ("wrt_vx", "wrt_vy", "wrt_vz")


def pd(t, i):
    return app("OrbitalElementPartials::" + W[i], t)


def re(t):
    return app("OrbitalElementPartials::real", t)


def access(ck):
    s = S("self")
    ck.vocab |= {"OrbitalElementPartials::" + w for w in W + tuple("wrt_" + c for c in "xyz")} | {"OrbitalElementPartials::real"}
    br, bt, lt_ = s["b_r_km"], s["b_t_km"], s["ltof_s"]
    b = ck.fn("jacobian", "BPlane")
    r = ck.ev(b, ["self"])
    for i, f in enumerate((br, bt, lt_)):
        for j in range(3):
            ck.match("jacobian", "[%d][%d]" % (i, j), b, ment(r.ret, i, j), pd(f, j))
    b = ck.fn("jacobian2", "BPlane")
    p = S("invariant")
    r = ck.ev(b, ["self", "invariant"])
    el = is_variant(p, ck.F.adt("StateParameter")[0], "Element")
    for n, cols in (("VX", (1, 2)), ("VY", (0, 2)), ("VZ", (0, 1))):
        iv = r.ret
        par = variant(ck, "StateParameter", "Element", **{"0": fieldless(ck, "OrbitalElement", n)})
        rr = ck.ev(b, ["self", ("invariant", par)]).ret
        for i, f in enumerate((br, bt)):
            for j in range(2):
                ck.match("jacobian", "two components, %s fixed [%d][%d]" % (n, i, j), b, ment(okv(rr), i, j), pd(f, cols[j]))
        ck.match("jacobian", "%s fixed is accepted" % n, b, is_variant(rr, TT.RES, "Ok"), TRUE, None)
    for n in ("SemiMajorAxis", "X", "VMAG"):
        try:
            par = variant(ck, "StateParameter", "Element", **{"0": fieldless(ck, "OrbitalElement", n)})
        except Anchor:
            continue
        ck.match("jacobian", "%s cannot be fixed" % n, b, is_variant(ck.ev(b, ["self", ("invariant", par)]).ret, TT.RES, "Ok"), FALSE, None)
    for n, w in (("b_dot_t_km", re(bt)), ("b_dot_r_km", re(br)), ("ltof", re(lt_)), ("inertial_to_bplane", s["str_dcm"]), ("magnitude_km", sqrt(re(bt) * re(bt) + re(br) * re(br)))):
        b = ck.fn(n, "BPlane")
        ck.match("accessors", n, b, ck.ev(b, ["self"]).ret, w)
    b = ck.fn("angle_deg", "BPlane")
    a = app("atan2", re(br), re(bt)) * num(180) / num(__import__("math").pi)
    m = app("rem", a, num(360))
    m1 = ite(gt(m, num(180)), m - num(360), m)
    inside = [assume_bool(gt(m, num(180)), False), assume_bool(lt(m, num(-180)), False), assume_bool(gt(a, num(180)), False), assume_bool(lt(a, num(-180)), False)]
    ck.match_any("accessors", "angle", b, ck.ev(b, ["self"]).ret, [m, a], chain(default_assume, *inside))


def fieldless(ck, adtname, v):
    k, a = ck.F.adt(adtname)
    if not any(x["name"] == v for x in a["variants"]):
        raise Anchor(v)
    return adt(k, v, True, (), [])


def target(ck):
    s = S("self")
    tol = S("tol_km")
    P = lambda v: fieldless(ck, "StateParameter", v)
    for fn, args, want in (("to_objectives", ["self"], [("BdotR", "b_r_km", num(1)), ("BdotT", "b_t_km", num(1))]),
                           ("to_objectives_with_tolerance", ["self", "tol_km"], [("BdotR", "b_r_km", tol), ("BdotT", "b_t_km", tol)]),
                           ("to_all_objectives_with_tolerance", ["self", "tol_km"], [("BdotR", "b_r_km", tol), ("BdotT", "b_t_km", tol), ("BLTOF", "ltof_s", None)])):
        b = ck.fn(fn, "BPlaneTarget")
        r = ck.ev(b, args).ret
        for i, (p, f, t) in enumerate(want):
            x = index(r, num(i))
            ck.match("target", "%s, objective %d parameter" % (fn, i), b, x["parameter"], P(p))
            ck.match("target", "%s, objective %d value" % (fn, i), b, x["desired_value"], s[f])
            if t is not None:
                ck.match("target", "%s, objective %d tolerance" % (fn, i), b, x["tolerance"], t)
            ck.match("target", "%s, objective %d scale" % (fn, i), b, x["multiplicative_factor"], num(1))
            ck.match("target", "%s, objective %d offset" % (fn, i), b, x["additive_factor"], num(0))
    for fn, args, lt_ in (("from_targets", ["b_t_km", "b_r_km", "ltof"], S("ltof")), ("from_bt_br", ["b_t_km", "b_r_km"], num(0))):
        b = ck.fn(fn, "BPlaneTarget")
        r = ck.ev(b, args).ret
        ck.match("target", fn + " BT", b, r["b_t_km"], S("b_t_km"))
        ck.match("target", fn + " BR", b, r["b_r_km"], S("b_r_km"))
        ck.match("target", fn + " LTOF", b, r["ltof_s"], lt_)
        for k in ("tol_b_t_km", "tol_b_r_km"):
            ck.match("target", fn + " " + k, b, r[k], num(1e-6))


def achieve(ck):
    b = ck.fn("try_achieve_b_plane")
    o, t = S("orbit"), S("target")
    ck.vocab |= {"BPlane::new", "try_inverse"}
    r = ck.ev(b, ["orbit", "target"], opaque=("BPlane::new",))
    noltof = assume_bool(gt(absv(t["ltof_s"]), num(1e-10)), False)
    dv = [num(0)] * 3
    orb = o
    perr = None
    slice_ = [default_assume, noltof]
    for it in range(3):
        bp = okv(app("BPlane::new", orb))
        er, et = t["b_r_km"] - re(bp["b_r_km"]), t["b_t_km"] - re(bp["b_t_km"])
        cr, ct = gt(t["tol_b_r_km"], absv(er)), gt(t["tol_b_t_km"], absv(et))
        conv = chain(*(slice_ + [assume_bool(cr, True), assume_bool(ct, True)]))
        ck.match("targeting", "converged after %d corrections: delta-v" % it, b, okv(r.ret)["0"], mat(3, 1, dv), conv)
        ck.match("targeting", "converged after %d corrections: B-plane" % it, b, okv(r.ret)["1"], bp, conv)
        ck.match("targeting", "converged after %d corrections" % it, b, is_variant(r.ret, TT.RES, "Ok"), TRUE, conv)
        n = sqrt(er * er + et * et)
        # a B-plane error that does not decrease is an error
        if perr is not None:
            stuck = chain(*(slice_ + [assume_bool(band(cr, ct), False) if False else both_false(cr, ct), assume_bool(lt(n, perr), False)]))
            ck.match("targeting", "ineffective correction %d" % it, b, is_variant(r.ret, TT.RES, "Ok"), FALSE, stuck)
            slice_.append(assume_bool(lt(n, perr), True))
        slice_.append(both_false(cr, ct))
        J = [[pd(bp[f], j) for j in range(3)] for f in ("b_r_km", "b_t_km")]
        jjt = mat(2, 2, [dotv(J[i], J[j]) for i in range(2) for j in range(2)])
        iv = TT.mk("minv", jjt)
        y = [ment(iv, i, 0) * er + ment(iv, i, 1) * et for i in range(2)]
        step = [J[0][c] * y[0] + J[1][c] * y[1] for c in range(3)]
        slice_.append(invertible(jjt))
        dv = [p + q for p, q in zip(dv, step)]
        vel = orb["velocity_km_s"]
        orb = with_field(orb, "velocity_km_s", None, mat(3, 1, [ment(vel, c, 0) + step[c] for c in range(3)]))
        perr = n
    for name, yes, no in (("neither", (), ("tol_b_r_km", "tol_b_t_km")), ("only B.R", ("tol_b_r_km",), ("tol_b_t_km",)), ("only B.T", ("tol_b_t_km",), ("tol_b_r_km",))):
        def pick(a, yes=yes, no=no):
            if a.op != "pos":
                return None
            ss = set(TT.subterms(a))
            if any(t[k] in ss for k in no):
                return False
            return True if any(t[k] in ss for k in yes) else None
        ck.match("targeting", "no solution with %s within tolerance" % name, b, is_variant(r.ret, TT.RES, "Ok"), FALSE, chain(default_assume, noltof, pick))


def both_false(c, d):
    f, g = assume_bool(c, False), assume_bool(d, False)
    return chain(f, g)


def invertible(m):
    def f(a):
        if a.op == "is" and a.args[1] == "Some" and a.args[2].op == "app" and a.args[2].args[0] == "try_inverse" and same(a.args[2].args[1], m):
            return True
        return None
    return f


RULES = [("build", build), ("access", access), ("target", target), ("achieve", achieve)]
