"""R11: finite maneuvers and thrust replay: when they thrust, how much and in which direction."""
from spec import *
from r05 import v3, nrm

TECHNIQUE = "gated value graphs of the maneuver and replay guidance laws (direction, throttle, mode update, set-up and read-back), compared with their definition; profiles of 0..3 samples with symbolic query epoch"
RULE_TEXT = ["a maneuver thrusts from start to end inclusive, at its throttle, along its vector (fixed or right-ascension/declination polynomials of the time since start) rotated from its frame", "a replay holds the last command at or before the epoch, and never thrusts outside the profile",
             "setting direction, rate and acceleration yields the polynomial with these coefficients, or an error and no change"]


def mode(ck, v):
    return variant(ck, "GuidanceMode", v)


def poly(ck, v, **kw):
    return variant(ck, "CommonPolynomial", v, **kw)


def peval(kind, c, t):
    if kind == "Constant":
        return c["a"]
    if kind == "Linear":
        return c["a"] * t + c["b"]
    return (c["a"] * t + c["b"]) * t + c["c"]


KINDS = {"Constant": "a", "Linear": "ab", "Quadratic": "abc"}


def radec(al, de):
    c = app("cos", de)
    return mat(3, 1, [c * app("cos", al), c * app("sin", al), app("sin", de)])


def maneuvers(ck):
    """(label, self, vector at t since start, direction at start, rate, accel)"""
    me = S("self")
    v = mat(3, 1, [S("vx"), S("vy"), S("vz")])
    n = nrm([S("vx"), S("vy"), S("vz")])
    z = mat(3, 1, [num(0)] * 3)
    yield "vector", rec(me, representation=variant(ck, "MnvrRepr", "Vector", **{"0": v})), lambda t: v, mat(3, 1, [S(k) / n for k in ("vx", "vy", "vz")]), z, z
    for k1, k2 in (("Constant", "Constant"), ("Linear", "Linear"), ("Quadratic", "Quadratic"), ("Linear", "Quadratic"), ("Quadratic", "Linear")):
        a = {x: S("az_" + x) for x in KINDS[k1]}
        e = {x: S("el_" + x) for x in KINDS[k2]}
        m = rec(me, representation=variant(ck, "MnvrRepr", "Angles", azimuth=poly(ck, k1, **a), elevation=poly(ck, k2, **e)))
        order = lambda c, k, j: (c[KINDS[k][::-1][j]] if j < len(KINDS[k]) else None)
        der = []
        for j in (0, 1, 2):
            x, y = order(a, k1, j), order(e, k2, j)
            der.append(z if x is None else (radec(x, y) if y is not None else None))
        yield "%s/%s angles" % (k1.lower(), k2.lower()), m, (lambda t, a=a, e=e, k1=k1, k2=k2: radec(peval(k1, a, t), peval(k2, e, t))), der[0], der[1], der[2]


def mnvr(ck):
    sc = S("sc")
    ep = sc["orbit"]["epoch"]
    bd = ck.fn("direction", "Maneuver", "GuidanceLaw")
    for lab, m, vec, d0, d1, d2 in maneuvers(ck):
        b = ck.fn("vector", "Maneuver")
        ck.match("vector", lab, b, ck.ev(b, [("self", m), "epoch"]).ret, vec(S("epoch") - m["start"]))
        for fr in ("Inertial", "RCN", "VNC", "RIC"):
            fv = variant(ck, "LocalFrame", fr)
            mm = rec(m, frame=fv)
            r = ck.ev(bd, [("self", mm), "sc"])
            x = vec(ep - m["start"])
            dcm = app("CartesianState::dcm_to_inertial", sc["orbit"], fv)
            th = is_variant(sc["mode"], ck.F.adt("GuidanceMode")[0], "Thrust")
            if fr == "Inertial":
                spec = ite(th, ok(x), ok(mat(3, 1, [num(0)] * 3)))
            else:
                spec = ite(th, ok(rotated(dcm[("Ok", "0")], x)), ok(mat(3, 1, [num(0)] * 3)))
            ck.match("direction", "%s in %s" % (lab, fr), bd, r.ret, spec)
            good = TRUE if fr == "Inertial" else bor(bnot(th), is_variant(dcm, TT.RES, "Ok"))
            ck.match("direction-errors", "%s in %s" % (lab, fr), bd, is_variant(r.ret, TT.RES, "Ok"), good, None)
        for nm, sp in (("direction", d0), ("rate", d1), ("accel", d2)):
            if sp is None:
                continue
            b = ck.fn(nm, "Maneuver", "")
            ck.match("read-back", "%s, %s" % (nm, lab), b, ck.ev(b, [("self", m)]).ret, sp)
    G = ck.F.adt("GuidanceMode")[0]
    b = ck.fn("throttle", "Maneuver", "GuidanceLaw")
    ck.match("throttle", "maneuver", b, ck.ev(b, ["self", "sc"]).ret, ok(ite(is_variant(sc["mode"], G, "Thrust"), S("self")["thrust_prct"], num(0))))
    b = ck.fn("next", "Maneuver", "GuidanceLaw")
    r = ck.ev(b, ["self", "sc", "almanac"])
    me = S("self")
    ck.match("window", "maneuver", b, r.final["sc"], rec(sc, mode=ite(band(ge(ep, me["start"]), le(ep, me["end"])), mode(ck, "Thrust"), mode(ck, "Coast"))))
    b = ck.fn("duration", "Maneuver")
    ck.match("window", "duration", b, ck.ev(b, ["self"]).ret, me["end"] - me["start"])
    b = ck.fn("antichronological", "Maneuver")
    d = me["end"] - me["start"]
    u = num(1e-6)
    ck.match("window", "antichronological", b, ck.ev(b, ["self"]).ret, band(gt(absv(d), u), lt(d, u)), exclude=not_equal(d, neg(u)))
    b = ck.fn("from_time_invariant", "Maneuver")
    r = ck.ev(b, ["start", "end", "lvl", "vector", "frame"])
    k, a = ck.F.adt("Maneuver")
    v = mat(3, 1, [S("vector")[(i, 0)] for i in range(3)])
    for f, sp in (("start", S("start")), ("end", S("end")), ("thrust_prct", S("lvl")), ("representation", variant(ck, "MnvrRepr", "Vector", **{"0": v})), ("frame", S("frame"))):
        ck.match("construct", f, b, field(r.ret, f), sp)


def setters(ck):
    b = ck.fn("set_direction_and_rates", "Maneuver")
    r = ck.ev(b, ["self", "dir", "rate", "accel"])
    me = S("self")
    eps = num(2.0 ** -52)
    D, R, A = [[S(n)[(i, 0)] for i in range(3)] for n in ("dir", "rate", "accel")]
    ang = lambda v: (app("atan2", v[1], v[0]), app("asin", v[2]))
    nan = lambda v: bor(*[batom(app("is_nan", x)) for x in ang(v)])
    small = lambda v: lt(nrm(v), eps)
    setr = lambda x: rec(me, representation=x)
    angs = lambda kind, **kw: variant(ck, "MnvrRepr", "Angles", azimuth=poly(ck, kind, **{k: ang(v)[0] for k, v in kw.items()}), elevation=poly(ck, kind, **{k: ang(v)[1] for k, v in kw.items()}))
    lin_ = setr(angs("Linear", a=R, b=D))
    quad = setr(angs("Quadratic", a=A, b=R, c=D))
    bad = bor(nan(D), nan(R), band(bnot(small(A)), nan(A)))
    fixed = band(small(R), small(A))
    ck.match("set", "state", b, r.final["self"], ite(fixed, setr(variant(ck, "MnvrRepr", "Vector", **{"0": mat(3, 1, D)})), ite(bad, me, ite(small(A), lin_, quad))))
    ck.match("set-errors", "set_direction_and_rates", b, is_variant(r.ret, TT.RES, "Ok"), bor(fixed, bnot(bad)), None)
    op = ("Maneuver::set_direction_and_rates",)
    d0 = ck.ev(ck.fn("direction", "Maneuver", ""), ["self"]).ret
    rt = ck.ev(ck.fn("rate", "Maneuver"), ["self"]).ret
    ac = ck.ev(ck.fn("accel", "Maneuver"), ["self"]).ret
    v = lambda n: mat(3, 1, [S(n)[(i, 0)] for i in range(3)])
    for nm, want in (("set_direction", (v("x"), rt, ac)), ("set_rate", (d0, v("x"), ac)), ("set_accel", (d0, rt, v("x")))):
        b = ck.fn(nm, "Maneuver")
        q = ck.ev(b, ["self", "x"], opaque=op)
        cs = calls_to(q, "Maneuver::set_direction_and_rates")
        if len(cs) != 1:
            ck.undecided("set-one", nm, "%d calls" % len(cs))
            continue
        for i, w in enumerate(want):
            got = cs[0][1][i + 1]
            for j in range(3):
                ck.match("set-one", "%s, argument %d[%d]" % (nm, i, j), b, ment(got, j, 0), ment(w, j, 0))


def helpers(ck):
    for nm in ("ra_dec_from_unit_vector", "plane_angles_from_unit_vector"):
        b = ck.fn(nm)
        v = [S("v")[(i, 0)] for i in range(3)]
        ck.match("angles", nm, b, ck.ev(b, ["v"]).ret, mk("agg", ("tuple",), app("atan2", v[1], v[0]), app("asin", v[2])))
    b = ck.fn("unit_vector_from_ra_dec")
    ck.match("angles", "unit_vector_from_ra_dec", b, ck.ev(b, ["al", "de"]).ret, radec(S("al"), S("de")))
    b = ck.fn("unit_vector_from_plane_angles")
    c = app("cos", S("be"))
    ck.match("angles", "unit_vector_from_plane_angles", b, ck.ev(b, ["al", "be"]).ret, mat(3, 1, [app("sin", S("al")) * c, app("cos", S("al")) * c, app("sin", S("be"))]))
    b = ck.fn("exhaust_velocity_m_s", "Thruster")
    ck.match("thruster", "exhaust velocity", b, ck.ev(b, ["self"]).ret, S("self")["isp_s"] * num(9.80665))
    for nm in ("eval", "deriv"):
        b = ck.fn(nm, "CommonPolynomial")
        for k, cs in KINDS.items():
            c = {x: S(x) for x in cs}
            want = peval(k, c, S("x"))
            if nm == "deriv":
                want = diff(want, S("x"))
            ck.match("polynomial", "%s %s" % (nm, k), b, ck.ev(b, [("self", poly(ck, k, **c)), "x"]).ret, want)
    b = ck.fn("coeff_in_order", "CommonPolynomial")
    for k, cs in KINDS.items():
        c = {x: S(x) for x in cs}
        for j in range(4):
            r = ck.ev(b, [("self", poly(ck, k, **c)), ("order", num(j))]).ret
            if j < len(cs):
                ck.match("polynomial", "%s coefficient %d" % (k, j), b, r, ok(c[cs[::-1][j]]))
            else:
                ck.match("polynomial", "%s coefficient %d" % (k, j), b, is_variant(r, TT.RES, "Ok"), FALSE, None)


def replay(ck):
    G = ck.F.adt("GuidanceMode")[0]
    sc = S("sc")
    t = sc["orbit"]["epoch"]
    for n in (1, 2, 3):
        smp = [rec(S("s%d" % i), orbit=rec(S("o%d" % i), epoch=num(10 * i))) for i in range(n)]
        me = rec(S("self"), profile=rec(S("p"), states=arr(*smp)))
        has = [is_variant(s["thrust_direction"], TT.OPT, "Some") for s in smp]
        dirs = [mat(3, 1, [s["thrust_direction"][("Some", "0")][c] for c in "xyz"]) for s in smp]
        thr = [is_variant(s["mode"], G, "Thrust") for s in smp]
        # last command at or before t; a thrusting sample without a command takes the next one, if the profile starts thrusting
        cmd = TT.NONE
        nxt = TT.NONE
        for i in reversed(range(n)):
            nxt = ite(band(ge(num(10 * i), t), has[i]), some(dirs[i]), nxt)
        for i in range(n):
            here = ite(has[i], some(dirs[i]), ite(bnot(thr[i]), TT.NONE, ite(thr[0], nxt, TT.NONE)))
            cmd = ite(ge(t, num(10 * i)), here, cmd)
        cmd = ite(bor(lt(t, num(0)), gt(t, num(10 * (n - 1)))), TT.NONE, cmd)
        on = is_variant(cmd, TT.OPT, "Some")
        u = field(cmd, "0", "Some")
        b = ck.fn("direction", "ThrustDirectionReplay", "GuidanceLaw")
        r = ck.ev(b, [("self", me), "sc"]).ret
        for j in range(3):
            ck.match("replay", "%d samples, direction %d" % (n, j), b, ment(field(r, "0", "Ok"), j, 0), ite(on, ment(u, j, 0), num(0)))
        b = ck.fn("throttle", "ThrustDirectionReplay", "GuidanceLaw")
        ck.match("replay", "%d samples, throttle" % n, b, ck.ev(b, [("self", me), "sc"]).ret, ok(ite(on, num(1), num(0))))
        b = ck.fn("next", "ThrustDirectionReplay", "GuidanceLaw")
        f = ck.ev(b, [("self", me), "sc", "almanac"]).final["sc"]
        ck.match("replay", "%d samples, mode" % n, b, field(f, "mode"), ite(on, mode(ck, "Thrust"), mode(ck, "Coast")))
        td = field(f, "thrust_direction")
        ck.match("replay", "%d samples, commanded" % n, b, is_variant(td, TT.OPT, "Some"), on)
        ul = nrm([ment(u, j, 0) for j in range(3)])
        for j, c in enumerate("xyz"):
            ck.match("replay", "%d samples, commanded %s" % (n, c), b, ite(is_variant(td, TT.OPT, "Some"), field(field(td, "0", "Some"), c), num(0)), ite(on, ment(u, j, 0) / ul, num(0)))
        b = ck.fn("achieved", "ThrustDirectionReplay", "GuidanceLaw")
        ck.match("replay", "%d samples, achieved" % n, b, ck.ev(b, [("self", me), "sc"]).ret, ok(gt(t, num(10 * (n - 1)))))
    me = rec(S("self"), profile=rec(S("p"), states=arr()))
    b = ck.fn("throttle", "ThrustDirectionReplay", "GuidanceLaw")
    ck.match("replay", "empty profile", b, ck.ev(b, [("self", me), "sc"]).ret, ok(num(0)))


RULES = [("maneuver", mnvr), ("setters", setters), ("helpers", helpers), ("replay", replay)]
