"""R08: surface forces: solar radiation pressure and drag."""
from spec import *
from r05 import v3, nrm

TECHNIQUE = "gated value graph of the radiation pressure and drag forces, their partials and the shadow model, compared entry-wise with the force laws"
RULE_TEXT = ["SRP = Cr A lit-fraction flux/c (AU/d)^2 away from the light source; partials are its derivative and the Cr row the force over Cr", "the darkest of all shadow bodies counts, a failing one is an error",
             "drag = -1/2 rho Cd A |v| v with the density of the selected model; its partials are refused", "Cr is estimated in slot 6, Cd in slot 7, only when asked"]
CL = num(299792458)
AU = num(149597870.7)
OP = ("ShadowModel::compute",)


def sun(me, ctx, alm):
    t = app("Almanac::transform_to", alm, ctx["orbit"], me["shadow_model"]["light_source"], TT.NONE)
    c = app("ShadowModel::compute", me["shadow_model"], ctx["orbit"], alm)
    return t, c


def srp_force(me, ctx, alm):
    t, c = sun(me, ctx, alm)
    r = v3(t[("Ok", "0")]["radius_km"])
    d = nrm(r)
    lit = absv(app("Occultation::factor", c[("Ok", "0")]) - 1)
    p = lit * me["phi"] / CL * AU * AU / (d * d)
    k = num(1e-3) * ctx["srp"]["coeff_reflectivity"] * ctx["srp"]["area_m2"] * p
    return [k * x / d for x in r], r, t, c


def srp(ck):
    me, ctx, alm = S("self"), S("ctx"), S("almanac")
    f, r, t, c = srp_force(me, ctx, alm)
    oks = [is_variant(t, TT.RES, "Ok"), is_variant(c, TT.RES, "Ok")]
    b = ck.fn("eom", "SolarPressure")
    e = ck.ev(b, ["self", "ctx", "almanac"], opaque=OP)
    for i in range(3):
        ck.match("srp", "component %d" % i, b, ment(field(e.ret, "0", "Ok"), i, 0), f[i])
    ck.match("srp-errors", "eom", b, is_variant(e.ret, TT.RES, "Ok"), band(*oks), None)
    b = ck.fn("gradient", "SolarPressure")
    g = ck.ev(b, ["self", "ctx", "almanac"], opaque=OP)
    out = field(g.ret, "0", "Ok")
    for i in range(3):
        ck.match("srp-value", "component %d" % i, b, ment(field(out, "0"), i, 0), f[i])
        for j in range(3):
            ck.match("srp-partial", "[%d][%d]" % (i, j), b, ment(field(out, "1"), i, j), diff(f[i], r[j]))
        ck.match("srp-partial", "Cr, component %d" % i, b, ment(field(out, "1"), 3, i), f[i] / ctx["srp"]["coeff_reflectivity"])
    ck.match("srp-errors", "gradient", b, is_variant(g.ret, TT.RES, "Ok"), band(*oks), None)


def slots(ck):
    me = S("self")
    for ty, k in (("SolarPressure", 6), ("Drag", 7), ("ConstantDrag", 7)):
        b = ck.fn("estimation_index", ty)
        ck.match("slot", ty, b, ck.ev(b, ["self"]).ret, ite(tobool(me["estimate"]), some(num(k)), TT.NONE))


def shadow(ck):
    obs, alm = S("observer"), S("almanac")
    b = ck.fn("compute", "ShadowModel")
    for n in (0, 1, 2, 3):
        bodies = [S("b%d" % i) for i in range(n)]
        me = rec(S("self"), shadow_bodies=arr(*bodies))
        r = ck.ev(b, [("self", me), "observer", "almanac"])
        calls = [app("Almanac::solar_eclipsing", alm, x, obs, TT.NONE) for x in bodies]
        worst = num(0)
        for c in calls:
            worst = fmax(worst, c[("Ok", "0")]["percentage"])
        ck.match("shadow", "%d bodies, occultation" % n, b, field(field(r.ret, "0", "Ok"), "percentage"), worst)
        ck.match("shadow", "%d bodies, errors" % n, b, is_variant(r.ret, TT.RES, "Ok"), band(*[is_variant(c, TT.RES, "Ok") for c in calls]), None)


def drag_law(rho, ctx, v):
    n = nrm(v)
    return [num(-500) * rho * ctx["drag"]["coeff_drag"] * ctx["drag"]["area_m2"] * n * x for x in v]


def drag(ck):
    me, ctx, alm = S("self"), S("ctx"), S("almanac")
    t = app("Almanac::transform_to", alm, ctx["orbit"], me["frame"], TT.NONE)
    o = t[("Ok", "0")]
    vd = v3(o["velocity_km_s"])
    b = ck.fn("eom", "ConstantDrag")
    e = ck.ev(b, ["self", "ctx", "almanac"])
    ck.match("drag-constant", "ConstantDrag", b, e.ret, ok(mat(3, 1, drag_law(me["rho"], ctx, vd))))
    ck.match("drag-errors", "ConstantDrag", b, is_variant(e.ret, TT.RES, "Ok"), is_variant(t, TT.RES, "Ok"), None)
    b = ck.fn("eom", "Drag")
    k = "AtmDensity"
    back = app("Almanac::transform_to", alm, o, ctx["orbit"]["frame"], TT.NONE)
    re = app("Frame::mean_equatorial_radius_km", me["frame"])
    vi = [x - y for x, y in zip(v3(back[("Ok", "0")]["velocity_km_s"]), vd)]
    rm = nrm(v3(o["radius_km"]))
    alt = rm - re[("Ok", "0")]
    P = {n: S(n) for n in ("rho", "rho0", "r0", "ref_alt_m", "max_alt_m")}

    def run(v, **kw):
        d = rec(me, density=variant(ck, k, v, **kw))
        return ck.ev(b, [("self", d), "ctx", "almanac"])
    e = run("Constant", **{"0": P["rho"]})
    for i in range(3):
        ck.match("drag-constant", "Drag, component %d" % i, b, ment(field(e.ret, "0", "Ok"), i, 0), drag_law(P["rho"], ctx, vd)[i])
    e = run("Exponential", rho0=P["rho0"], r0=P["r0"], ref_alt_m=P["ref_alt_m"])
    rho = P["rho0"] * app("exp", neg(alt - P["r0"] / 1000) / (P["ref_alt_m"] / 1000))
    rec_ = P["rho0"] * app("exp", neg(alt - P["r0"]) / P["ref_alt_m"])
    for i in range(3):
        ck.match_known("drag-exponential", "component %d" % i, b, ment(field(e.ret, "0", "Ok"), i, 0), drag_law(rho, ctx, vi)[i], drag_law(rec_, ctx, vi)[i])
    allok = band(*[is_variant(z, TT.RES, "Ok") for z in (t, re, back)])
    ck.match("drag-errors", "Exponential", b, is_variant(e.ret, TT.RES, "Ok"), allok, None)
    e = run("StdAtm", max_alt_m=P["max_alt_m"])
    s = (alt - num(526.8)) / num(292.8563)
    lg = num(0)
    for c in (0.34047, -0.5889, -0.5269, 1.0036, 0.60713, -2.3024, -12.575):
        lg = lg * s + num(c)
    rho = ite(gt(alt, P["max_alt_m"] / 1000), app("pow", num(10), num(-7e-5) * alt - num(14.464)), app("pow", num(10), lg))
    for i in range(3):
        ck.match("drag-standard", "component %d" % i, b, ment(field(e.ret, "0", "Ok"), i, 0), drag_law(rho, ctx, vi)[i])
    ck.match("drag-errors", "StdAtm", b, is_variant(e.ret, TT.RES, "Ok"), allok, None)
    for ty in ("Drag", "ConstantDrag"):
        b = ck.fn("gradient", ty)
        ck.match("drag-partials-refused", ty, b, is_variant(ck.ev(b, ["self", "ctx", "almanac"]).ret, TT.RES, "Ok"), FALSE, None)


RULES = [("srp", srp), ("slots", slots), ("shadow", shadow), ("drag", drag)]
