"""R34: propagators, dynamics and force models are built with what the caller requests and the documented defaults."""
from spec import *
from r18 import when, present, nth, ABSENT

TECHNIQUE = "gated value graph of every constructor and setter on symbolic arguments; each field of the built value, and each error outcome, is compared with the request or the documented default"
RULE_TEXT = ["an options constructor stores each argument in the option of its name, keeps the documented defaults for the others, and keeps the initial step within a changed limit",
             "a propagator holds the dynamics, method and options given; its instance starts from the given state with the initial step and mode of the options and one stage buffer per stage of the method",
             "a method name, in any case, parses to its method, and any other name is refused",
             "dynamics hold the given models and guidance law, decrement the mass exactly when asked, and change nothing else",
             "force models hold the given flux, shadow bodies known to the almanac, density and frame, and are estimated exactly when asked"]
O, P, M = "IntegratorOptions", "Propagator", "IntegratorMethod"
STAGES = {"RungeKutta89": 16, "DormandPrince78": 13, "DormandPrince45": 7, "RungeKutta4": 4, "CashKarp45": 6, "Verner56": 8}
OPTS = ("init_step", "min_step", "max_step", "tolerance", "attempts", "fixed_step", "error_ctrl", "integration_frame")


def fields(ck, rule, inst, b, got, want):
    for k, v in want.items():
        g = F_(got, k)
        if v is TRUE or v is FALSE:
            g = tobool(g)
        ck.match(rule, "%s: %s" % (inst, k), b, g, v)


def defaults(ck):
    return {"init_step": num(60), "min_step": div(num(1), num(1000)), "max_step": num(2700), "tolerance": num(1e-12), "attempts": num(50), "fixed_step": FALSE,
            "error_ctrl": variant(ck, "ErrorControl", "RSSCartesianStep"), "integration_frame": NONE}


def options(ck):
    dflt = defaults(ck)
    mn, mx, tol, ec, st = [S(x) for x in ("min", "max", "tol", "ec", "step")]
    ad = dict(dflt, init_step=mx, min_step=mn, max_step=mx, tolerance=tol, error_ctrl=ec)
    # a fixed step has no error to control: only the step and the mode matter
    fx = {"init_step": st, "min_step": st, "max_step": st, "fixed_step": TRUE, "integration_frame": NONE}
    for fn, args, w in (("with_adaptive_step", ["min", "max", "tol", "ec"], ad), ("with_adaptive_step_s", ["min", "max", "tol", "ec"], ad), ("with_fixed_step", ["step"], fx), ("with_fixed_step_s", ["step"], fx),
                        ("default", [], dflt), ("with_tolerance", ["tol"], dict(dflt, tolerance=tol)), ("with_max_step", ["max"], dict(dflt, max_step=mx, init_step=fmin(mx, num(60))))):
        b = ck.fn(fn, O)
        fields(ck, "options", fn, b, ck.ev(b, args).ret, w)
    me, x = S("self"), S("x")
    for ty, top in ((O, me), (P, me["opts"])):
        for fn, w in (("set_max_step", {"max_step": x, "init_step": fmin(top["init_step"], x)}), ("set_min_step", {"min_step": x, "init_step": fmax(top["init_step"], x)})) + ((("set_tolerance", {"tolerance": x}),) if ty is P else ()):
            b = ck.fn(fn, ty)
            f = ck.ev(b, ["self", "x"]).final["self"]
            got = f if ty is O else F_(f, "opts")
            for k in OPTS:
                ck.match("options", "%s::%s: %s" % (ty, fn, k), b, F_(got, k), w.get(k, top[k]))
            if ty is P:
                for k in ("dynamics", "method"):
                    ck.match("options", "%s::%s: %s" % (ty, fn, k), b, F_(f, k), me[k])


def propagators(ck):
    dyn, o, m = S("dyn"), S("opts"), S("method")
    V = lambda n: variant(ck, M, n)
    dflt = defaults(ck)
    for fn, args, w in (("new", ["dyn", "method", "opts"], (m, o)), ("rk89", ["dyn", "opts"], (V("RungeKutta89"), o)), ("dp78", ["dyn", "opts"], (V("DormandPrince78"), o)), ("default", ["dyn"], (V("RungeKutta89"), None)), ("default_dp78", ["dyn"], (V("DormandPrince78"), None))):
        b = ck.fn(fn, P)
        r = ck.ev(b, args).ret
        fields(ck, "propagator", fn, b, r, {"dynamics": dyn, "method": w[0]})
        if w[1] is None:
            fields(ck, "propagator", fn, b, F_(r, "opts"), dflt)
        else:
            ck.match("propagator", fn + ": options", b, F_(r, "opts"), o)
    b = ck.fn("with", P)
    for nm, k in STAGES.items():
        me = rec(S("self"), method=V(nm))
        r = ck.ev(b, [("self", me), "state", "almanac"], turns=18).ret
        ck.match("instance", nm + ": one buffer per stage", b, length(F_(r, "k")), num(k))
        fields(ck, "instance", nm, b, r, {"state": S("state"), "almanac": S("almanac"), "step_size": F_(me, "opts", "init_step"), "fixed_step": tobool(F_(me, "opts", "fixed_step"))})
        ck.match("instance", nm + ": options of the propagator", b, F_(r, "prop", "opts"), me["opts"])
        ck.match("instance", nm + ": dynamics of the propagator", b, F_(r, "prop", "dynamics"), me["dynamics"])


def methods(ck):
    b = ck.fn("from_str", M, trait="FromStr")
    r = ck.ev(b, ["s"])
    alts = [app("str::to_lowercase", S("s")), app("str::to_ascii_lowercase", S("s"))]
    low = [x for x in alts if any(y is x for y in subterms(r.ret))]
    if len(low) != 1:
        raise Undecidable("the name is not compared in lower case")
    g = {n: tobool(eq(low[0], mk("str", n.lower()))) for n in STAGES}
    for n, c in g.items():
        ck.match("method", n, b, when(c, r.ret), when(c, ok(variant(ck, M, n))))
    no = bnot(bor(*g.values()))
    ck.match("method", "other names are refused", b, when(no, is_variant(r.ret, TT.RES, "Ok")), when(no, FALSE), None)


def models_(ck):
    D = "SpacecraftDynamics"
    o, g, f, c = S("o"), S("g"), S("f"), S("c")
    me = S("self")
    for fn, args, law, fm, dec in (("new", ["o"], NONE, [], TRUE), ("from_guidance_law", ["o", "g"], some(g), [], TRUE), ("from_guidance_law_no_decr", ["o", "g"], some(g), [], FALSE), ("from_model", ["o", "f"], NONE, [f], TRUE),
                                   ("from_models", ["o", ("fs", arr(S("f1"), S("f2")))], NONE, [S("f1"), S("f2")], TRUE)):
        b = ck.fn(fn, D)
        r = ck.ev(b, args).ret
        fields(ck, "dynamics", fn, b, r, {"orbital_dyn": o, "guid_law": law, "decrement_mass": dec})
        lst(ck, "dynamics", fn + ": force models", b, F_(r, "force_models"), fm)
    b = ck.fn("with_guidance_law", D)
    r = ck.ev(b, ["self", "g"]).ret
    fields(ck, "dynamics", "with_guidance_law", b, r, {"orbital_dyn": me["orbital_dyn"], "guid_law": some(g), "force_models": me["force_models"]})
    ck.match("dynamics", "with_guidance_law: decrement_mass", b, tobool(F_(r, "decrement_mass")), tobool(me["decrement_mass"]))
    D = "OrbitalDynamics"
    for fn, args, w in (("two_body", [], []), ("from_model", ["f"], [f]), ("new", [("a", arr(S("f1"), S("f2")))], [S("f1"), S("f2")])):
        b = ck.fn(fn, D)
        lst(ck, "dynamics", fn + ": models", b, F_(ck.ev(b, args).ret, "accel_models"), w)
    b = ck.fn("point_masses", D)
    r = F_(ck.ev(b, ["c"]).ret, "accel_models")
    ck.match("dynamics", "point_masses: number", b, length(r), num(1))
    fields(ck, "dynamics", "point_masses", b, index(r, num(0)), {"celestial_objects": c, "correction": NONE})
    for fn, args, k in (("new", ["c"], NONE), ("with_correction", ["c", "k"], S("k"))):
        b = ck.fn(fn, "PointMasses")
        fields(ck, "dynamics", "point masses " + fn, b, ck.ev(b, args).ret, {"celestial_objects": c, "correction": k})


def lst(ck, rule, inst, b, got, want):
    ck.match(rule, inst + ", number", b, length(got), num(len(want)))
    for i, w in enumerate(want):
        ck.match(rule, "%s, %d" % (inst, i), b, index(got, num(i)), w)


def info(eph, ori):
    return app("Almanac::frame_info", S("alm"), app("frame", num(eph), num(ori)))


def frame_info(alm, f):
    e, o = F_(f, "ephemeris_id"), F_(f, "orientation_id")
    if is_num(e) and is_num(o):
        return app("Almanac::frame_info", alm, app("frame", e, o))
    return app("Almanac::frame_info", alm, f)


def forces(ck):
    SP = "SolarPressure"
    sun = info(10, 1)
    C = {"Almanac::frame_info": frame_info}
    two = arr(S("b0"), S("b1"))
    known = [app("Almanac::frame_info", S("alm"), S(x)) for x in ("b0", "b1")]
    okd = [is_variant(k, TT.RES, "Ok") for k in known]
    for fn, args, n, phi, est in (("default_flux_raw", [("bodies", two), "alm"], 2, num(1367), TRUE), ("default_flux", ["b0", "alm"], 1, num(1367), TRUE), ("default_no_estimation", [("bodies", two), "alm"], 2, num(1367), FALSE),
                                  ("with_flux", ["flux", ("bodies", two), "alm"], 2, S("flux"), TRUE), ("new", [("bodies", two), "alm"], 2, num(1367), TRUE)):
        b = ck.fn(fn, SP)
        r = ck.ev(b, args, contract=C).ret
        ck.match("radiation pressure", fn + ": needs the Sun", b, is_variant(r, TT.RES, "Ok"), is_variant(sun, TT.RES, "Ok"), None)
        v = field(r, "0", "Ok")
        g = is_variant(sun, TT.RES, "Ok")
        ck.match("radiation pressure", fn + ": flux", b, F_(v, "phi"), phi)
        ck.match("radiation pressure", fn + ": estimation", b, tobool(F_(v, "estimate")), est)
        ck.match("radiation pressure", fn + ": light source", b, F_(v, "shadow_model", "light_source"), sun[("Ok", "0")])
        for case in range(2 ** n):
            on = [bool(case >> i & 1) for i in range(n)]
            asm = lambda a, on=on: next((on[i] for i in range(n) if a.op == "is" and same(a.args[2], known[i]) and a.args[1] == "Ok"), default_assume(a))
            want = [known[i][("Ok", "0")] for i in range(n) if on[i]]
            bodies = F_(v, "shadow_model", "shadow_bodies")
            tag = "%s, %s known" % (fn, "".join("01"[x] for x in on))
            got = present(bodies)
            for i in range(len(want) + 1):
                ck.match("radiation pressure", "%s: shadow body %d" % (tag, i), b, nth(got, i), want[i] if i < len(want) else ABSENT, asm)
    fr = info(399, 399)
    for fn, kind, vals in (("earth_exp", "Exponential", {"rho0": num(3.614e-13), "r0": num(700000), "ref_alt_m": num(88667)}), ("std_atm1976", "StdAtm", {"max_alt_m": num(1000000)})):
        b = ck.fn(fn, "Drag")
        r = ck.ev(b, ["alm"], contract=C).ret
        ck.match("drag", fn + ": needs the frame", b, is_variant(r, TT.RES, "Ok"), is_variant(fr, TT.RES, "Ok"), None)
        v = field(r, "0", "Ok")
        ck.match("drag", fn + ": frame", b, F_(v, "frame"), fr[("Ok", "0")])
        ck.match("drag", fn + ": not estimated", b, tobool(F_(v, "estimate")), FALSE)
        ck.match("drag", fn + ": density", b, F_(v, "density"), variant(ck, "AtmDensity", kind, **vals))
    b = ck.fn("cislunar", "ShadowModel")
    r = ck.ev(b, ["alm"], contract=C).ret
    ck.match("shadow", "light source", b, F_(r, "light_source"), sun[("Ok", "0")])
    lst(ck, "shadow", "bodies", b, F_(r, "shadow_bodies"), [info(399, 1)[("Ok", "0")], info(301, 1)[("Ok", "0")]])
    b = ck.fn("earth_moon_system", "SolidTides")
    r = ck.ev(b, ["earth", "moon", "alm"], contract=C)
    for em in (True, False):
        for mm in (True, False):
            def asm(a, em=em, mm=mm):
                if a.op == "is" and a.args[1] in ("Some", "None"):
                    for s, v in ((S("earth"), em), (S("moon"), mm), (sun[("Ok", "0")], True)):
                        if same(a.args[2], F_(s, "mu_km3_s2")):
                            return v == (a.args[1] == "Some")
                return default_assume(a)
            w = [S(s) if k else app("Almanac::frame_info", S("alm"), S(s))[("Ok", "0")] for s, k in (("earth", em), ("moon", mm))]
            v = field(r.ret, "0", "Ok")
            tag = "Earth %s, Moon %s" % tuple("as given" if k else "looked up" for k in (em, mm))
            ck.match("tides", tag + ": frame", b, F_(v, "frame"), w[0], asm)
            ps = F_(v, "perturbers")
            ck.match("tides", tag + ": perturbers", b, length(ps), num(2), asm)
            ck.match("tides", tag + ": Moon", b, F_(index(ps, num(0)), "frame"), w[1], asm)
            ck.match("tides", tag + ": Sun", b, F_(index(ps, num(1)), "frame"), sun[("Ok", "0")], asm)
            for i, t in ((0, TRUE), (1, FALSE)):
                ck.match("tides", "%s: degree 3 of %d" % (tag, i), b, tobool(F_(index(ps, num(i)), "compute_degree_3")), t, asm)
            ck.match("tides", tag + ": k2", b, F_(v, "k2"), num(0.3019), asm)
            ck.match("tides", tag + ": k3", b, F_(v, "k3"), num(0.093), asm)


RULES = [("options", options), ("propagator", propagators), ("method", methods), ("dynamics", models_), ("forces", forces)]
