"""R13: the spacecraft state as a vector and by parameter: layout, read, write, increment, state transition matrix."""
from spec import *
from r05 import v3, nrm

TECHNIQUE = "gated value graphs of the spacecraft state's accessors, setters, operators and constructors, one instance per state parameter variant, compared with the documented layout"
RULE_TEXT = ["to_vector / set / add use the layout [r, v, Cr, Cd, propellant mass, STM by columns], and change nothing else", "value(p) reads and set_value(p) writes exactly parameter p; unavailable or read-only parameters are errors and change nothing",
             "a missing STM stays missing, and STM (re)initialisation is the identity"]


def vec(t, a, n):
    return mat(n, 1, [t[(a + i, 0)] for i in range(n)])


def clampcr(x):
    return fmin(num(2), fmax(num(0), x))


def layout(ck):
    me = S("self")
    b = ck.fn("to_vector", "Spacecraft")
    r = ck.ev(b, ["self"]).ret
    o = me["orbit"]
    st = [o["radius_km"][(i, 0)] for i in range(3)] + [o["velocity_km_s"][(i, 0)] for i in range(3)] + [me["srp"]["coeff_reflectivity"], me["drag"]["coeff_drag"], me["mass"]["prop_mass_kg"]]
    has = is_variant(me["stm"], TT.OPT, "Some")
    stm = me["stm"][("Some", "0")]
    for i in range(90):
        sp = st[i] if i < 9 else ite(has, stm[((i - 9) % 9, (i - 9) // 9)], num(0))
        ck.match("to_vector", "component %d" % i, b, ment(r, i, 0), sp)
    b = ck.fn("set", "Spacecraft", "State")
    v = S("vector")
    r = ck.ev(b, ["self", "epoch", "vector"]).final["self"]
    full = mat(9, 9, [v[(9 + 9 * c + rr, 0)] for rr in range(9) for c in range(9)])
    put = lambda x, ep, vv, stm_: rec(x, drag=rec(x["drag"], coeff_drag=vv[(7, 0)]), mass=rec(x["mass"], prop_mass_kg=vv[(8, 0)]),
                                      orbit=rec(x["orbit"], epoch=ep, radius_km=vec(vv, 0, 3), velocity_km_s=vec(vv, 3, 3)),
                                      srp=rec(x["srp"], coeff_reflectivity=clampcr(vv[(6, 0)])), stm=stm_)
    want = put(me, S("epoch"), v, ite(has, some(full), me["stm"]))
    fields_match(ck, "set", b, r, want)
    b = ck.F.find("set_with_delta_seconds", None, None)
    if b is not None:
        r = ck.ev(b, ["self", "dt", "vector"], opaque=("State::set", "State::epoch"))
        cs = calls_to(r, "State::set")
        ck.expect(len(cs) == 1, "set", "set_with_delta_seconds sets the state once", b.where(), "%d calls" % len(cs))
        if len(cs) == 1:
            ck.match("set", "set_with_delta_seconds, epoch", b, cs[0][1][1], app("State::epoch", me) + S("dt"))
            ck.match("set", "set_with_delta_seconds, vector", b, cs[0][1][2], S("vector"))
    for ty, n in (("9", 9), ("6", 6)):
        bs = [x for x in ck.F.find("add", "Spacecraft", "Add", one=False) if ("Const<%d>" % n) in (x.locals[2][0] if isinstance(x.locals[2][0], str) else str(x.locals[2][0]))]
        if len(bs) != 1:
            ck.undecided("add", "%d components" % n, "%d candidates" % len(bs))
            continue
        b = bs[0]
        d = S("other")
        r = ck.ev(b, ["self", "other"]).ret
        x = rec(me, orbit=rec(o, radius_km=mat(3, 1, [o["radius_km"][(i, 0)] + d[(i, 0)] for i in range(3)]), velocity_km_s=mat(3, 1, [o["velocity_km_s"][(i, 0)] + d[(3 + i, 0)] for i in range(3)])))
        if n == 9:
            x = rec(x, srp=rec(me["srp"], coeff_reflectivity=clampcr(me["srp"]["coeff_reflectivity"] + d[(6, 0)])), drag=rec(me["drag"], coeff_drag=me["drag"]["coeff_drag"] + d[(7, 0)]),
                    mass=rec(me["mass"], prop_mass_kg=me["mass"]["prop_mass_kg"] + d[(8, 0)]))
        fields_match(ck, "add-%d" % n, b, r, x)


FLAT = [("orbit", "epoch"), ("orbit", "frame"), ("mass", "dry_mass_kg"), ("mass", "prop_mass_kg"), ("mass", "extra_mass_kg"), ("srp", "area_m2"), ("srp", "coeff_reflectivity"), ("drag", "area_m2"), ("drag", "coeff_drag"),
        ("thruster",), ("mode",), ("thrust_direction",)]


def fields_match(ck, rule, b, got, want, lab="", assume=default_assume):
    p = (lab + ", ") if lab else ""
    for path in FLAT:
        ck.match(rule, p + ".".join(path), b, F_(got, *path), F_(want, *path), assume)
    for f in ("radius_km", "velocity_km_s"):
        for i in range(3):
            ck.match(rule, "%sorbit.%s[%d]" % (p, f, i), b, ment(F_(got, "orbit", f), i, 0), ment(F_(want, "orbit", f), i, 0), assume)
    ck.match(rule, p + "stm presence", b, is_variant(field(got, "stm"), TT.OPT, "Some"), is_variant(field(want, "stm"), TT.OPT, "Some"), None)
    for i in range(9):
        for j in range(9):
            g, w = [ment(field(field(x, "stm"), "0", "Some"), i, j) for x in (got, want)]
            if same(g, w):
                continue
            ck.match(rule, "%sstm[%d,%d]" % (p, i, j), b, g, w, chain(assume or (lambda a: None), has_stm(S("self"))))


def has_stm(me):
    return assume_bool(is_variant(me["stm"], TT.OPT, "Some"), True)


def eye9():
    return some(mat(9, 9, [num(1 if i == j else 0) for i in range(9) for j in range(9)]))


def stm(ck):
    me = S("self")
    for nm, ret in (("with_stm", True), ("reset_stm", False), ("enable_stm", False)):
        b = ck.fn(nm, "Spacecraft")
        r = ck.ev(b, ["self"])
        fields_match(ck, "stm", b, r.ret if ret else r.final["self"], rec(me, stm=eye9()), nm)
    b = ck.fn("unset_stm", "Spacecraft")
    fields_match(ck, "stm", b, ck.ev(b, ["self"]).final["self"], rec(me, stm=TT.NONE), "unset_stm")
    b = ck.fn("stm", "Spacecraft")
    r = ck.ev(b, ["self"]).ret
    has = is_variant(me["stm"], TT.OPT, "Some")
    ck.match("stm", "read, available", b, is_variant(r, TT.RES, "Ok"), has, None)
    ck.match("stm", "read, value", b, field(r, "0", "Ok"), me["stm"][("Some", "0")], chain(default_assume, has_stm(me)))


def par(ck, n, *a):
    return variant(ck, "StateParameter", n, **({"0": a[0]} if a else {}))


def element(ck, n):
    return par(ck, "Element", variant(ck, "OrbitalElement", n))


def read(ck):
    me = S("self")
    b = ck.fn("value", "Spacecraft")
    opq = ("BPlane::new",)
    td = me["thrust_direction"]
    hastd = is_variant(td, TT.OPT, "Some")
    hasth = is_variant(me["thruster"], TT.OPT, "Some")
    th = me["thruster"][("Some", "0")]
    m = me["mass"]
    G = ck.F.adt("GuidanceMode")[0]
    direct = {"Cd": (me["drag"]["coeff_drag"], TRUE), "Cr": (me["srp"]["coeff_reflectivity"], TRUE), "DryMass": (m["dry_mass_kg"], TRUE), "PropMass": (m["prop_mass_kg"], TRUE),
              "TotalMass": (m["dry_mass_kg"] + m["prop_mass_kg"] + m["extra_mass_kg"], TRUE), "Isp": (th["isp_s"], hasth), "Thrust": (th["thrust_N"], hasth),
              "ThrustX": (td[("Some", "0")]["x"], hastd), "ThrustY": (td[("Some", "0")]["y"], hastd), "ThrustZ": (td[("Some", "0")]["z"], hastd),
              "GuidanceMode": (ite(is_variant(me["mode"], G, "Coast"), num(0), ite(is_variant(me["mode"], G, "Thrust"), num(1), num(-1))), TRUE)}
    for n, (val, good) in direct.items():
        r = ck.ev(b, ["self", ("param", par(ck, n))], opaque=opq).ret
        ck.match("value", n, b, is_variant(r, TT.RES, "Ok"), good, None)
        asm = default_assume if good is TRUE else chain(default_assume, assume_bool(good, True))
        ck.match("value", n + ", read", b, field(r, "0", "Ok"), val, asm)
    for n in ("Epoch",):
        r = ck.ev(b, ["self", ("param", par(ck, n))], opaque=opq).ret
        ck.match("value", n, b, is_variant(r, TT.RES, "Ok"), FALSE, None)
    for n, f in (("BdotR", "b_r_km"), ("BdotT", "b_t_km"), ("BLTOF", "ltof_s")):
        r = ck.ev(b, ["self", ("param", par(ck, n))], opaque=opq).ret
        bp = app("BPlane::new", me["orbit"])
        ck.match("value", n, b, is_variant(r, TT.RES, "Ok"), is_variant(bp, TT.RES, "Ok"), None)
        ck.match("value", n + ", read", b, field(r, "0", "Ok"), app("OrbitalElementPartials::real", bp[("Ok", "0")][f]), vocab=("real",))
    e = S("element")
    r = ck.ev(b, ["self", ("param", par(ck, "Element", e))], opaque=opq).ret
    ev = app("OrbitalElement::evaluate", e, me["orbit"])
    ck.match("value", "Element", b, is_variant(r, TT.RES, "Ok"), is_variant(ev, TT.RES, "Ok"), None)
    ck.match("value", "Element, read", b, field(r, "0", "Ok"), ev[("Ok", "0")])
    dcm = app("CartesianState::dcm_to_inertial", me["orbit"], S("frame"))
    d3 = mat(3, 1, [td[("Some", "0")][k] for k in "xyz"])
    R_ = dcm[("Ok", "0")]["rot_mat"]
    loc = mat(3, 1, [R_[(0, i)] * d3[(0, 0)] + R_[(1, i)] * d3[(1, 0)] + R_[(2, i)] * d3[(2, 0)] for i in range(3)])
    deg = num(180.0 / __import__("math").pi)
    ang = (app("atan2", loc[(1, 0)], loc[(0, 0)]) * deg, app("asin", loc[(2, 0)]) * deg)
    for n, a in (("ThrustInPlane", ang[0]), ("ThrustOutOfPlane", ang[1])):
        r = ck.ev(b, ["self", ("param", par(ck, n, S("frame")))], opaque=opq).ret
        ck.match("value", n, b, is_variant(r, TT.RES, "Ok"), band(hastd, is_variant(dcm, TT.RES, "Ok")), None)
        ck.match("value", n + ", read", b, field(r, "0", "Ok"), a, chain(default_assume, assume_bool(hastd, True)))
    b = ck.fn("thrust_direction", "Spacecraft")
    ck.match("thrust", "direction", b, ck.ev(b, ["self"]).ret, ite(hastd, some(d3), TT.NONE))
    b = ck.fn("mut_thrust_direction", "Spacecraft")
    r = ck.ev(b, ["self", "d"]).final["self"]
    hd = is_variant(S("d"), TT.OPT, "Some")
    dv = [S("d")[("Some", "0")][(i, 0)] for i in range(3)]
    ck.match("thrust", "set, presence", b, is_variant(field(r, "thrust_direction"), TT.OPT, "Some"), hd, None)
    for i, k in enumerate("xyz"):
        ck.match("thrust", "set, " + k, b, field(field(field(r, "thrust_direction"), "0", "Some"), k), dv[i] / nrm(dv), chain(default_assume, assume_bool(hd, True)))
    b = ck.fn("mass_kg", "Spacecraft")
    ck.match("value", "mass_kg", b, ck.ev(b, ["self"]).ret, direct["TotalMass"][0])
    bs = [x for x in ck.F.find("from", "GuidanceMode", None, one=False)]
    for b in bs:
        x = S("x")
        ck.match("mode", "from a number", b, ck.ev(b, ["x"]).ret, ite(ge(x, num(1)), variant(ck, "GuidanceMode", "Thrust"), ite(lt(x, num(0)), variant(ck, "GuidanceMode", "Inhibit"), variant(ck, "GuidanceMode", "Coast"))))


def write(ck):
    me, v = S("self"), S("val")
    b = ck.fn("set_value", "Spacecraft")
    o = me["orbit"]
    hasth = is_variant(me["thruster"], TT.OPT, "Some")
    th = me["thruster"][("Some", "0")]
    run = lambda p: ck.ev(b, ["self", ("param", p), "val"])
    simple = {"Cd": rec(me, drag=rec(me["drag"], coeff_drag=v)), "Cr": rec(me, srp=rec(me["srp"], coeff_reflectivity=v)),
              "PropMass": rec(me, mass=rec(me["mass"], prop_mass_kg=v)), "DryMass": rec(me, mass=rec(me["mass"], dry_mass_kg=v))}
    for n, w in simple.items():
        r = run(par(ck, n))
        ck.match("set_value", n, b, is_variant(r.ret, TT.RES, "Ok"), TRUE, None)
        fields_match(ck, "set_value", b, r.final["self"], w, n)
    for n, f in (("Isp", "isp_s"), ("Thrust", "thrust_N")):
        r = run(par(ck, n))
        ck.match("set_value", n, b, is_variant(r.ret, TT.RES, "Ok"), hasth, None)
        fs = r.final["self"]
        ck.match("set_value", n + ", thruster kept", b, is_variant(field(fs, "thruster"), TT.OPT, "Some"), hasth, None)
        for g in ("isp_s", "thrust_N"):
            ck.match("set_value", "%s, %s" % (n, g), b, field(field(field(fs, "thruster"), "0", "Some"), g), v if g == f else th[g], chain(default_assume, assume_bool(hasth, True)))
        fields_match(ck, "set_value", b, rec(fs, thruster=me["thruster"]), me, n)
    td = me["thrust_direction"]
    hastd = is_variant(td, TT.OPT, "Some")
    for i, n in enumerate(("ThrustX", "ThrustY", "ThrustZ")):
        r = run(par(ck, n))
        ck.match("set_value", n, b, is_variant(r.ret, TT.RES, "Ok"), TRUE, None)
        for have in (True, False):
            d = [v if j == i else (td[("Some", "0")]["xyz"[j]] if have else num(0)) for j in range(3)]
            for j in range(3):
                ck.match("set_value", "%s, %s a previous direction, %s" % (n, "with" if have else "without", "xyz"[j]), b, field(field(field(r.final["self"], "thrust_direction"), "0", "Some"), "xyz"[j]), d[j] / nrm(d), chain(default_assume, assume_bool(hastd, have)))
        fields_match(ck, "set_value", b, rec(r.final["self"], thrust_direction=td), me, n)
    ro = ["Epoch", "BdotR", "BdotT", "BLTOF", "GuidanceMode", "TotalMass"]
    for n in ro:
        r = run(par(ck, n))
        ck.match("read-only", n, b, is_variant(r.ret, TT.RES, "Ok"), FALSE, None)
        fields_match(ck, "read-only", b, r.final["self"], me, n)
    for n in ("ThrustInPlane", "ThrustOutOfPlane"):
        r = run(par(ck, n, S("frame")))
        ck.match("read-only", n, b, is_variant(r.ret, TT.RES, "Ok"), FALSE, None)
        fields_match(ck, "read-only", b, r.final["self"], me, n)
    k, a = ck.F.adt("OrbitalElement")
    names = [x["name"] for x in a["variants"]]
    cart = {"X": ("radius_km", 0), "Y": ("radius_km", 1), "Z": ("radius_km", 2), "VX": ("velocity_km_s", 0), "VY": ("velocity_km_s", 1), "VZ": ("velocity_km_s", 2)}
    kep = {"AoP": "set_aop_deg", "Eccentricity": "set_ecc", "Inclination": "set_inc_deg", "RAAN": "set_raan_deg", "SemiMajorAxis": "set_sma_km", "TrueAnomaly": "set_ta_deg"}
    for n in names:
        r = run(element(ck, n))
        fs = r.final["self"]
        if n in cart:
            f, i = cart[n]
            w = rec(me, orbit=rec(o, **{f: mat(3, 1, [v if j == i else o[f][(j, 0)] for j in range(3)])}))
            ck.match("set_value", n, b, is_variant(r.ret, TT.RES, "Ok"), TRUE, None)
            fields_match(ck, "set_value", b, fs, w, n)
        elif n in kep:
            c = "CartesianState::" + kep[n]
            res = app(c, o, v)
            ck.match("set_value", n, b, is_variant(r.ret, TT.RES, "Ok"), is_variant(res, TT.RES, "Ok"), None)
            ck.match("set_value", n + ", orbit", b, field(fs, "orbit"), app(c + "!0", o, v), None)
            fields_match(ck, "set_value", b, rec(fs, orbit=o), me, n)
        elif n in ("Rmag", "Vmag"):
            f = "radius_km" if n == "Rmag" else "velocity_km_s"
            x = [o[f][(i, 0)] for i in range(3)]
            nn = nrm(x)
            eps = num(2.0 ** -52)
            ph, te = app("acos", x[2] / nn), app("atan2", x[1], x[0])
            d = [app("sin", ph) * app("cos", te), app("sin", ph) * app("sin", te), app("cos", ph)]
            big = lambda a: (False if a.op == "pos" and same(a.args[0], sub(eps, nn)) else None)
            ck.match("set_value", n, b, is_variant(r.ret, TT.RES, "Ok"), TRUE, None)
            for i in range(3):
                sp = [ite(lt(v, eps), num(0), v * d[i]), ite(lt(v, eps), num(0), v * x[i] / nn), v * d[i], v * x[i] / nn]
                ck.match_any("set_value", "%s keeps the direction, component %d" % (n, i), b, ment(F_(fs, "orbit", f), i, 0), sp, chain(default_assume, big))
            fields_match(ck, "set_value", b, rec(fs, orbit=rec(field(fs, "orbit"), **{f: o[f]})), me, n)
        else:
            ck.match("read-only", n, b, is_variant(r.ret, TT.RES, "Ok"), FALSE, None)
            fields_match(ck, "read-only", b, fs, me, n)


def builders(ck):
    me = S("self")
    x, y = S("x"), S("y")
    m, srp, drag = me["mass"], me["srp"], me["drag"]
    for nm, args, w in (("with_dry_mass", ["x"], rec(me, mass=rec(m, dry_mass_kg=x))), ("with_prop_mass", ["x"], rec(me, mass=rec(m, prop_mass_kg=x))),
                        ("with_srp", ["x", "y"], rec(me, srp=rec(srp, area_m2=x, coeff_reflectivity=y))), ("with_srp_area", ["x"], rec(me, srp=rec(srp, area_m2=x))), ("with_cr", ["x"], rec(me, srp=rec(srp, coeff_reflectivity=x))),
                        ("with_drag", ["x", "y"], rec(me, drag=rec(drag, area_m2=x, coeff_drag=y))), ("with_drag_area", ["x"], rec(me, drag=rec(drag, area_m2=x))), ("with_cd", ["x"], rec(me, drag=rec(drag, coeff_drag=x))),
                        ("with_guidance_mode", ["x"], rec(me, mode=x)), ("with_orbit", ["x"], rec(me, orbit=x))):
        b = ck.fn(nm, "Spacecraft", "")
        fields_match(ck, "builder", b, ck.ev(b, ["self"] + args).ret, w, nm)
    b = ck.fn("mut_mode", "Spacecraft")
    fields_match(ck, "builder", b, ck.ev(b, ["self", "x"]).final["self"], rec(me, mode=x), "mut_mode")
    b = ck.fn("mode", "Spacecraft", "")
    ck.match("builder", "mode", b, ck.ev(b, ["self"]).ret, me["mode"], None)
    for nm, f in (("set_epoch", lambda: rec(me, orbit=rec(me["orbit"], epoch=x))), ("set_orbit", lambda: rec(me, orbit=x))):
        b = ck.fn(nm, "Spacecraft", "State")
        fields_match(ck, "builder", b, ck.ev(b, ["self", "x"]).final["self"], f(), nm)
    for nm, w in (("epoch", me["orbit"]["epoch"]), ("orbit", me["orbit"])):
        b = ck.fn(nm, "Spacecraft", "State")
        ck.match("builder", nm, b, ck.ev(b, ["self"]).ret, w, None)
    b = ck.fn("new", "Spacecraft")
    r = ck.ev(b, ["orbit", "dry", "prop", "sa", "da", "cr", "cd"]).ret
    for path, w in ((("orbit",), S("orbit")), (("mass", "dry_mass_kg"), S("dry")), (("mass", "prop_mass_kg"), S("prop")), (("mass", "extra_mass_kg"), num(0)), (("srp", "area_m2"), S("sa")), (("srp", "coeff_reflectivity"), S("cr")),
                    (("drag", "area_m2"), S("da")), (("drag", "coeff_drag"), S("cd")), (("thruster",), TT.NONE), (("stm",), TT.NONE), (("thrust_direction",), TT.NONE)):
        ck.match("construct", "new, " + ".".join(path), b, F_(r, *path), w)
    b = ck.fn("from_thruster", "Spacecraft")
    r = ck.ev(b, ["orbit", "dry", "prop", "th", "mode"]).ret
    for path, w in ((("orbit",), S("orbit")), (("mass", "dry_mass_kg"), S("dry")), (("mass", "prop_mass_kg"), S("prop")), (("thruster",), some(S("th"))), (("mode",), S("mode")), (("stm",), TT.NONE)):
        ck.match("construct", "from_thruster, " + ".".join(path), b, F_(r, *path), w)
    b = ck.fn("with_dv_km_s", "Spacecraft")
    r = ck.ev(b, ["self", "dv"]).ret
    o = me["orbit"]
    w = rec(me, orbit=rec(o, velocity_km_s=mat(3, 1, [o["velocity_km_s"][(i, 0)] + S("dv")[(i, 0)] for i in range(3)])))
    fields_match(ck, "builder", b, r, w, "with_dv_km_s")


def compares(ck):
    a, c = S("self"), S("other")
    b = ck.fn("eq", "Spacecraft", "PartialEq")
    r = ck.ev(b, ["self", "other"]).ret
    md = lambda f: absv(a["mass"][f] - c["mass"][f])
    tot = md("dry_mass_kg") + md("prop_mass_kg") + md("extra_mass_kg")
    ck.match("equality", "orbit, mass, SRP and drag", b, r, band(tobool(app("CartesianState::eq_within", a["orbit"], c["orbit"], num(1e-9), num(1e-12))), lt(tot, num(1e-6)), eq(a["srp"], c["srp"]), eq(a["drag"], c["drag"])))
    b = ck.fn("rss", "Spacecraft")
    r = ck.ev(b, ["self", "other"]).ret
    rr, vv = [app("CartesianState::" + n, a["orbit"], c["orbit"]) for n in ("rss_radius_km", "rss_velocity_km_s")]
    ck.match("rss", "errors", b, is_variant(r, TT.RES, "Ok"), band(is_variant(rr, TT.RES, "Ok"), is_variant(vv, TT.RES, "Ok")), None)
    v = field(r, "0", "Ok")
    ck.match("rss", "position", b, field(v, "0"), rr[("Ok", "0")])
    ck.match("rss", "velocity", b, field(v, "1"), vv[("Ok", "0")])
    dp = a["mass"]["prop_mass_kg"] - c["mass"]["prop_mass_kg"]
    ck.match_any("rss", "propellant", b, field(v, "2"), [app("sqrt", dp * dp), absv(dp)])


RULES = [("layout", layout), ("stm", stm), ("read", read), ("write", write), ("builders", builders), ("compares", compares)]
