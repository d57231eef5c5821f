"""R22: ground assets: geodetic state, velocities, Jacobian, interpolation and dynamics."""
from spec import *
import models
from r18 import when
from r17 import isome
from r20 import okp, okv, named, rename

TECHNIQUE = "gated value graphs of the ground asset's state, kinematics, Jacobian (forward-mode dual numbers evaluated symbolically), interpolation and dynamics, compared with the geodetic formulas and their symbolic derivatives"
RULE_TEXT = ["the state vector is latitude, longitude, height and their rates, then the STM in column order; setting a state from a vector is the inverse; adding a deviation is componentwise",
             "South/East/Zenith velocities in m/s and geodetic rates convert into each other with the ellipsoid's radii of curvature",
             "the Jacobian is the derivative of the Cartesian position and velocity with respect to the geodetic coordinates and rates",
             "the great circle distance is the haversine of the two assets",
             "interpolation is Hermite's on each coordinate with its own rate, on all samples, at the epoch", "the dynamics move each coordinate with its rate and propagate the STM with that linear system"]
ASSUMPTIONS = ["real-number arithmetic", "geodetic to Cartesian conversion of orbits and Hermite evaluation are anise's"]
FS = ("latitude_deg", "longitude_deg", "height_km", "latitude_rate_deg_s", "longitude_rate_deg_s", "height_rate_km_s")
me = S("self")
RAD = div(num(3.141592653589793), num(180))


def stm6(n):
    return mk("mat", 6, 6, *[S("%s%d%d" % (n, i, j)) for i in range(6) for j in range(6)])


def keeps(ck, rule, inst, b, r, d, fs):
    for f in fs:
        ck.match(rule, "%s keeps %s" % (inst, f), b, F_(r, f), F_(d, f))


def state(ck):
    b = ck.fn("to_vector", "GroundAsset")
    P = stm6("p")
    for nm, m, x in (("no STM", rec(me, stm=NONE), None), ("STM", rec(me, stm=some(P)), P)):
        v = ck.ev(b, [("self", m)]).ret
        for i, f in enumerate(FS):
            ck.match("state", "vector, %s: %s" % (nm, f), b, models.ment(v, i, 0), F_(me, f))
        for k in range(36):
            ck.match("state", "vector, %s: STM %d" % (nm, k), b, models.ment(v, 6 + k, 0), num(0) if x is None else models.ment(P, k % 6, k // 6))
    b = ck.fn("set", "GroundAsset")
    v = mk("mat", 42, 1, *[S("v%d" % i) for i in range(42)])
    for nm, m in (("no STM", rec(me, stm=NONE)), ("STM", rec(me, stm=some(P)))):
        r = ck.ev(b, [("self", m), "epoch", ("vector", v)]).final["self"]
        for i, f in enumerate(FS):
            ck.match("state", "set, %s: %s" % (nm, f), b, F_(r, f), S("v%d" % i))
        ck.match("state", "set, %s: epoch" % nm, b, F_(r, "epoch"), S("epoch"))
        ck.match("state", "set, %s: frame" % nm, b, F_(r, "frame"), F_(me, "frame"))
        ck.match("state", "set, %s: has STM" % nm, b, isome(F_(r, "stm")), TRUE if nm == "STM" else FALSE)
        if nm == "STM":
            for k in range(36):
                ck.match("state", "set: STM %d" % k, b, models.ment(field(F_(r, "stm"), "0", "Some"), k % 6, k // 6), S("v%d" % (6 + k)))
    dx = mk("mat", 6, 1, *[S("d%d" % i) for i in range(6)])
    for b in ck.F.find("add", "GroundAsset", None, one=False):
        ck.functions.add(b.id)
        r = ck.ev(b, ["self", ("dx", dx)]).ret
        nm = "add (%s)" % ("operator" if "ops::arith" in b.id else "state")
        for i, f in enumerate(FS):
            ck.match("state", "%s: %s" % (nm, f), b, F_(r, f), add(F_(me, f), S("d%d" % i)))
        keeps(ck, "state", nm, b, r, me, ("epoch", "frame", "stm"))
    for fn_, has in (("reset_stm", True), ("with_stm", True), ("unset_stm", False)):
        b = ck.fn(fn_, "GroundAsset")
        r = ck.ev(b, ["self"])
        r = r.ret if fn_ == "with_stm" else r.final["self"]
        ck.match("state", fn_ + ": set", b, isome(F_(r, "stm")), TRUE if has else FALSE)
        if has:
            for i in range(6):
                for j in range(6):
                    ck.match("state", "%s: identity %d,%d" % (fn_, i, j), b, models.ment(field(F_(r, "stm"), "0", "Some"), i, j), num(1 if i == j else 0))
        keeps(ck, "state", fn_, b, r, me, FS + ("epoch", "frame"))
    b = ck.fn("stm", "GroundAsset")
    r = ck.ev(b, ["self"]).ret
    st = F_(me, "stm")
    ck.match("state", "stm: error", b, okp(r), isome(st), assume=None)
    ck.match("state", "stm", b, when(isome(st), okv(r)), when(isome(st), field(st, "0", "Some")))
    b = ck.fn("set_epoch", "GroundAsset")
    r = ck.ev(b, ["self", "e"]).final["self"]
    ck.match("state", "set epoch", b, F_(r, "epoch"), S("e"))
    keeps(ck, "state", "set epoch", b, r, me, FS + ("frame", "stm"))
    b = ck.fn("epoch", "GroundAsset")
    ck.match("state", "epoch", b, ck.ev(b, ["self"]).ret, F_(me, "epoch"))
    b = ck.fn("frame", "GroundAsset")
    ck.match("state", "frame", b, ck.ev(b, ["self"]).ret, F_(me, "frame"))
    b = ck.fn("set_frame", "GroundAsset")
    r = ck.ev(b, ["self", "f"]).final["self"]
    ck.match("state", "set frame", b, F_(r, "frame"), S("f"))
    keeps(ck, "state", "set frame", b, r, me, FS + ("epoch", "stm"))
    b = ck.fn("from_fixed", "GroundAsset")
    r = ck.ev(b, ["lat", "lon", "alt", "e", "f"]).ret
    for f, w in zip(FS + ("epoch", "frame"), (S("lat"), S("lon"), S("alt"), num(0), num(0), num(0), S("e"), S("f"))):
        ck.match("state", "fixed asset: " + f, b, F_(r, f), w)
    b = ck.fn("to_location", "GroundAsset")
    r = ck.ev(b, ["self"]).ret
    for f in FS[:3]:
        ck.match("state", "location: " + f, b, F_(r, f), F_(me, f))
    b = ck.fn("orbit", "GroundAsset", "State")
    r = ck.ev(b, ["self"]).ret
    w = app("Orbit::try_latlongalt", *[F_(me, f) for f in FS[:3]], F_(me, "epoch"), F_(me, "frame"))
    w = rename(w, named(r, "try_latlongalt"))
    ck.match("state", "orbit", b, when(okp(w), r), when(okp(w), okv(w)))
    b = ck.fn("value", "GroundAsset")
    k, a = ck.F.adt("StateParameter")
    for el, f in (("Latitude", FS[0]), ("Longitude", FS[1]), ("Height", FS[2]), ("Declination", None), ("Rmag", None)):
        p = variant(ck, "StateParameter", "Element", **{"0": variant(ck, "OrbitalElement", el)})
        r = ck.ev(b, ["self", ("param", p)]).ret
        if f:
            ck.match("state", "value of " + el, b, r, ok(F_(me, f)))
        else:
            ck.match("state", "no value of " + el, b, okp(r), FALSE)


def curvature(a, b, lat):
    e2 = div(sub(mul(a, a), mul(b, b)), mul(a, a))
    s = app("sin", lat)
    w = sub(num(1), mul(e2, mul(s, s)))
    return div(a, sqrt(w)), w, e2


def kinematics(ck):
    o = S("orbit")
    b = ck.fn("latlongalt_rate", None)
    b2 = ck.fn("velocity_sez_from_latlongalt_rate", None)
    v = [S("s"), S("e"), S("z")]
    r = ck.ev(b, ["orbit", ("v", mk("mat", 3, 1, *v))]).ret
    lla = rename(app("Orbit::latlongalt", o), [c for c in named(r, "latlongalt")])
    rad = rename(app("Frame::mean_equatorial_radius_km", F_(o, "frame")), named(r, "mean_equatorial_radius_km"))
    a, pol = okv(rad), F_(field(F_(o, "frame", "shape"), "0", "Some"), "polar_radius_km")
    lat, alt = mul(field(okv(lla), "0"), RAD), field(okv(lla), "2")
    n, w, e2 = curvature(a, pol, lat)
    # (1 - e2 sin^2)^(3/2), in either spelling
    m = div(mul(a, sub(num(1), e2)), mul(w, sqrt(w)))
    good = band(okp(lla), okp(rad))
    p32 = lambda t: pow32(t)
    rates = [field(okv(p32(r)), str(i)) for i in range(3)]
    ck.match("kinematics", "rates: error", b, okp(r), good, assume=None)
    g = lambda t: when(good, t)
    cl = app("cos", lat)
    polar = bnot(lt(num(1e-10), absv(cl)))
    ck.match("kinematics", "latitude rate", b, g(rates[0]), g(div(div(neg(v[0]), add(m, alt)), RAD)))
    ck.match("kinematics", "longitude rate", b, g(rates[1]), g(ite(polar, num(0), div(div(v[1], mul(add(n, alt), cl)), RAD))))
    ck.match("kinematics", "height rate", b, g(rates[2]), g(v[2]))
    q = [S("q0"), S("q1"), S("q2")]
    r = p32(ck.ev(b2, ["orbit", ("a", q[0]), ("b", q[1]), ("c", q[2])]).ret)
    ck.match("kinematics", "velocity: error", b2, okp(r), good, assume=None)
    vel = [models.ment(okv(r), i, 0) for i in range(3)]
    ck.match("kinematics", "South", b2, g(vel[0]), g(mul(neg(mul(q[0], RAD)), add(m, alt))))
    ck.match("kinematics", "East", b2, g(vel[1]), g(mul(mul(mul(q[1], RAD), add(n, alt)), cl)))
    ck.match("kinematics", "Zenith", b2, g(vel[2]), g(q[2]))
    # round trip
    back = p32(ck.ev(b2, ["orbit", ("a", rates[0]), ("b", rates[1]), ("c", rates[2])]).ret)
    np = band(good, bnot(polar))
    for i in range(3):
        ck.match("kinematics", "round trip %d" % i, b2, when(np, models.ment(okv(back), i, 0)), when(np, v[i]))
    # the methods, in m/s
    OPQ = ("groundpnt::latlongalt_rate", "groundpnt::velocity_sez_from_latlongalt_rate")
    bo = ck.fn("orbit", "GroundAsset", "State")
    orb = ck.ev(bo, ["self"]).ret
    bw = ck.fn("with_velocity_sez_m_s", "GroundAsset")
    r = p32(ck.ev(bw, ["self", "s", "e", "z"]).ret)
    kk = num(Fraction(1, 1000))
    one = p32(ck.ev(b, [("orbit", orb), ("v", mk("mat", 3, 1, *[mul(kk, x) for x in v]))]).ret)
    ck.match("kinematics", "with velocity: error", bw, okp(r), okp(one), assume=None)
    for i, f in enumerate(FS[3:]):
        ck.match("kinematics", "with velocity: " + f, bw, when(okp(one), F_(okv(r), f)), when(okp(one), field(okv(one), str(i))))
    keeps(ck, "kinematics", "with velocity", bw, when(okp(one), okv(r)), when(okp(one), me), FS[:3] + ("epoch", "frame", "stm"))
    bv = ck.fn("velocity_sez_m_s", "GroundAsset")
    r = p32(ck.ev(bv, ["self"]).ret)
    tl = rename(app("Orbit::try_latlongalt", *[F_(me, f) for f in FS[:3]], F_(me, "epoch"), F_(me, "frame")), named(r, "try_latlongalt"))
    one = p32(ck.ev(b2, [("orbit", okv(tl))] + [("r%d" % i, F_(me, f)) for i, f in enumerate(FS[3:])]).ret)
    g2 = band(okp(tl), okp(one))
    ck.match("kinematics", "velocity of the asset: error", bv, okp(r), g2, assume=None)
    for i in range(3):
        ck.match("kinematics", "velocity of the asset: %d" % i, bv, when(g2, models.ment(okv(r), i, 0)), when(g2, mul(num(1000), models.ment(okv(one), i, 0))))


def pow32(t):
    """x^(3/2) = x sqrt(x)"""
    m = {}
    for x in TT.subterms(t):
        if x.op == "app" and x.args[0] == "pow" and len(x.args) == 3 and is_num(x.args[2]) and nval(x.args[2]) == Fraction(3, 2):
            m[x] = mul(x.args[1], sqrt(x.args[1]))
    return subst(t, m) if m else t


def jacobian(ck):
    b = ck.fn("geodetic_to_cartesian_jacobian", "GroundAsset")
    r = ck.ev(b, ["self"]).ret
    rad = rename(app("Frame::mean_equatorial_radius_km", F_(me, "frame")), named(r, "mean_equatorial_radius_km"))
    a, pol = okv(rad), F_(field(F_(me, "frame", "shape"), "0", "Some"), "polar_radius_km")
    q = [F_(me, f) for f in FS]
    lat, lon, h = mul(q[0], RAD), mul(q[1], RAD), q[2]
    n, w, e2 = curvature(a, pol, lat)
    sl, cl, so, co = app("sin", lat), app("cos", lat), app("sin", lon), app("cos", lon)
    pos = [mul(mul(add(n, h), cl), co), mul(mul(add(n, h), cl), so), mul(add(mul(n, sub(num(1), e2)), h), sl)]
    vel = [add(add(mul(TT.diff(x, q[0]), q[3]), mul(TT.diff(x, q[1]), q[4])), mul(TT.diff(x, q[2]), q[5])) for x in pos]
    ck.match("jacobian", "error", b, okp(r), okp(rad), assume=None)
    for i, x in enumerate(pos + vel):
        for j in range(6):
            ck.match("jacobian", "entry %d,%d" % (i, j), b, when(okp(rad), models.ment(okv(r), i, j)), when(okp(rad), TT.diff(x, q[j])))


def distance(ck):
    b = ck.fn("great_circle_distance_km", "GroundAsset")
    x, y = me, S("other")
    r = ck.ev(b, ["self", "other"]).ret
    rad = rename(app("Frame::mean_equatorial_radius_km", F_(me, "frame")), named(r, "mean_equatorial_radius_km"))
    p, q = [mul(F_(z, FS[0]), RAD) for z in (x, y)]
    dl = [div(sub(mul(F_(y, f), RAD), mul(F_(x, f), RAD)), num(2)) for f in FS[:2]]
    s1, s2 = app("sin", dl[0]), app("sin", dl[1])
    A = add(mul(s1, s1), mul(mul(app("cos", p), app("cos", q)), mul(s2, s2)))
    ck.match("distance", "error", b, okp(r), okp(rad), assume=None)
    ck.match("distance", "haversine", b, when(okp(rad), okv(r)), when(okp(rad), mul(okv(rad), mul(num(2), app("atan2", sqrt(A), sqrt(sub(num(1), A)))))))


def interpolate(ck):
    b = ck.fn("interpolate", "GroundAsset")
    for n in (2, 3):
        xs = [S("x%d" % i) for i in range(n)]
        r = ck.ev(b, ["self", "epoch", ("states", arr(*xs))]).ret
        nm = named(r, "hermite_eval")
        if len(nm) != 1:
            raise Undecidable("interpolation does not use one Hermite evaluation")
        et = lambda e: app("Epoch::to_et_seconds", e)
        H = [app(nm[0], arr(*[et(F_(x, "epoch")) for x in xs]), arr(*[F_(x, f) for x in xs]), arr(*[F_(x, g) for x in xs]), et(S("epoch"))) for f, g in zip(FS[:3], FS[3:])]
        g = band(*[okp(h) for h in H])
        ck.match("interpolation", "%d states: error" % n, b, okp(r), g, assume=None)
        for i in range(3):
            ck.match("interpolation", "%d states: %s" % (n, FS[i]), b, when(g, F_(okv(r), FS[i])), when(g, field(okv(H[i]), "0")))
            ck.match("interpolation", "%d states: %s" % (n, FS[3 + i]), b, when(g, F_(okv(r), FS[3 + i])), when(g, field(okv(H[i]), "1")))
        ck.match("interpolation", "%d states: epoch" % n, b, when(g, F_(okv(r), "epoch")), when(g, S("epoch")))
        ck.match("interpolation", "%d states: frame" % n, b, when(g, F_(okv(r), "frame")), when(g, F_(me, "frame")))


def dynamics(ck):
    b = ck.fn("dual_eom", "GroundDynamics")
    x = S("x")
    r = ck.ev(b, ["self", "dt", ("osc", x), "almanac"]).ret
    A = lambda i, j: num(1 if j == i + 3 else 0)
    fx = [F_(x, f) for f in FS[3:]] + [num(0)] * 3
    ck.match("dynamics", "gradient: error", b, okp(r), TRUE)
    for i in range(6):
        ck.match("dynamics", "derivative with gradient: %d" % i, b, models.ment(field(okv(r), "0"), i, 0), fx[i])
        for j in range(6):
            ck.match("dynamics", "gradient %d,%d" % (i, j), b, models.ment(field(okv(r), "1"), i, j), A(i, j))
    b = ck.fn("eom", "GroundDynamics")
    P = stm6("p")
    for nm, st in (("no STM", NONE), ("STM", some(P))):
        y = rec(x, stm=st)
        # the state vector and the context are the same state
        sv = mk("mat", 42, 1, *([F_(x, f) for f in FS] + [models.ment(P, k % 6, k // 6) if st is not NONE else num(0) for k in range(36)]))
        r = ck.ev(b, ["self", "dt", ("v", sv), ("ctx", y), "almanac"]).ret
        ck.match("dynamics", "%s: error" % nm, b, okp(r), TRUE)
        for i in range(6):
            ck.match("dynamics", "%s: derivative %d" % (nm, i), b, models.ment(okv(r), i, 0), fx[i])
        for k in range(36):
            i, j = k % 6, k // 6
            w = num(0)
            if st is not NONE and i < 3:
                w = models.ment(P, i + 3, j)
            ck.match("dynamics", "%s: STM derivative %d" % (nm, k), b, models.ment(okv(r), 6 + k, 0), w)


RULES = [("state", state), ("kinematics", kinematics), ("jacobian", jacobian), ("distance", distance), ("interpolation", interpolate), ("dynamics", dynamics)]
