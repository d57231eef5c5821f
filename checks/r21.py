"""R21: measurement sensitivities (the rows of the H matrix)."""
from spec import *
import models
from r18 import chain_, setof, when
from r17 import isome
from r20 import mt, okp, okv, named, rename, AER, LT

TECHNIQUE = "gated value graphs of every device's scalar sensitivity and sensitivity matrix, per measurement type, compared entry by entry with the partial derivatives of the measurement models"
RULE_TEXT = ["a range row is the unit vector from the transmitter to the receiver, a Doppler row the partials of the range rate, in the estimation frame at the receiver's epoch, zero for the parameters the measurement does not depend on",
             "ground assets: the Cartesian row times the Jacobian of the geodetic coordinates",
             "position rows are unit rows", "types a device cannot measure are refused",
             "row i of the matrix is the sensitivity of the i-th type; a type without measurement has a zero row"]
ASSUMPTIONS = ["the range of the measurement stands for the computed range, as documented", "frame transformations and azimuth/elevation/range geometry are anise's", "matrices are analysed with one to three types"]
OPQ = ("Traj::at", "GroundStation::to_orbit", "GroundAsset::geodetic_to_cartesian_jacobian")
TYPES = ("Range", "Doppler", "Azimuth", "Elevation", "ReceiveFrequency", "TransmitFrequency", "TransmitFrequencyRate", "X", "Y", "Z")


def sfn(ck, dev, rx):
    c = [b for b in ck.F.find("new", "ScalarSensitivity", None, one=False) if "ScalarSensitivityT<" in b.id]
    def ok_(b):
        a = b.id.split("ScalarSensitivityT<")[1].split(">")[0].split(",")
        return len(a) == 3 and a[1].strip().endswith(rx) and a[2].strip().endswith(dev)
    c = [b for b in c if ok_(b)]
    if len(c) != 1:
        raise Anchor("no unique sensitivity of %s for %s (%d)" % (dev, rx, len(c)))
    ck.functions.add(c[0].id)
    return c[0]


def vec(o, f):
    return [models.ment(F_(o, f), i, 0) for i in range(3)]


def minus(a, b):
    return [sub(x, y) for x, y in zip(a, b)]


def row(got, n):
    m = F_(okv(got), "sensitivity_row")
    return [models.ment(m, 0, j) for j in range(n)]


def rng_row(dr, rho):
    return [div(x, rho) for x in dr]


def dop_row(dr, dv, rho, rhod):
    return [sub(div(v, rho), div(mul(rhod, r), mul(rho, rho))) for r, v in zip(dr, dv)] + rng_row(dr, rho)


def check(ck, inst, b, got, good, want):
    ck.match("sensitivity", inst + ": refused or given", b, okp(got), good, assume=None)
    for j, w in enumerate(want):
        ck.match("sensitivity", "%s: column %d" % (inst, j), b, when(good, row(got, len(want))[j]), when(good, w))


def measured(ck, *ts):
    v = {"Range": S("rho"), "Doppler": S("rhod")}
    return rec(S("msr"), data=chain_(*[(mt(ck, t)[0], v.get(t, S("z" + t))) for t in ts]))


def scalar(ck):
    al, rx, tx = S("almanac"), S("rx"), S("tx")
    z3 = [num(0)] * 3
    rho, rhod = S("rho"), S("rhod")
    args = lambda t, m: [("msr_type", mt(ck, t)[0]), ("msr", m), ("rx", rx), ("tx", tx), ("almanac", al)]
    # ground station, spacecraft
    b = sfn(ck, "GroundStation", "Spacecraft")
    o = F_(rx, "orbit")
    loc = app("GroundStation::to_orbit", tx, F_(o, "epoch"), al)
    tr = app("Almanac::transform_to", al, okv(loc), F_(o, "frame"), NONE)
    dr, dv = [minus(vec(o, f), vec(okv(tr), f)) for f in ("radius_km", "velocity_km_s")]
    aer = app("Almanac::azimuth_elevation_range_sez", al, o, okv(loc), NONE, ite(tobool(F_(tx, "light_time_correction")), LT, NONE))
    g0 = okp(tr)
    for ms in (("Range", "Doppler"), ("Doppler",)):
        if "Range" in ms:
            got = ck.ev(b, args("Range", measured(ck, *ms)), opaque=OPQ).ret
            check(ck, "station, range", b, got, g0, rng_row(dr, rho) + z3 + z3)
        got = ck.ev(b, args("Doppler", measured(ck, *ms)), opaque=OPQ).ret
        check(ck, "station, Doppler of %d types" % len(ms), b, got, band(g0, okp(loc), okp(aer)), dop_row(dr, dv, F_(okv(aer), "range_km"), rhod) + z3)
    # angles: the partials of the topocentric angles, in degrees
    for t in ("Azimuth", "Elevation"):
        got = ck.ev(b, args(t, measured(ck, t)), opaque=OPQ).ret
        ck.match("sensitivity", "station, %s: refused or given" % t, b, okp(got), g0, assume=None)
        x, y, z = dr
        h2 = add(mul(x, x), mul(y, y))
        r2 = add(h2, mul(z, z))
        n2 = mul(sqrt(r2), sqrt(r2))
        if t == "Azimuth":
            old = [div(neg(y), h2), div(x, h2), num(0)]
        else:
            den = mul(n2, sqrt(sub(n2, mul(z, z))))
            old = [div(neg(mul(x, z)), den), div(neg(mul(y, z)), den), div(sqrt(h2), n2)]
        for j in range(3):
            w = app("partial of the topocentric angle in degrees", mk("str", t), num(j), o, okv(tr))
            ck.match_known("sensitivity", "station, %s: column %d" % (t, j), b, when(g0, row(got, 9)[j]), when(g0, w), when(g0, old[j]))
        for j in range(3, 9):
            ck.match("sensitivity", "station, %s: column %d" % (t, j), b, when(g0, row(got, 9)[j]), num(0))
    for t in TYPES[4:]:
        got = ck.ev(b, args(t, measured(ck, t)), opaque=OPQ).ret
        ck.match("sensitivity", "station, %s: refused" % t, b, okp(got), FALSE)
    # link, spacecraft
    b = sfn(ck, "InterlinkTxSpacecraft", "Spacecraft")
    at = app("Traj::at", F_(tx, "traj"), F_(o, "epoch"))
    tr = app("Almanac::transform_to", al, F_(okv(at), "orbit"), F_(o, "frame"), F_(tx, "ab_corr"))
    dr, dv = [minus(vec(o, f), vec(okv(tr), f)) for f in ("radius_km", "velocity_km_s")]
    g0 = okp(tr)
    both = measured(ck, "Doppler", "Range")
    for t, w in (("Range", rng_row(dr, rho) + z3 + z3), ("Doppler", dop_row(dr, dv, rho, rhod) + z3)):
        got = ck.ev(b, args(t, both), opaque=OPQ).ret
        check(ck, "link, " + t, b, got, g0, w)
    for t, m in (("Range", ("Doppler",)), ("Doppler", ("Range",)), ("Doppler", ("Doppler",))):
        got = ck.ev(b, args(t, measured(ck, *m)), opaque=OPQ).ret
        ck.match("sensitivity", "link, %s given only %s: refused" % (t, m[0]), b, okp(got), FALSE)
    for t in TYPES[2:]:
        got = ck.ev(b, args(t, measured(ck, t)), opaque=OPQ).ret
        ck.match("sensitivity", "link, %s: refused" % t, b, okp(got), FALSE)
    # link, ground asset
    b = sfn(ck, "InterlinkTxSpacecraft", "GroundAsset")
    bo = ck.fn("orbit", "GroundAsset", "State")
    me = ck.ev(bo, [("self", rx)]).ret
    at = app("Traj::at", F_(tx, "traj"), F_(me, "epoch"))
    tr = app("Almanac::transform_to", al, F_(okv(at), "orbit"), F_(me, "frame"), NONE)
    jac = app("GroundAsset::geodetic_to_cartesian_jacobian", rx)
    dr, dv = [minus(vec(me, f), vec(okv(tr), f)) for f in ("radius_km", "velocity_km_s")]
    bl = ck.fn("to_location", "GroundAsset")
    locn = ck.ev(bl, [("self", rx)]).ret
    g0 = band(okp(at), okp(tr), okp(jac))

    def through(w):
        out = []
        for j in range(6):
            s = num(0)
            for i in range(6):
                s = add(s, mul(w[i], models.ment(okv(jac), i, j)))
            out.append(s)
        return out
    for nm, t, m, w, g in (("range", "Range", ("Range",), rng_row(dr, rho) + z3, g0), ("Doppler", "Doppler", ("Range", "Doppler"), dop_row(dr, dv, rho, rhod), g0), ("Doppler alone", "Doppler", ("Doppler",), None, g0)):
        got = ck.ev(b, args(t, measured(ck, *m)), opaque=OPQ).ret
        if w is None:
            ae = [app(AER, al, x, locn, NONE, NONE) for x in (F_(okv(at), "orbit"), okv(tr))]
            # the range is the same whichever frame the transmitter is given in
            got = subst(got, {ae[1]: ae[0]})
            w, g = dop_row(dr, dv, F_(okv(ae[0]), "range_km"), rhod), band(g0, okp(ae[0]))
        check(ck, "ground asset, " + nm, b, got, g, through(w))
    for t in TYPES[2:]:
        got = ck.ev(b, args(t, measured(ck, t)), opaque=OPQ).ret
        ck.match("sensitivity", "ground asset, %s: refused" % t, b, okp(got), FALSE)
    # position device
    b = sfn(ck, "PositionDevice", "Spacecraft")
    for t in TYPES:
        got = ck.ev(b, args(t, measured(ck, t)), opaque=OPQ).ret
        if t in "XYZ":
            check(ck, "position, " + t, b, got, TRUE, [num(1 if j == "XYZ".index(t) else 0) for j in range(9)])
        else:
            ck.match("sensitivity", "position, %s: refused" % t, b, okp(got), FALSE)


def matrix(ck):
    al, rx = S("almanac"), S("rx")
    for dev, rxt, n, ts in (("GroundStation", "Spacecraft", 9, ("Range", "Doppler")), ("InterlinkTxSpacecraft", "Spacecraft", 9, ("Doppler", "Range")), ("InterlinkTxSpacecraft", "GroundAsset", 6, ("Range", "Doppler")),
                            ("PositionDevice", "Spacecraft", 9, ("Z", "X", "Y"))):
        c = [b for b in ck.F.find("h_tilde", dev, None, one=False) if b.id.split("TrackerSensitivity<")[1].split(",")[0].endswith(rxt)]
        if len(c) != 1:
            raise Anchor("no unique h_tilde of %s for %s" % (dev, rxt))
        b = c[0]
        ck.functions.add(b.id)
        sb = sfn(ck, dev, rxt)
        types = mt(ck, *ts)
        for k in range(len(ts) + 1):
            have = [t for i, t in enumerate(ts) if i != k]
            m = measured(ck, *have)
            got = ck.ev(b, [("self", S("self")), ("msr", m), ("msr_types", setof(*types)), ("rx", rx), ("almanac", al)], opaque=OPQ, subst={"M": "nalgebra::base::dimension::Const<%d>" % len(ts)}).ret
            g, rows = TRUE, {}
            for i, t in enumerate(types):
                if i != k:
                    r = ck.ev(sb, [("msr_type", t), ("msr", m), ("rx", rx), ("tx", S("self")), ("almanac", al)], opaque=OPQ).ret
                    g = band(g, okp(r))
                    rows[i] = row(r, n)
            lab = "%s for %s, %s" % (dev, rxt, "without " + ts[k] if k < len(ts) else "all types")
            ck.match("matrix", lab + ": error", b, okp(got), g, assume=None)
            for i in range(len(ts)):
                for j in range(n):
                    w = rows[i][j] if i in rows else num(0)
                    ck.match("matrix", "%s: entry %d,%d" % (lab, i, j), b, when(g, models.ment(okv(got), i, j)), when(g, w))


RULES = [("sensitivity", scalar), ("matrix", matrix)]
