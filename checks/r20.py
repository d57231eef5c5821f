"""R20: tracking devices: what they measure, when, and with which noise."""
from spec import *
import models
from r18 import chain_, setof, when
from r17 import isome

TECHNIQUE = "gated value graphs of every tracking device's measurement, noise, covariance and location functions, on a symbolic trajectory, almanac and generator, compared with the measurement models"
RULE_TEXT = ["a device measures the states at the epoch (and one integration time before it), only when both are in the trajectory, in view and not obstructed",
             "each measurement carries the device's name, the epoch shifted by the timestamp noise, and every configured type once, with the noise drawn for that type",
             "without a generator there is no noise; with one, each type draws from its own configured noise, which keeps its history",
             "the covariance and bias of a type are those of its configured noise",
             "stations are located and configured as asked"]
ASSUMPTIONS = ["the geometry (azimuth, elevation, range, line of sight, frame transformations) is anise's", "devices are analysed with two and three measurement types in any order"]
LT = mk("const", "anise::astro::aberration::Aberration::LT")
AER = "Almanac::azimuth_elevation_range_sez_from_location"
COMP = {"Range": "range_km", "Doppler": "range_rate_km_s", "Azimuth": "azimuth_deg", "Elevation": "elevation_deg"}
OPQ = ("Traj::at", "StochasticNoise::sample", "StochasticNoise::covariance", "AzElRange::elevation_above_mask_deg", "AzElRange::is_obstructed")


def okp(x):
    return is_variant(x, TT.RES, "Ok")


def okv(x):
    return field(x, "0", "Ok")


def sv(x):
    return field(x, "0", "Some")


def mt(ck, *ns):
    return [variant(ck, "MeasurementType", n) for n in ns]


def device(ck, ts, **kw):
    """A device measuring the types ts, each with its own noise, plus the timestamp noise `nt`."""
    return rec(S("self"), measurement_types=setof(*ts), stochastic_noises=some(chain_(*[(t, S("n%d" % i)) for i, t in enumerate(ts)])), timestamp_noise_s=some(S("nt")), **kw)


def smp(n, e, rng=None):
    return app("StochasticNoise::sample", n, e, S("rng"))


def after(n, e):
    return app("StochasticNoise::sample!0", n, e, S("rng"))


def noises(ck):
    for base_, tr in (("GroundStation", None), ("InterlinkTxSpacecraft", None)):
        b = ck.fn("noises", base_)
        ts = mt(ck, "Doppler", "Range")
        d = device(ck, ts)
        e = S("epoch")
        r = ck.ev(b, [("self", d), ("epoch", e), ("rng", NONE)], opaque=OPQ)
        ck.vocab |= {"StochasticNoise::sample"}
        ck.match("noises", base_ + ", no generator: given", b, okp(r.ret), TRUE)
        ck.match("noises", base_ + ", no generator: number", b, length(okv(r.ret)), num(3))
        for i in range(3):
            ck.match("noises", "%s, no generator: %d" % (base_, i), b, index(okv(r.ret), num(i)), num(0))
        for i in range(2):
            ck.match("noises", "%s, no generator: noise %d is kept" % (base_, i), b, models.map_get(sv(F_(r.final["self"], "stochastic_noises")), ts[i]), some(S("n%d" % i)))
        r = ck.ev(b, [("self", d), ("epoch", e), ("rng", some(S("rng")))], opaque=OPQ)
        v = okv(r.ret)
        ck.match("noises", base_ + ": given", b, okp(r.ret), TRUE)
        ck.match("noises", base_ + ": number", b, length(v), num(3))
        ck.match("noises", base_ + ": timestamp", b, index(v, num(0)), smp(S("nt"), e))
        ck.match("noises", base_ + ": timestamp noise keeps its history", b, F_(r.final["self"], "timestamp_noise_s"), some(after(S("nt"), e)))
        for i in range(2):
            ck.match("noises", "%s: type %d" % (base_, i), b, index(v, num(i + 1)), smp(S("n%d" % i), e))
            ck.match("noises", "%s: type %d keeps its history" % (base_, i), b, models.map_get(sv(F_(r.final["self"], "stochastic_noises")), ts[i]), some(after(S("n%d" % i), e)))
        r = ck.ev(b, [("self", rec(d, timestamp_noise_s=NONE)), ("epoch", e), ("rng", some(S("rng")))], opaque=OPQ)
        ck.match("noises", base_ + ": no timestamp noise", b, index(okv(r.ret), num(0)), num(0))
        r = ck.ev(b, [("self", rec(d, stochastic_noises=NONE)), ("epoch", e), ("rng", some(S("rng")))], opaque=OPQ)
        ck.match("noises", base_ + ": nothing configured", b, okp(r.ret), FALSE)
        d2 = rec(d, stochastic_noises=some(chain_((ts[0], S("n0")))))
        r = ck.ev(b, [("self", d2), ("epoch", e), ("rng", some(S("rng")))], opaque=OPQ)
        ck.match("noises", base_ + ": a type without noise", b, okp(r.ret), FALSE)


def statistics(ck):
    for base_, trait, d in (("GroundStation", None, False), ("InterlinkTxSpacecraft", "Spacecraft", False), ("InterlinkTxSpacecraft", "GroundAsset", False), ("PositionDevice", None, True)):
        ts = mt(ck, "Range", "Doppler", "X")
        dev = rec(device(ck, ts[:2]), stochastic_noises=some(chain_((ts[0], S("n0")), (ts[1], S("n1")))))
        nm = base_ + (" for %s" % trait if trait else "")
        for i, t in enumerate(ts):
            b = dfn(ck, "measurement_covar", base_, trait)
            r = ck.ev(b, [("self", dev), ("msr_type", t), ("epoch", S("e"))], opaque=OPQ).ret
            b2 = dfn(ck, "measurement_bias", base_, trait)
            r2 = ck.ev(b2, [("self", dev), ("msr_type", t), ("epoch", S("e"))], opaque=OPQ).ret
            if i < 2:
                n = S("n%d" % i)
                ck.match("statistics", "%s: covariance of type %d" % (nm, i), b, r, ok(app("StochasticNoise::covariance", n, S("e"))))
                g, c = F_(n, "bias"), F_(sv(F_(n, "bias")), "constant")
                ck.match("statistics", "%s: bias of type %d" % (nm, i), b2, r2, ok(ite(band(isome(g), isome(c)), sv(c), num(0))))
            else:
                ck.match("statistics", "%s: covariance of an unconfigured type" % nm, b, okp(r), FALSE)
                ck.match("statistics", "%s: bias of an unconfigured type" % nm, b2, okp(r2), FALSE)


def dfn(ck, name, base_, rx=None):
    """The device's implementation for one kind of receiver."""
    c = [b for b in ck.F.find(name, base_, "TrackingDevice", one=False)]
    if rx:
        c = [b for b in c if "TrackingDevice<" in b.id and b.id.split("TrackingDevice<")[1].split(">")[0].endswith(rx)]
    if len(c) != 1:
        raise Anchor("no unique %s::%s (%d)" % (base_, name, len(c)))
    ck.functions.add(c[0].id)
    return c[0]


def same_msr(ck, rule, inst, b, got, ok_, absent, name, epoch, vals):
    a = at_epoch
    same_msr_(ck, rule, inst, b, a(got), a(ok_), a(absent), a(name), a(epoch), [(n, t, a(v)) for n, t, v in vals])


def same_msr_(ck, rule, inst, b, got, ok_, absent, name, epoch, vals):
    """got: Result<Option<Measurement>>; ok_: no error; absent: nothing is measured (given ok_)."""
    ck.match(rule, inst + ": error", b, okp(got), ok_, assume=None)
    o = okv(got)
    ck.match(rule, inst + ": measured", b, when(ok_, isome(o)), when(ok_, bnot(absent)), assume=None)
    g = band(ok_, bnot(absent))
    m = sv(o)
    ck.match(rule, inst + ": name", b, when(g, F_(m, "tracker")), when(g, name))
    ck.match(rule, inst + ": epoch", b, when(g, F_(m, "epoch")), when(g, epoch))
    ck.match(rule, inst + ": not rejected", b, when(g, tobool(F_(m, "rejected"))), when(g, FALSE))
    for nm, t, v in vals:
        ck.match(rule, "%s: %s" % (inst, nm), b, when(g, models.map_get(F_(m, "data"), t)), when(g, some(v)))


def ground(ck):
    al = S("almanac")
    for ts_ in (("Range", "Doppler"), ("Elevation", "Range", "Azimuth")):
        ts = mt(ck, *ts_)
        d = device(ck, ts)
        lab = "station " + ", ".join(ts_)

        def aer(x, rx):
            fr = F_(rx, "orbit", "frame")
            obs = ite(tobool(eq(F_(d, "location", "frame", "ephemeris_id"), F_(fr, "ephemeris_id"))), NONE, some(fr))
            return app(AER, al, F_(x, "orbit"), F_(d, "location"), obs, ite(tobool(F_(d, "light_time_correction")), LT, NONE))
        # instantaneous
        b = dfn(ck, "measure_instantaneous", "GroundStation")
        for rng in (NONE, some(S("rng"))):
            noisy = rng is not NONE
            l2 = lab + (", noisy" if noisy else "")
            got = ck.ev(b, [("self", d), ("rx", S("rx")), ("rng", rng), ("almanac", al)], opaque=OPQ).ret
            a = aer(S("rx"), S("rx"))
            z = okv(a)
            hidden = bor(lt(app("AzElRange::elevation_above_mask_deg", z), num(0)), batom(app("AzElRange::is_obstructed", z)))
            e = F_(S("rx"), "orbit", "epoch")
            w = (lambda n: smp(n, e)) if noisy else (lambda n: num(0))
            same_msr(ck, "ground station", l2, b, got, okp(a), hidden, F_(d, "name"), add(e, w(S("nt"))),
                     [(n, t, add(F_(z, COMP[n]), w(S("n%d" % i)))) for i, (n, t) in enumerate(zip(ts_, ts))])
        # integrated
        b = dfn(ck, "measure", "GroundStation")
        T, e = S("T"), S("epoch")
        d = rec(d, integration_time=some(T))
        at = lambda t: app("Traj::at", S("traj"), t)
        x0, x1 = at(sub(e, T)), at(e)
        a0, a1 = aer(okv(x0), okv(x0)), aer(okv(x1), okv(x0))
        z0, z1 = okv(a0), okv(a1)
        hid = lambda z: bor(lt(app("AzElRange::elevation_above_mask_deg", z), num(0)), batom(app("AzElRange::is_obstructed", z)))
        out = bnot(band(okp(x0), okp(x1)))
        for rng in (NONE, some(S("rng"))):
            noisy = rng is not NONE
            l2 = lab + ", integrated" + (", noisy" if noisy else "")
            got = ck.ev(b, [("self", d), ("epoch", e), ("traj", S("traj")), ("rng", rng), ("almanac", al)], opaque=OPQ).ret
            mid = sub(e, div(T, num(2)))
            w = (lambda n: smp(n, mid)) if noisy else (lambda n: num(0))
            same_msr(ck, "ground station", l2, b, got, bor(out, band(okp(a0), okp(a1))), bor(out, hid(z0), hid(z1)), F_(d, "name"), add(e, w(S("nt"))),
                     [(n, t, add(div(add(F_(z0, COMP[n]), F_(z1, COMP[n])), num(2)), div(w(S("n%d" % i)), sqrt(num(2))))) for i, (n, t) in enumerate(zip(ts_, ts))])
    # without integration time: the state at the epoch
    b = dfn(ck, "measure", "GroundStation")
    d = rec(d, integration_time=NONE)
    opq = OPQ + ("TrackingDevice::measure_instantaneous", "GroundStation::measure_instantaneous")
    got = ck.ev(b, [("self", d), ("epoch", e), ("traj", S("traj")), ("rng", NONE), ("almanac", al)], opaque=OPQ).ret
    x = at(e)
    b2 = dfn(ck, "measure_instantaneous", "GroundStation")
    one = ck.ev(b2, [("self", d), ("rx", okv(x)), ("rng", NONE), ("almanac", al)], opaque=OPQ).ret
    ck.match("ground station", "instantaneous: error", b, okp(got), band(okp(x), okp(one)), assume=None)
    g = band(okp(x), okp(one))
    ck.match("ground station", "instantaneous: the state at the epoch", b, when(g, okv(got)), when(g, okv(one)))


def station(ck):
    al = S("almanac")
    b = ck.fn("to_orbit", "GroundStation")
    me = S("self")
    got = ck.ev(b, [("self", me), ("epoch", S("e")), ("almanac", al)]).ret
    loc = F_(me, "location")
    fi = app("Almanac::frame_info", al, F_(loc, "frame"))
    orb = app("Orbit::try_latlongalt", F_(loc, "latitude_deg"), F_(loc, "longitude_deg"), F_(loc, "height_km"), S("e"), okv(fi))
    fam = [c for c in named(got, "try_latlongalt")]
    ck.match("station", "location: error", b, okp(got), band(okp(fi), okp(rename(orb, fam))), assume=None)
    g = okp(fi)
    ck.match("station", "location: coordinates", b, when(band(g, okp(rename(orb, fam))), okv(got)), when(band(g, okp(rename(orb, fam))), okv(rename(orb, fam))))
    b = ck.fn("from_point", "GroundStation")
    r = ck.ev(b, ["name", "lat", "lon", "alt", "frame"]).ret
    for f, v in (("latitude_deg", "lat"), ("longitude_deg", "lon"), ("height_km", "alt")):
        ck.match("station", "from_point: " + f, b, F_(r, "location", f), S(v))
    ck.match("station", "from_point: name", b, F_(r, "name"), S("name"))
    for f in ("integration_time", "timestamp_noise_s", "stochastic_noises"):
        ck.match("station", "from_point: no " + f, b, isome(F_(r, f)), FALSE)
    ck.match("station", "from_point: no measurement type", b, isome(models.map_get(F_(r, "measurement_types"), S("any"))), FALSE)
    R, D, A = mt(ck, "Range", "Doppler", "Azimuth")
    has = lambda s, t: isome(models.map_get(s, t))
    b = ck.fn("with_msr_type", "GroundStation")
    for nm, d in (("first", rec(me, measurement_types=setof(), stochastic_noises=NONE)), ("further", rec(me, measurement_types=setof(R), stochastic_noises=some(chain_((R, S("a")))))),
                  ("replaced", rec(me, measurement_types=setof(D, R), stochastic_noises=some(chain_((D, S("b")), (R, S("a"))))))):
        r = ck.ev(b, [("self", d), ("t", D), ("noise", S("c"))]).ret
        ck.match("station", "with type, %s: noise" % nm, b, models.map_get(sv(F_(r, "stochastic_noises")), D), some(S("c")))
        ck.match("station", "with type, %s: measured" % nm, b, has(F_(r, "measurement_types"), D), TRUE)
        if nm != "first":
            ck.match("station", "with type, %s: other noise" % nm, b, models.map_get(sv(F_(r, "stochastic_noises")), R), some(S("a")))
            ck.match("station", "with type, %s: other measured" % nm, b, has(F_(r, "measurement_types"), R), TRUE)
        others(ck, "with type, " + nm, b, r, d)
    b = ck.fn("without_msr_type", "GroundStation")
    d = rec(me, measurement_types=setof(R, D), stochastic_noises=some(chain_((R, S("a")), (D, S("b")))))
    r = ck.ev(b, [("self", d), ("t", R)]).ret
    ck.match("station", "without type: measured", b, has(F_(r, "measurement_types"), R), FALSE)
    ck.match("station", "without type: other measured", b, has(F_(r, "measurement_types"), D), TRUE)
    ck.match("station", "without type: other noise", b, models.map_get(sv(F_(r, "stochastic_noises")), D), some(S("b")))
    others(ck, "without type", b, r, d)
    b = ck.fn("with_integration_time", "GroundStation")
    r = ck.ev(b, ["self", "T"]).ret
    ck.match("station", "integration time", b, F_(r, "integration_time"), S("T"))
    b = dfn(ck, "location", "GroundStation")
    r = ck.ev(b, ["self", "e", "frame", ("almanac", al)], opaque=("GroundStation::to_orbit",)).ret
    o = app("GroundStation::to_orbit", me, S("e"), al)
    ck.match("station", "location in a frame", b, r, app("Almanac::transform_to", al, okv(o), S("frame"), NONE))


def others(ck, inst, b, r, d, fs=("name", "location", "integration_time", "light_time_correction", "timestamp_noise_s")):
    for f in fs:
        ck.match("station", "%s keeps %s" % (inst, f), b, F_(r, f), F_(d, f))


def named(t, suffix):
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if id(x) in seen or not isinstance(x, T):
            continue
        seen.add(id(x))
        if x.op == "app" and x.args[0].endswith(suffix):
            out.append(x.args[0])
        st.extend(y for y in x.args if isinstance(y, T))
    return sorted(set(out))


def rename(t, fam):
    """The library function under the name the compiler gives it."""
    return app(fam[0], *t.args[1:]) if fam else t


def dot3(a, b):
    return add(add(mul(a[0], b[0]), mul(a[1], b[1])), mul(a[2], b[2]))


def at_epoch(t):
    """The epoch of a trajectory's state at an epoch is that epoch; the states of a trajectory share one frame."""
    m = {}
    st, seen = [t], set()
    while st:
        x = st.pop()
        if id(x) in seen or not isinstance(x, T):
            continue
        seen.add(id(x))
        if x.op == "app" and x.args[0] == "Traj::at":
            m[F_(okv(x), "orbit", "epoch")] = x.args[2]
            m[F_(okv(x), "epoch")] = x.args[2]
            m[F_(okv(x), "orbit", "frame")] = app("frame", x.args[1])
        st.extend(y for y in x.args if isinstance(y, T))
    for _ in range(3):
        t = subst(t, m)
    return t


def interlink(ck):
    al, me = S("almanac"), S("self")
    at = lambda tr, t: app("Traj::at", tr, t)
    for ts_ in (("Range", "Doppler"), ("Doppler",)):
        ts = mt(ck, *ts_)
        for rx_, nm in (("Spacecraft", "spacecraft"), ("GroundAsset", "ground asset")):
            d = device(ck, ts)
            lab = "%s link, %s" % (nm, ", ".join(ts_))

            def one(rx, w_=None):
                """(error-free, nothing measured, name, epoch, [values])"""
                if rx_ == "Spacecraft":
                    e = F_(rx, "orbit", "epoch")
                    o = at(F_(d, "traj"), e)
                    tx = F_(okv(o), "orbit")
                    ab = F_(d, "ab_corr")
                    los = app("Almanac::line_of_sight_obstructed", al, tx, F_(rx, "orbit"), F_(tx, "frame"), ab)
                    tf = app("Almanac::transform_to", al, F_(rx, "orbit"), F_(tx, "frame"), ab)
                    hid = tobool(okv(los))
                    dr, dvel = [[sub(models.ment(F_(okv(tf), f), i, 0), models.ment(F_(tx, f), i, 0)) for i in range(3)] for f in ("radius_km", "velocity_km_s")]
                    v = {"Range": sqrt(dot3(dr, dr)), "Doppler": div(dot3(dr, dvel), sqrt(dot3(dr, dr)))}
                    nmx = F_(d, "traj", "name")
                    name = ite(isome(nmx), sv(nmx), mk("str", "unnamed"))
                    return band(okp(o), okp(los), bor(hid, okp(tf))), hid, name, e, v
                e = F_(rx, "epoch")
                o = at(F_(d, "traj"), e)
                b = ck.fn("to_location", "GroundAsset")
                a = app(AER, al, F_(okv(o), "orbit"), ck.ev(b, [("self", rx)]).ret, NONE, NONE)
                z = okv(a)
                return band(okp(o), okp(a)), lt(app("AzElRange::elevation_above_mask_deg", z), num(0)), None, e, {k: F_(z, COMP[k]) for k in ("Range", "Doppler")}
            b = dfn(ck, "measure_instantaneous", "InterlinkTxSpacecraft", rx_)
            for rng in (NONE, some(S("rng"))):
                noisy = rng is not NONE
                got = ck.ev(b, [("self", d), ("rx", S("rx")), ("rng", rng), ("almanac", al)], opaque=OPQ).ret
                ok_, hid, name, e, v = one(S("rx"))
                w = (lambda n: smp(n, e)) if noisy else (lambda n: num(0))
                same_msr(ck, "link", lab + (", noisy" if noisy else ""), b, got, ok_, hid, name if name is not None else F_(sv(okv(got)), "tracker"), add(e, w(S("nt"))),
                         [(n, t, add(v[n], w(S("n%d" % i)))) for i, (n, t) in enumerate(zip(ts_, ts))])
            b = dfn(ck, "measure", "InterlinkTxSpacecraft", rx_)
            T_, e = S("T"), S("epoch")
            d = rec(d, integration_time=some(T_))
            x0, x1 = at(S("traj"), sub(e, T_)), at(S("traj"), e)
            r0, r1 = one(okv(x0)), one(okv(x1))
            out = bnot(band(okp(x0), okp(x1)))
            for rng in (NONE, some(S("rng"))):
                noisy = rng is not NONE
                got = ck.ev(b, [("self", d), ("epoch", e), ("traj", S("traj")), ("rng", rng), ("almanac", al)], opaque=OPQ).ret
                mid = sub(e, div(T_, num(2)))
                w = (lambda n: smp(n, mid)) if noisy else (lambda n: num(0))
                same_msr(ck, "link", lab + ", integrated" + (", noisy" if noisy else ""), b, got, bor(out, band(r0[0], r1[0])), bor(out, r0[1], r1[1]),
                         r0[2] if r0[2] is not None else F_(sv(okv(got)), "tracker"), add(e, w(S("nt"))),
                         [(n, t, add(div(add(r0[4][n], r1[4][n]), num(2)), div(w(S("n%d" % i)), sqrt(num(2))))) for i, (n, t) in enumerate(zip(ts_, ts))])
            d = rec(d, integration_time=NONE)
            got = ck.ev(b, [("self", d), ("epoch", e), ("traj", S("traj")), ("rng", NONE), ("almanac", al)], opaque=OPQ).ret
            b2 = dfn(ck, "measure_instantaneous", "InterlinkTxSpacecraft", rx_)
            x = x1
            r = ck.ev(b2, [("self", d), ("rx", okv(x)), ("rng", NONE), ("almanac", al)], opaque=OPQ).ret
            g = band(okp(x), okp(r))
            ck.match("link", lab + ", at the epoch: error", b, okp(got), g, assume=None)
            ck.match("link", lab + ", at the epoch", b, when(g, okv(got)), when(g, okv(r)))
    for rx_ in ("Spacecraft", "GroundAsset"):
        b = dfn(ck, "location", "InterlinkTxSpacecraft", rx_)
        got = ck.ev(b, ["self", "e", "frame", ("almanac", al)], opaque=OPQ).ret
        o = at(F_(me, "traj"), S("e"))
        w = app("Almanac::transform_to", al, F_(okv(o), "orbit"), S("frame"), F_(me, "ab_corr"))
        ck.match("link", "location for " + rx_, b, when(okp(o), got), when(okp(o), w))


def position(ck):
    for ts_ in (("X", "Y", "Z"), ("Z", "X"), ("Y",)):
        ts = mt(ck, *ts_)
        d = device(ck, ts)
        b = dfn(ck, "measure_instantaneous", "PositionDevice")
        rx = S("rx")
        e = F_(rx, "orbit", "epoch")
        for rng in (NONE, some(S("rng"))):
            noisy = rng is not NONE
            d2 = rec(d, stochastic_noises=some(chain_(*[(t, rec(S("n%d" % i), bias=NONE)) for i, t in enumerate(ts)])))
            got = ck.ev(b, [("self", d2), ("rx", rx), ("rng", rng), ("almanac", S("almanac"))], opaque=OPQ).ret
            # the bias after a draw, if any, is that of the noise: unbiased here
            w = (lambda n: smp(n, e)) if noisy else (lambda n: num(0))
            vals = []
            for i, (n, t) in enumerate(zip(ts_, ts)):
                nn = rec(S("n%d" % i), bias=NONE)
                v = add(index(F_(rx, "orbit", "radius_km"), num("XYZ".index(n))) if False else models.ment(F_(rx, "orbit", "radius_km"), "XYZ".index(n), 0), w(nn))
                if noisy:
                    g = F_(after(nn, e), "bias")
                    c = F_(sv(g), "constant")
                    v = add(v, ite(band(isome(g), isome(c)), sv(c), num(0)))
                vals.append((n, t, v))
            same_msr(ck, "position", "%s%s" % (", ".join(ts_), ", noisy" if noisy else ""), b, got, TRUE, FALSE, F_(d, "name"), e, vals)
    ts = mt(ck, "Range")
    got = ck.ev(b, [("self", rec(device(ck, ts), stochastic_noises=some(chain_((ts[0], rec(S("n0"), bias=NONE)))))), ("rx", rx), ("rng", NONE), ("almanac", S("almanac"))], opaque=OPQ).ret
    ck.match("position", "no other type", b, okp(got), FALSE)
    b = ck.fn("with_noise", "PositionDevice")
    X, Y = mt(ck, "X", "Y")
    for nm, d in (("first", rec(S("self"), measurement_types=setof(), stochastic_noises=NONE)), ("further", rec(S("self"), measurement_types=setof(X), stochastic_noises=some(chain_((X, S("a"))))))):
        r = ck.ev(b, [("self", d), ("t", Y), ("noise", S("c"))]).ret
        ck.match("position", "with noise, %s: noise" % nm, b, models.map_get(sv(F_(r, "stochastic_noises")), Y), some(S("c")))
        ck.match("position", "with noise, %s: measured" % nm, b, isome(models.map_get(F_(r, "measurement_types"), Y)), TRUE)
        ck.match("position", "with noise, %s: other" % nm, b, isome(models.map_get(F_(r, "measurement_types"), X)), TRUE if nm == "further" else FALSE)
    b = dfn(ck, "measure", "PositionDevice")
    d = rec(device(ck, mt(ck, "X")), stochastic_noises=some(chain_((X, rec(S("n0"), bias=NONE)))))
    x = app("Traj::at", S("traj"), S("epoch"))
    got = ck.ev(b, [("self", d), ("epoch", S("epoch")), ("traj", S("traj")), ("rng", NONE), ("almanac", S("almanac"))], opaque=OPQ).ret
    same_msr(ck, "position", "at the epoch", b, got, okp(x), FALSE, F_(d, "name"), F_(okv(x), "orbit", "epoch"), [("X", X, models.ment(F_(okv(x), "orbit", "radius_km"), 0, 0))])


RULES = [("noises", noises), ("statistics", statistics), ("ground station", ground), ("station", station), ("link", interlink), ("position", position)]
