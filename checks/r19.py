"""R19: measurement noise models."""
from spec import *

TECHNIQUE = "gated value graphs of every noise constructor, covariance, draw and scaling, with symbolic parameters, epochs and generator state, compared with the noise equations"
RULE_TEXT = ["a white noise has the variance of its sigma and draws from the normal of its mean and sigma",
             "a Gauss-Markov bias decays from one initial draw over its time constant, adds the steady-state draw of the elapsed time and its constant, and remembers its epoch",
             "a stochastic noise is the sum of its white noise and bias, in draws and in variance",
             "noise scaling scales the deviations of both and forgets the history of the bias",
             "link budgets: chip rates, carriers and power ratios have their documented values, and the range and Doppler noises combine thermal and clock terms"]
ASSUMPTIONS = ["a draw from a normal distribution is its mean plus its sigma times a standard normal draw of the generator"]


from fractions import Fraction


def qn(x):
    return num(Fraction(x))


C_KM_S = qn("299792458/1000")
TAU = num(6.283185307179586)


def isv(x, v):
    return is_variant(x, TT.RES if v == "Ok" else TT.OPT, v)


def some_of(x):
    return field(x, "0", "Some")


def ok_of(x):
    return field(x, "0", "Ok")


def gauss(r):
    return app("gauss", r)


def nxt(r):
    return app("gauss_next", r)


def wn(ck, sigma, mean=num(0)):
    return variant(ck, "WhiteNoise", "WhiteNoise", mean=mean, sigma=sigma)


def same_noise(ck, rule, inst, b, got, want, fs=("mean", "sigma")):
    for f in fs:
        ck.match(rule, "%s: %s" % (inst, f), b, F_(got, f), F_(want, f))


GM = ("tau", "process_noise", "constant", "prev_epoch", "init_sample")


def is_err(t):
    return bnot(isv(t, "Ok"))


def white(ck):
    b = ck.fn("new", "WhiteNoise")
    q, T = S("q"), S("T")
    got = ck.ev(b, [("process_noise", q), ("integration_time", T)]).ret
    neg = lt(q, num(0))
    ck.match("white", "new: refused", b, is_err(got), bor(neg, le(T, num(0))))
    same_noise(ck, "white", "new", b, ok_of(got), wn(ck, div(q, T)))
    b = ck.fn("constant_white_noise", "WhiteNoise")
    same_noise(ck, "white", "constant", b, ck.ev(b, [("process_noise", q)]).ret, wn(ck, q))
    b = ck.fn("from_pr_n0", "WhiteNoise")
    same_noise(ck, "white", "from Pr/N0", b, ck.ev(b, [("pr_n0", S("p")), ("bandwidth_hz", S("B"))]).ret, wn(ck, div(C_KM_S, mul(mul(num(2), S("B")), sqrt(S("p"))))))
    w = S("self")
    b = ck.fn("covariance", "WhiteNoise", trait="Stochastics")
    ck.match("white", "covariance", b, ck.ev(b, [("self", w), ("epoch", S("epoch"))]).ret, mul(F_(w, "sigma"), F_(w, "sigma")))
    b = ck.fn("sample", "WhiteNoise", trait="Stochastics")
    r = ck.ev(b, [("self", w), ("epoch", S("epoch")), ("rng", S("rng"))])
    ck.match("white", "sample", b, r.ret, add(F_(w, "mean"), mul(F_(w, "sigma"), gauss(S("rng")))))
    same_noise(ck, "white", "sample keeps", b, r.final["self"], w)
    for nm, tr in (("mul", "Mul"), ("mul_assign", "MulAssign")):
        b = ck.fn(nm, "WhiteNoise", trait=tr)
        r = ck.ev(b, [("self", w), ("rhs", S("k"))])
        same_noise(ck, "white", nm, b, r.ret if nm == "mul" else r.final["self"], rec(w, sigma=mul(F_(w, "sigma"), S("k"))))


def gm_sample(g, epoch, rng):
    """(sample, noise after, generator after)"""
    pe, ini, tau, q = F_(g, "prev_epoch"), F_(g, "init_sample"), F_(g, "tau"), F_(g, "process_noise")
    dt = ite(isv(pe, "Some"), sub(epoch, some_of(pe)), num(0))
    decay = app("exp", neg(div(dt, tau)))
    first = bnot(isv(ini, "Some"))
    i0 = ite(first, mul(q, gauss(rng)), some_of(ini))
    r1 = ite(first, nxt(rng), rng)
    ss = mul(mul(mul(qn("1/2"), q), mul(tau, sub(num(1), decay))), gauss(r1))
    c = F_(g, "constant")
    return add(add(mul(i0, decay), ss), ite(isv(c, "Some"), some_of(c), num(0))), rec(g, prev_epoch=some(epoch), init_sample=some(i0)), nxt(r1)


def gm_fields(ck, rule, inst, b, got, want, guard=TRUE):
    def w(x):
        return x if guard is TRUE else ite(guard, x, S("§absent"))
    for f in GM:
        g, x = F_(got, f), F_(want, f)
        if f in ("tau", "process_noise"):
            ck.match(rule, "%s: %s" % (inst, f), b, w(g), w(x))
        else:
            ck.match(rule, "%s: %s, present" % (inst, f), b, bor(bnot(guard), isv(g, "Some")), bor(bnot(guard), isv(x, "Some")))
            ck.match(rule, "%s: %s" % (inst, f), b, ite(band(guard, isv(x, "Some")), some_of(g), S("§absent")), ite(band(guard, isv(x, "Some")), some_of(x), S("§absent")))


def markov(ck):
    b = ck.fn("new", "GaussMarkov")
    q, T = S("q"), S("T")
    got = ck.ev(b, [("tau", T), ("process_noise", q)]).ret
    fresh = variant(ck, "GaussMarkov", "GaussMarkov", tau=T, process_noise=q, constant=NONE, prev_epoch=NONE, init_sample=NONE)
    ck.match("gauss-markov", "new: refused", b, is_err(got), le(T, num(0)))
    gm_fields(ck, "gauss-markov", "new", b, ok_of(got), fresh)
    for nm, v in (("default_range_km", "6/10000"), ("default_doppler_km_s", "3/100000000")):
        b = ck.fn(nm, "GaussMarkov")
        gm_fields(ck, "gauss-markov", nm, b, ck.ev(b, []).ret, rec(fresh, tau=num(60), process_noise=qn(v)))
    g = S("self")
    b = ck.fn("covariance", "GaussMarkov", trait="Stochastics")
    ck.match("gauss-markov", "covariance", b, ck.ev(b, [("self", g), ("epoch", S("epoch"))]).ret, mul(F_(g, "process_noise"), F_(g, "process_noise")))
    b = ck.fn("sample", "GaussMarkov", trait="Stochastics")
    r = ck.ev(b, [("self", g), ("epoch", S("epoch")), ("rng", S("rng"))])
    v, g2, rn = gm_sample(g, S("epoch"), S("rng"))
    ck.match("gauss-markov", "sample", b, r.ret, v)
    gm_fields(ck, "gauss-markov", "after a sample", b, r.final["self"], g2)
    ck.match("gauss-markov", "generator after a sample", b, r.final["rng"], rn)
    for nm, tr in (("mul", "Mul"), ("mul_assign", "MulAssign")):
        b = ck.fn(nm, "GaussMarkov", trait=tr)
        r = ck.ev(b, [("self", g), ("rhs", S("k"))])
        gm_fields(ck, "gauss-markov", nm, b, r.ret if nm == "mul" else r.final["self"],
                  rec(g, process_noise=mul(F_(g, "process_noise"), S("k")), constant=NONE, prev_epoch=NONE, init_sample=NONE))


def stochastic(ck):
    s = S("self")
    W, B = F_(s, "white_noise"), F_(s, "bias")
    hw, hb = isv(W, "Some"), isv(B, "Some")
    w, g = some_of(W), some_of(B)
    b = ck.fn("covariance", "StochasticNoise")
    ck.match("stochastic", "covariance", b, ck.ev(b, [("self", s), ("epoch", S("epoch"))]).ret,
             add(ite(hw, mul(F_(w, "sigma"), F_(w, "sigma")), num(0)), ite(hb, mul(F_(g, "process_noise"), F_(g, "process_noise")), num(0))))
    b = ck.fn("sample", "StochasticNoise")
    r = ck.ev(b, [("self", s), ("epoch", S("epoch")), ("rng", S("rng"))])
    rng = S("rng")
    r1 = ite(hw, nxt(rng), rng)
    v, g2, rn = gm_sample(g, S("epoch"), r1)
    ck.match("stochastic", "sample", b, r.ret, add(ite(hw, add(F_(w, "mean"), mul(F_(w, "sigma"), gauss(rng))), num(0)), ite(hb, v, num(0))))
    ck.match("stochastic", "generator after a sample", b, r.final["rng"], ite(hb, rn, r1))
    parts(ck, "stochastic", "after a sample", b, r.final["self"], hw, hb, w, g2)
    for nm, tr in (("mul", "Mul"), ("mul_assign", "MulAssign")):
        b = ck.fn(nm, "StochasticNoise", trait=tr)
        r = ck.ev(b, [("self", s), ("rhs", S("k"))])
        parts(ck, "stochastic", nm, b, r.ret if nm == "mul" else r.final["self"], hw, hb, rec(w, sigma=mul(F_(w, "sigma"), S("k"))),
              rec(g, process_noise=mul(F_(g, "process_noise"), S("k")), constant=NONE, prev_epoch=NONE, init_sample=NONE))
    for nm, v in (("default_range_km", "2/1000"), ("default_doppler_km_s", "3/1000000"), ("default_angle_deg", "1/100")):
        b = ck.fn(nm, "StochasticNoise")
        parts(ck, "stochastic", nm, b, ck.ev(b, []).ret, TRUE, FALSE, wn(ck, qn(v)), None)


def parts(ck, rule, inst, b, got, hw, hb, w, g):
    W, B = F_(got, "white_noise"), F_(got, "bias")
    ck.match(rule, inst + ": white noise, present", b, isv(W, "Some"), hw)
    ck.match(rule, inst + ": bias, present", b, isv(B, "Some"), hb)
    for f in ("mean", "sigma"):
        ck.match(rule, "%s: white noise %s" % (inst, f), b, ite(hw, F_(some_of(W), f), num(0)), ite(hw, F_(w, f), num(0)))
    if g is not None:
        gm_fields(ck, rule, inst + ": bias", b, some_of(B), g, hb)


LEVELS = (("SN0", "value_hz", (("Strong", 65), ("Average", 50), ("Poor", 40))), ("CN0", "value_hz", (("Strong", 70), ("Average", 55), ("Poor", 45))))
RATES = (("CarrierFreq", "value_hz", (("SBand", 2200000000), ("XBand", 8400000000), ("KaBand", 32000000000), ("ManualHz", None))),
         ("ChipRate", "value_chip_s", (("Lowest", 1000), ("Low", 100000), ("StandardT4B", 1000000), ("High", 10000000), ("VeryHigh", 25000000), ("ManualHz", None))))


def val(ck, adtname, v):
    """The argument and its documented value."""
    for a, fn, tab in LEVELS:
        if a == adtname:
            d = dict(tab)
            if v in d:
                return variant(ck, a, v), app("pow", num(10), div(num(d[v]), num(10)))
            return variant(ck, a, "ManualDbHz", **{"0": S("x")}), app("pow", num(10), div(S("x"), num(10)))
    for a, fn, tab in RATES:
        if a == adtname:
            d = dict(tab)
            if d[v] is not None:
                return variant(ck, a, v), num(d[v])
            return variant(ck, a, v, **{"0": S("y")}), S("y")


def link(ck):
    for a, fn, tab in LEVELS:
        b = ck.fn(fn, a)
        for v in [x for x, _ in tab] + ["ManualDbHz"]:
            t, w = val(ck, a, v)
            ck.match("link", "%s::%s" % (a, v), b, ck.ev(b, [("self", t)]).ret, w)
    for a, fn, tab in RATES:
        b = ck.fn(fn, a)
        for v, _ in tab:
            t, w = val(ck, a, v)
            ck.match("link", "%s::%s" % (a, v), b, ck.ev(b, [("self", t)]).ret, w)
    for a, d in (("SN0", "Average"), ("CN0", "Average"), ("ChipRate", "StandardT4B")):
        b = ck.fn("default", a, trait="Default")
        ck.match("link", "default " + a, b, ck.ev(b, []).ret, variant(ck, a, d))
    ad, T = S("ad"), S("T")
    n0, n0v = val(ck, "SN0", "ManualDbHz")
    ch, chv = val(ck, "ChipRate", "ManualHz")
    b = ck.fn("from_hardware_range_km", "StochasticNoise")
    got = ck.ev(b, [("allan_deviation", ad), ("integration_time", T), ("chip_rate", ch), ("s_n0", n0)]).ret
    th = div(C_KM_S, mul(mul(TAU, chv), sqrt(mul(num(2), n0v))))
    cl = div(mul(mul(C_KM_S, ad), T), sqrt(num(3)))
    parts(ck, "link", "range", b, got, TRUE, FALSE, wn(ck, sqrt(add(mul(th, th), mul(cl, cl)))), None)
    cn, cnv = val(ck, "CN0", "ManualDbHz")
    ca, cav = val(ck, "CarrierFreq", "ManualHz")
    b = ck.fn("from_hardware_doppler_km_s", "StochasticNoise")
    got = ck.ev(b, [("allan_deviation", ad), ("integration_time", T), ("carrier", ca), ("c_n0", cn)]).ret
    th = div(C_KM_S, mul(mul(TAU, cav), sqrt(mul(mul(num(2), cnv), T))))
    cl = mul(C_KM_S, ad)
    parts(ck, "link", "Doppler", b, got, TRUE, FALSE, wn(ck, sqrt(add(mul(th, th), mul(cl, cl)))), None)


RULES = [("white", white), ("gauss-markov", markov), ("stochastic", stochastic), ("link", link)]
