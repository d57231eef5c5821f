"""R04: the error measure of every error-control strategy."""
from spec import *

TECHNIQUE = "gated value graph of the error estimate for each strategy and several state sizes, compared entry-wise with its definition"
RULE_TEXT = ["RSS strategies: |error| over the step (or mean state) magnitude, absolute below the threshold", "Cartesian RSS strategies: the larger of the position and velocity measures of the first six entries",
             "largest-error strategies: L1 sums, or the largest entry-wise relative error"]


def vec(n, k):
    return mat(n, 1, [S("%s%d" % (k, i)) for i in range(n)])


def nrm(xs):
    r = num(0)
    for x in xs:
        r = r + x * x
    return sqrt(r)


def rel(err_, mag, th):
    return ite(gt(mag, th), err_ / mag, err_)


TH = num("0.1") if False else num(0.1)


def rss_state(e, c, x):
    return rel(nrm(e), num(0.5) * nrm([p + q for p, q in zip(c, x)]), TH)


def rss_step(e, c, x):
    return rel(nrm(e), nrm([p - q for p, q in zip(c, x)]), sqrt(TH))


def cart(f):
    def g(e, c, x):
        if len(e) < 6:
            return rss_step(e, c, x)
        return fmax(f(e[:3], c[:3], x[:3]), f(e[3:6], c[3:6], x[3:6]))
    return g


def largest_state(e, c, x):
    m, r = num(0), num(0)
    for p, q, z in zip(c, x, e):
        m = m + num(0.5) * absv(p + q)
        r = r + absv(z)
    return rel(r, m, TH)


def largest_step(e, c, x):
    m, r = num(0), num(0)
    for p, q, z in zip(c, x, e):
        m = m + absv(p - q)
        r = r + absv(z)
    return rel(r, m, TH)


def largest_error(e, c, x):
    best = num(0)
    for p, q, z in zip(c, x, e):
        d = p - q
        v = ite(gt(d, TH), absv(z / d), absv(z))
        best = ite(gt(v, best), v, best)
    return best


SPEC = {"RSSCartesianState": cart(rss_state), "RSSCartesianStep": cart(rss_step), "RSSState": rss_state, "RSSStep": rss_step,
        "LargestError": largest_error, "LargestState": largest_state, "LargestStep": largest_step}


def estimate(ck):
    k, a = ck.F.adt("ErrorControl")
    b = ck.fn("estimate", "ErrorControl")
    for v in a["variants"]:
        vn = v["name"]
        if vn not in SPEC:
            ck.undecided("measure", vn, "strategy without a definition here")
            continue
        for n in ((2, 3) if vn == "LargestError" else (3, 6, 9)):
            e, c, x = vec(n, "e"), vec(n, "c"), vec(n, "x")
            r = ck.ev(b, [("self", adt(k, vn, True, (), [])), ("e", e), ("c", c), ("x", x)], subst={"N": "nalgebra::base::dimension::Const<%d>" % n})
            ck.match("measure", "%s, %d entries" % (vn, n), b, r.ret, SPEC[vn](e.args[2:], c.args[2:], x.args[2:]))


RULES = [("estimate", estimate)]
