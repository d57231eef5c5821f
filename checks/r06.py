"""R06: the partials of the dynamics are the Jacobian of the accelerations."""
from spec import *
from r05 import v3, nrm, twobody
import r05

TECHNIQUE = "the partials returned by each gradient function are compared with the symbolic derivative of the acceleration its companion function computes (both value graphs taken from the tree)"
RULE_TEXT = ["grad[i][j] = d acceleration_i / d position_j of the same tree's own equations of motion", "the value part equals the plain equations of motion"]


def leaves(osc):
    return v3(osc["radius_km"]) + v3(osc["velocity_km_s"])


def orbital(ck):
    osc, alm = S("osc"), S("almanac")
    for n in (0, 1, 2):
        me = rec(S("self"), accel_models=arr(*[S("m%d" % i) for i in range(n)]))
        b = ck.fn("dual_eom", "OrbitalDynamics")
        r = ck.ev(b, [("self", me), "dt", "osc", "almanac"])
        acc, mu = twobody(osc)
        g = [app("AccelModel::gradient", S("m%d" % i), osc, alm)[("Ok", "0")] for i in range(n)]
        dx = v3(osc["velocity_km_s"]) + [acc[i] for i in range(3)]
        X = leaves(osc)
        J = [[diff(f, x) for x in X] for f in dx]
        for gi in g:
            for i in range(3):
                dx[3 + i] = dx[3 + i] + gi["0"][(i, 0)]
                for j in range(3):
                    J[3 + i][j] = J[3 + i][j] + gi["1"][(i, j)]
        ck.match("orbital-value", "%d models" % n, b, r.ret, rebuilt(r.ret, 0, mat(6, 1, dx)))
        for i in range(6):
            for j in range(6):
                ck.match("orbital-partial", "%d models, [%d][%d]" % (n, i, j), b, pick(r.ret, 1, i, j), J[i][j])


def rebuilt(t, k, v):
    """An Ok pair like t's with component k replaced: compares only component k on the success slice."""
    return lift(lambda x: ok(tup(*[v if i == k else y for i, y in enumerate(x.args[1].args[1:])])) if x.op == "agg" and x.args[0][2] == "Ok" and x.args[1].op == "agg" else x, t)


def pick(t, k, i, j):
    """Entry (i,j) of component k of an Ok pair (errors are left out: BOT)."""
    return ment(field(field(t, "0", "Ok"), str(k)), i, j)


def third(ck):
    osc, alm = S("osc"), S("almanac")
    X = v3(osc["radius_km"])
    for n in (1, 2):
        me = rec(S("self"), celestial_objects=arr(*[S("b%d" % i) for i in range(n)]))
        b = ck.fn("eom", "PointMasses")
        e = ck.ev(b, [("self", me), "osc", "almanac"])
        b = ck.fn("gradient", "PointMasses")
        r = ck.ev(b, [("self", me), "osc", "almanac"])
        val = field(e.ret, "0", "Ok")
        for i in range(3):
            f = ment(val, i, 0)
            ck.match("third-body-value", "%d bodies, [%d]" % (n, i), b, pick(r.ret, 0, i, 0), f)
            for j in range(3):
                ck.match("third-body-partial", "%d bodies, [%d][%d]" % (n, i, j), b, pick(r.ret, 1, i, j), diff(f, X[j]))


RULES = [("orbital", orbital), ("third", third)]
