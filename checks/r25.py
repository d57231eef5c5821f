"""R25: differential correction of impulsive maneuvers."""
from itertools import product

from r24 import fieldless, okv, pd, re
from spec import *

TECHNIQUE = "gated value graph of both differential correctors, unrolled over their iterations with propagation, orbital elements and frame transformations opaque, compared with Newton's iteration; typestate of the returned solution on every path"
RULE_TEXT = ["the solution is returned only when every objective is within tolerance at the achievement epoch", "corrected state = state at the correction epoch + total correction, in the correction frame", "the achieved state is its propagation",
             "each correction is the minimum-norm or least-squares solution with the sensitivities of the propagated objectives, limited to the maximum step", "applying a solution propagates its corrected state and verifies every objective in the objective frame"]
OPQ = ("Propagator::with", "PropInstance::until_epoch", "PropInstance::until_epoch_with_traj", "OrbitGrad::partial_for", "BPlane::from_dual", "TargeterSolution::to_mnvr")
AL = S("almanac")
INF = float("inf")
COMP = {"PositionX": 0, "PositionY": 1, "PositionZ": 2, "VelocityX": 3, "VelocityY": 4, "VelocityZ": 5}
BP = {"BdotR": "b_r_km", "BdotT": "b_t_km", "BLTOF": "ltof_s"}


def until(sc, epoch):
    return okv(app("PropInstance::until_epoch", app("Propagator::with", S("self")["prop"], sc, AL), epoch))


def param(ck, n):
    if n in BP:
        return fieldless(ck, "StateParameter", n)
    return variant(ck, "StateParameter", "Element", **{"0": fieldless(ck, "OrbitalElement", n)})


def vars_(ck, comps):
    return [rec(S("var%d" % i), component=fieldless(ck, "Vary", c), max_value=num(INF), min_value=num(-INF)) for i, c in enumerate(comps)]


def objs_(ck, elts):
    return [rec(S("obj%d" % i), parameter=param(ck, e)) for i, e in enumerate(elts)]


def targeter(ck, comps, elts, n, cf, of):
    return rec(S("self"), variables=arr(*vars_(ck, comps)), objectives=arr(*objs_(ck, elts)), iterations=num(n),
               correction_frame=some(S("lf")) if cf else NONE, objective_frame=some(S("of")) if of else NONE)


def moved(sc, d):
    """Spacecraft with the six components d added to its position and velocity."""
    o = sc["orbit"]
    for f, k in (("radius_km", 0), ("velocity_km_s", 3)):
        if d[k] is not None:
            o = with_field(o, f, None, mat(3, 1, [ment(o[f], i, 0) + d[k + i] for i in range(3)]))
    return with_field(sc, "orbit", None, o)


def partial(ck, orbit, e, of):
    o = okv(app("Almanac::transform_to", AL, orbit, S("of"), NONE)) if of else orbit
    g = app("conv", TT.mk("str", "OrbitGrad"), o)
    if e in BP:
        return okv(app("BPlane::from_dual", g))[BP[e]]
    return okv(app("OrbitGrad::partial_for", g, fieldless(ck, "OrbitalElement", e)))


def inertial(ck, x0, comps, cor, cf, dual=0):
    """The six-component change of the state for the corrections cor of the variables."""
    d = [num(0)] * 6
    for c, x in zip(comps, cor):
        d[COMP[c]] = d[COMP[c]] + x
    if dual:
        # this corrector writes only what it varies
        for g in (0, 3):
            if not any(g <= COMP[c] < g + 3 for c in comps):
                d[g:g + 3] = [None] * 3
    if cf:
        d[:3] = [None] * 3
        m = okv(app("CartesianState::dcm_to_inertial", x0["orbit"], S("lf")))["rot_mat"]
        d[3:] = [ment(m, i, 0) * d[3] + ment(m, i, 1) * d[4] + ment(m, i, 2) * d[5] for i in range(3)]
    return d


def pinv(J, err):
    O, V = len(J), len(J[0])
    if O < V:
        m = TT.mk("minv", mat(O, O, [dotn(J[i], J[j]) for i in range(O) for j in range(O)]))
        y = [sum_([ment(m, i, k) * err[k] for k in range(O)]) for i in range(O)]
        return [sum_([J[i][j] * y[i] for i in range(O)]) for j in range(V)], mat(O, O, [dotn(J[i], J[j]) for i in range(O) for j in range(O)])
    C = list(zip(*J))
    g = mat(V, V, [dotn(C[i], C[j]) for i in range(V) for j in range(V)])
    m = TT.mk("minv", g)
    y = [sum_([C[k][i] * err[i] for i in range(O)]) for k in range(V)]
    return [sum_([ment(m, j, k) * y[k] for k in range(V)]) for j in range(V)], g


def dotn(a, b):
    return sum_([x * y for x, y in zip(a, b)])


def sum_(l):
    out = l[0]
    for x in l[1:]:
        out = out + x
    return out


def invertible(m):
    def f(a):
        if a.op == "is" and a.args[1] == "Some" and a.args[2].op == "app" and a.args[2].args[0] == "try_inverse":
            return True
        return None
    return f


def valid(i):
    return [assume_bool(gt(num(0), S("var%d" % i)["max_step"]), False)]


def iterate(ck, fn, comps, elts, cf, of, b, tag):
    dual = fn == "try_achieve_dual"
    V, O, N = len(comps), len(elts), 2
    me = targeter(ck, comps, elts, N, cf, of)
    r = ck.ev(b, [("self", me), "initial_state", "correction_epoch", "achievement_epoch", ("almanac", AL)], opaque=OPQ, subst={"V": str(V), "O": str(O)})
    vs, obs = vars_(ck, comps), objs_(ck, elts)
    x0 = until(S("initial_state"), S("correction_epoch"))
    total = [v["init_guess"] for v in vs]
    sl = [default_assume] + [g for i in range(V) for g in valid(i)]
    prev = None
    ret = okv(r.ret)
    for it in range(N + 1):
        x = moved(x0, inertial(ck, x0, comps, total, cf, dual))
        if dual:
            x = stm_on(ck, x)
        xf = until(x, S("achievement_epoch"))
        P = [partial(ck, xf["orbit"], e, of) for e in elts]
        ach = [re(p) for p in P]
        err = [o["multiplicative_factor"] * (o["desired_value"] - a) + o["additive_factor"] for o, a in zip(obs, ach)]
        fine = [assume_bool(gt(absv(e), o["tolerance"]), False) for e, o in zip(err, obs)]
        cv = chain(*(sl + fine))
        t = "%s, %d corrections: " % (tag, it)
        ck.match("solution", t + "is returned", b, is_variant(r.ret, TT.RES, "Ok"), TRUE, cv)
        ck.match("solution", t + "corrected state", b, ret["corrected_state"], moved(x0, inertial(ck, x0, comps, total, cf, dual)), cv)
        ck.match("solution", t + "achieved state", b, ret["achieved_state"]["orbit"], xf["orbit"], cv)
        ck.match("solution", t + "correction", b, ret["correction"], mat(V, 1, total), cv)
        ck.match("solution", t + "errors", b, ret["achieved_errors"], mat(O, 1, err), cv)
        ck.match("solution", t + "iterations", b, ret["iterations"], num(it), cv)
        ck.match("solution", t + "variables", b, ret["variables"], me["variables"], cv)
        ck.match("solution", t + "objectives", b, ret["achieved_objectives"], me["objectives"], cv)
        if it == N:
            break
        # not converged: one objective out of tolerance is enough
        sl = sl + [out_of_tolerance(err, obs)]
        n = sqrt(dotn(err, err))
        sl.append(changed(n, prev))
        J, _ = sensitivities(ck, dual, x0, moved(x0, inertial(ck, x0, comps, total, cf, dual)), comps, vs, total, elts, cf, of)
        delta, g = pinv(J, err)
        sl.append(invertible(g))
        for j in range(V):
            sl.append(small(delta[j], vs[j]))
        total = [a + d for a, d in zip(total, delta)]
        prev = n
    return r


def stm_on(ck, x):
    return with_field(x, "stm", None, some(TT.mk("mid")))


def some_stm(xf):
    return field(xf["stm"], "0", "Some")


def out_of_tolerance(err, obs):
    """All tolerance conditions of these errors are false."""
    return chain(*[assume_bool(gt(absv(e), o["tolerance"]), True) for e, o in zip(err, obs)])


def changed(n, prev):
    def f(a):
        if a.op == "pos" and any(t.op == "num" and abs(float(nval(t)) - 1e-10) < 1e-14 for t in TT.subterms(a)):
            return False
        return None
    return f


def small(d, v):
    return chain(assume_bool(gt(absv(d), absv(v["max_step"])), False), assume_bool(gt(absv(d), v["max_step"]), False))


def limited(ck, fn, comps, e, b):
    """One correction, of any size: every component is cut to the maximum step."""
    dual = fn == "try_achieve_dual"
    V = len(comps)
    vs, o = [rec(v, max_step=num(0.25)) for v in vars_(ck, comps)], objs_(ck, (e,))[0]
    me = with_field(targeter(ck, comps, (e,), 1, 0, 0), "variables", None, arr(*vs))
    r = ck.ev(b, [("self", me), "initial_state", "correction_epoch", "achievement_epoch", ("almanac", AL)], opaque=OPQ, subst={"V": str(V), "O": "1"})
    x0 = until(S("initial_state"), S("correction_epoch"))
    total = [v["init_guess"] for v in vs]
    x = moved(x0, inertial(ck, x0, comps, total, 0, dual))
    J, ach = sensitivities(ck, dual, x0, x, comps, vs, total, (e,), 0, 0)
    err = [o["multiplicative_factor"] * (o["desired_value"] - ach[0]) + o["additive_factor"]]
    delta, g = pinv(J, err)

    def second(a):
        if a.op != "pos":
            return None
        ss = set(TT.subterms(a))
        return (not any(t.op == "minv" for t in ss)) if o["tolerance"] in ss else None
    cv = chain(*([default_assume, second, changed(None, None), invertible(g)] + [f for i in range(V) for f in valid(i)]))
    for j, (d, v) in enumerate(zip(delta, vs)):
        m = v["max_step"]
        cut = [m * app("signum", d), app("copysign", m, d), ite(gt(d, num(0)), m, neg(m)), ite(lt(d, num(0)), neg(m), m)]
        lim = [ite(gt(absv(d), m), c, d) for c in cut] + [ite(gt(d, m), m, ite(lt(d, neg(m)), neg(m), d)), ite(lt(d, neg(m)), neg(m), ite(gt(d, m), m, d))]
        ck.match_any("solution", "%s, %s limited in %s" % (fn, "+".join(comps), comps[j]), b, ment(okv(r.ret)["correction"], j, 0), [total[j] + x for x in lim], cv)


def sensitivities(ck, dual, x0, x, comps, vs, total, elts, cf, of):
    if dual:
        x = stm_on(ck, x)
    xf = until(x, S("achievement_epoch"))
    P = [partial(ck, xf["orbit"], e, of) for e in elts]
    ach = [re(p) for p in P]
    J = [[None] * len(comps) for _ in elts]
    if dual:
        stm = some_stm(xf)
        for i, p in enumerate(P):
            w = [app("OrbitalElementPartials::wrt_" + c, p) for c in ("x", "y", "z", "vx", "vy", "vz")]
            J[i] = [sum_([w[k] * ment(stm, k, COMP[c]) for k in range(6)]) for c in comps]
    else:
        for j, (c, v) in enumerate(zip(comps, vs)):
            cur = inertial(ck, x0, comps, total, cf)
            per = inertial(ck, x0, [c], [v["perturbation"]], cf)
            xp = until(moved(x0, [None if p is None else p + q for p, q in zip(cur, per)]), S("achievement_epoch"))
            for i, e in enumerate(elts):
                J[i][j] = (re(partial(ck, xp["orbit"], e, of)) - ach[i]) / v["perturbation"]
    return J, ach


VX, VY, VZ, PX, PY, PZ = "VelocityX", "VelocityY", "VelocityZ", "PositionX", "PositionY", "PositionZ"
SMA, ECC, INC = "SemiMajorAxis", "Eccentricity", "Inclination"


def corrector(ck):
    ck.vocab |= set(OPQ) | {"conv", "Almanac::transform_to", "CartesianState::dcm_to_inertial", "try_inverse", "context"} | {"OrbitalElementPartials::" + x for x in ("real", "wrt_x", "wrt_y", "wrt_z", "wrt_vx", "wrt_vy", "wrt_vz")}
    b = ck.fn("try_achieve_fd")
    runs = [((VX, VY, VZ), (SMA,), 0, 0), ((VX, VY, VZ), (SMA, ECC), 0, 0), ((VX, VZ), (INC, ECC), 0, 1), ((VY,), (ECC, SMA), 0, 0), ((PX, PY, PZ), (SMA,), 0, 0), ((PZ, VY), (SMA,), 0, 0),
            ((VX, VY, VZ), ("BdotR", "BdotT"), 0, 1), ((VY, VZ), ("BLTOF", "BdotT"), 0, 0), ((VX, VY, VZ), (SMA,), 1, 0), ((VZ,), (ECC,), 1, 1)]
    for comps, elts, cf, of in runs:
        iterate(ck, "try_achieve_fd", comps, elts, cf, of, b, label(comps, elts, cf, of))
    limited(ck, b.name, (VX,), SMA, b)
    limited(ck, b.name, (VY, VZ), ECC, b)
    refusals(ck, b)


def label(comps, elts, cf, of):
    return "+".join(comps) + " for " + "+".join(elts) + (" in a local frame" if cf else "") + (", objective frame" if of else "")


def corrector_dual(ck):
    ck.vocab |= set(OPQ) | {"conv", "Almanac::transform_to", "try_inverse", "context"} | {"OrbitalElementPartials::" + x for x in ("real", "wrt_x", "wrt_y", "wrt_z", "wrt_vx", "wrt_vy", "wrt_vz")}
    b = ck.fn("try_achieve_dual")
    for comps, elts, cf, of in [((VX, VY, VZ), (SMA,), 0, 0), ((VX, VZ), (INC, ECC), 0, 0), ((PX, PY, PZ), (SMA,), 0, 0), ((PZ, VY), ("BdotR", "BdotT"), 0, 0)]:
        iterate(ck, "try_achieve_dual", comps, elts, cf, of, b, "dual, " + label(comps, elts, cf, of))
    limited(ck, b.name, (VX,), SMA, b)
    limited(ck, b.name, (VY, VZ), ECC, b)
    refusals(ck, b)


def refusals(ck, b):
    """Never a solution with an objective out of tolerance, a singular Jacobian or an invalid variable."""
    nm = b.name
    comps, elts = (VX, VY), (SMA, ECC)
    r = ck.ev(b, [("self", targeter(ck, comps, elts, 1, 0, 0)), "initial_state", "correction_epoch", "achievement_epoch", ("almanac", AL)], opaque=OPQ, subst={"V": "2", "O": "2"})
    got = is_variant(r.ret, TT.RES, "Ok")
    for k in range(2):
        tol = S("obj%d" % k)["tolerance"]

        def pick(a, tol=tol, other=S("obj%d" % (1 - k))["tolerance"]):
            if a.op != "pos":
                return None
            ss = set(TT.subterms(a))
            return True if tol in ss else False if other in ss else None  # |error| > tolerance
        ck.match("refusal", "%s: objective %d out of tolerance" % (nm, k), b, got, FALSE, chain(default_assume, pick))
    if nm == "try_achieve_fd":
        ck.match("refusal", nm + ": negative maximum step", b, got, FALSE, chain(default_assume, assume_bool(gt(num(0), S("var1")["max_step"]), True)))
        for p in (PX, PY, PZ):
            me = targeter(ck, (VY, p), (SMA,), 1, 1, 0)
            r = ck.ev(b, [("self", me), "initial_state", "correction_epoch", "achievement_epoch", ("almanac", AL)], opaque=OPQ, subst={"V": "2", "O": "1"})
            ck.match("refusal", "%s: %s in a local frame" % (nm, p), b, is_variant(r.ret, TT.RES, "Ok"), FALSE, None)


ALLV = list(COMP) + ["MnvrAlpha", "MnvrAlphaDot", "MnvrAlphaDDot", "MnvrDelta", "MnvrDeltaDot", "MnvrDeltaDDot", "StartEpoch", "Duration", "EndEpoch", "ThrustX", "ThrustY", "ThrustZ", "ThrustLevel"] + ["Thrust%s%s" % (k, c) for k in ("Rate", "Accel") for c in "XYZ"]


def variables(ck):
    b = ck.fn("is_finite_burn", "Vary")
    for v in ALLV:
        ck.match("variables", v + " is a finite burn variable", b, ck.ev(b, [("self", fieldless(ck, "Vary", v))]).ret, FALSE if v in COMP else TRUE)
    b = ck.fn("vec_index", "Vary")
    for v in COMP:
        ck.match("variables", v + " index", b, ck.ev(b, [("self", fieldless(ck, "Vary", v))]).ret, num(COMP[v]))
    b = ck.fn("from", "Variable", "From")
    for v in ALLV:
        r = ck.ev(b, [("vary", fieldless(ck, "Vary", v))]).ret
        ck.match("variables", v + " becomes its variable", b, r["component"], fieldless(ck, "Vary", v))
        if v in COMP:
            ck.match("variables", v + " starts from zero", b, r["init_guess"], num(0))
    s = S("self")
    for fn, f in (("with_initial_guess", "init_guess"), ("with_pert", "perturbation"), ("with_min", "min_value"), ("with_max", "max_value")):
        b = ck.fn(fn, "Variable")
        ck.match("variables", fn, b, ck.ev(b, ["self", "x"]).ret, with_field(s, f, None, S("x")))
    x, hi, lo = S("val"), s["max_value"], s["min_value"]
    lim = ite(gt(x, hi), hi, ite(lt(x, lo), lo, x))
    b = ck.fn("apply_bounds", "Variable")
    ck.match("variables", "bounded value", b, ck.ev(b, ["self", "val"]).ret, lim)
    b = ck.fn("check_bounds", "Variable")
    r = ck.ev(b, ["self", "val"]).ret
    ck.match("variables", "checked value", b, r["0"], lim)
    ck.match("variables", "value within bounds", b, r["1"], band(bnot(gt(x, hi)), bnot(lt(x, lo))))
    b = ck.fn("ensure_bounds", "Variable")
    ck.match("variables", "ensured value", b, ck.ev(b, ["self", "val"]).final["val"], lim)
    b = ck.fn("valid", "Variable")
    ck.match("variables", "valid", b, is_variant(ck.ev(b, ["self"]).ret, TT.RES, "Ok"), band(bnot(gt(num(0), s["max_step"])), bnot(gt(num(0), hi)), bnot(gt(lo, hi))), None)


def construct(ck):
    V = lambda l: [fieldless(ck, "Vary", v) for v in l]
    vel, pos = (VX, VY, VZ), (PX, PY, PZ)
    p, o, v = S("prop"), S("objectives"), S("variables")
    vnc = some(fieldless(ck, "LocalFrame", "VNC"))
    for fn, vs, cf in (("delta_v", vel, NONE), ("delta_r", pos, NONE), ("vnc", vel, vnc), ("thrust_dir", ("ThrustX", "ThrustY", "ThrustZ", "ThrustLevel"), NONE),
                       ("thrust_dir_rate", ("ThrustX", "ThrustY", "ThrustZ", "ThrustLevel", "ThrustRateX", "ThrustRateY", "ThrustRateZ"), NONE),
                       ("thrust_profile", ("ThrustX", "ThrustY", "ThrustZ", "ThrustLevel", "ThrustRateX", "ThrustRateY", "ThrustRateZ", "ThrustAccelX", "ThrustAccelY", "ThrustAccelZ"), NONE)):
        b = ck.fn(fn, "Targeter")
        r = ck.ev(b, ["prop", "objectives"], subst={"O": "1"}).ret
        for i, w in enumerate(V(vs)):
            ck.match("construction", "%s variable %d" % (fn, i), b, index(r["variables"], num(i))["component"], w)
        ck.match("construction", fn + " number of variables", b, length(r["variables"]), num(len(vs)))
        shared(ck, b, fn, r, p, o, NONE, cf)
    for fn, of, cf, args in (("new", NONE, NONE, ["prop", "variables", "objectives"]), ("in_frame", some(S("objective_frame")), NONE, ["prop", "variables", "objectives", "objective_frame"]), ("vnc_with_components", NONE, vnc, ["prop", "variables", "objectives"])):
        b = ck.fn(fn, "Targeter")
        r = ck.ev(b, args, subst={"O": "1", "V": "2"}).ret
        ck.match("construction", fn + " variables", b, r["variables"], v)
        shared(ck, b, fn, r, p, o, of, cf)
    b = ck.fn("try_achieve_from", "Targeter")
    r = ck.ev(b, ["self", "initial_state", "correction_epoch", "achievement_epoch", "almanac"], opaque=("Targeter::try_achieve_fd", "Targeter::try_achieve_dual"), subst={"O": "1", "V": "2"})
    a = [S(x) for x in ("self", "initial_state", "correction_epoch", "achievement_epoch", "almanac")]
    ck.match_any("construction", "try_achieve_from", b, r.ret, [app("Targeter::try_achieve_fd", *a), app("Targeter::try_achieve_dual", *a)])


def shared(ck, b, fn, r, p, o, of, cf):
    for n, w in (("prop", p), ("objectives", o), ("objective_frame", of), ("correction_frame", cf)):
        ck.match("construction", "%s %s" % (fn, n), b, r[n], w)


def apply_(ck):
    b = ck.fn("apply_with_traj", "Targeter")
    sol = S("solution")
    imp = lambda a: False if a.op == "is" and a.args[1] == "Ok" and a.args[2].op == "app" and a.args[2].args[0] == "TargeterSolution::to_mnvr" else None
    for elts, of in (((SMA,), 0), ((SMA, ECC), 1), (("BdotR", "BdotT"), 1), (("BLTOF", INC), 0)):
        obs = [rec(x, multiplicative_factor=num(1), additive_factor=num(0)) for x in objs_(ck, elts)]
        me = with_field(targeter(ck, (VX,), elts, 1, 0, of), "objectives", None, arr(*obs))
        r = ck.ev(b, [("self", me), "solution", ("almanac", AL)], opaque=OPQ, subst={"V": "1", "O": str(len(elts))})
        run = okv(app("PropInstance::until_epoch_with_traj", app("Propagator::with", S("self")["prop"], sol["corrected_state"], AL), sol["achieved_state"]["orbit"]["epoch"]))
        err = [o["desired_value"] - re(partial(ck, run["0"]["orbit"], e, of)) for o, e in zip(obs, elts)]
        fine = [assume_bool(gt(absv(e), o["tolerance"]), False) for e, o in zip(err, obs)]
        t = "+".join(elts) + (", objective frame" if of else "")
        base = chain(imp, default_assume, *fine)
        ck.match("apply", t + ": state", b, okv(r.ret)["0"], run["0"], base)
        ck.match("apply", t + ": trajectory", b, okv(r.ret)["1"], run["1"], base)
        ck.match("apply", t + ": accepted", b, is_variant(r.ret, TT.RES, "Ok"), TRUE, base)
        for k in range(len(elts)):
            bad = [assume_bool(gt(absv(e), o["tolerance"]), i == k) for i, (e, o) in enumerate(zip(err, obs))]
            ck.match("apply", t + ": objective %d missed" % k, b, is_variant(r.ret, TT.RES, "Ok"), FALSE, chain(imp, default_assume, *bad))
    b = ck.fn("apply", "Targeter")
    r = ck.ev(b, ["self", "solution", ("almanac", AL)], opaque=("Targeter::apply_with_traj",), subst={"V": "1", "O": "1"}).ret
    w = app("Targeter::apply_with_traj", S("self"), sol, AL)
    ck.match("apply", "state of apply", b, okv(r), okv(w)["0"])
    b = ck.fn("is_finite_burn", "TargeterSolution")
    for comps, w in (((VX, VY), FALSE), ((VX, "ThrustX"), TRUE), (("MnvrAlphaDot", VX), TRUE), (("Duration",), TRUE)):
        me = rec(S("self"), variables=arr(*vars_(ck, comps)))
        ck.match("apply", "finite burn solution of " + "+".join(comps), b, ck.ev(b, [("self", me)], subst={"V": str(len(comps)), "O": "1"}).ret, w)


RULES = [("variables", variables), ("construction", construct), ("apply", apply_), ("corrector", corrector), ("dual corrector", corrector_dual)]
