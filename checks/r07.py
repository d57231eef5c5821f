"""R07: spacecraft dynamics: forces over mass, thrust and propellant flow, STM rate."""
from spec import *
from r05 import v3

TECHNIQUE = "gated value graph of the spacecraft equations of motion and post-step hook with symbolic model lists and guidance law, compared entry-wise with the force balance"
RULE_TEXT = ["acceleration = orbital + sum(force)/total mass + throttle*thrust/mass along the guidance direction", "propellant rate = -throttle*thrust/(Isp*g0) iff mass decrement is on",
             "dSTM/dt = A*STM with A the 9x9 gradient", "illegal throttle, direction, thruster, mass or propellant is an error"]
G0 = num(9.80665)


def osc_of(ctx, dt, x, stm):
    """The state the stage is evaluated at (State::set_with_delta_seconds, itself decided by R11)."""
    return app("State::set_with_delta_seconds", ctx, dt, x)


OP = ("State::set_with_delta_seconds", "OrbitalDynamics::eom", "OrbitalDynamics::dual_eom", "Dynamics::dual_eom", "orbital::ra_dec_from_unit_vector", "guidance::ra_dec_from_unit_vector")


def mass(sc):
    m = sc["mass"]
    return m["dry_mass_kg"] + m["prop_mass_kg"] + m["extra_mass_kg"]


def thrust(osc, law, decr):
    """(force, rate) of the control, inside the legal domain."""
    th = app("GuidanceLaw::throttle", law, osc)[("Ok", "0")]
    u = v3(app("GuidanceLaw::direction", law, osc)[("Ok", "0")])
    n = sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2])
    tr = osc["thruster"][("Some", "0")]
    on = gt(th, num(0))
    f = [th * tr["thrust_N"] * num(1e-3) * c for c in u]
    rate = ite(tobool(decr), neg(th * tr["thrust_N"] / (tr["isp_s"] * G0)), num(0))
    z = num(0)
    return th, n, on, [ite(on, c, z) for c in f], ite(on, rate, z)


def eom(ck):
    b = ck.fn("eom", "SpacecraftDynamics", "Dynamics")
    ctx, alm, dt, x = S("ctx"), S("almanac"), S("dt"), S("x")
    for n in (0, 1, 2):
        models = [S("m%d" % i) for i in range(n)]
        me = rec(S("self"), force_models=arr(*models))
        r = ck.ev(b, [("self", me), "dt", "x", "ctx", "almanac"], opaque=OP)
        osc = app("State::set_with_delta_seconds", ctx, dt, x)
        law = me["guid_law"]
        has = is_variant(law, TT.OPT, "Some")
        stm = osc["stm"]
        hs = is_variant(stm, TT.OPT, "Some")
        nostm = chain(default_assume, assume_bool(hs, False))
        # coasting, no STM
        o = app("OrbitalDynamics::eom", me["orbital_dyn"], osc["orbit"], alm)
        base_ = [o[("Ok", "0")][(i, 0)] for i in range(6)] + [num(0)] * 84
        pad = {o[("Ok", "0")][(i, 0)]: num(0) for i in range(6, 42)}      # the orbital part fills six entries only (decided by R05)
        for m in models:
            f = app("ForceModel::eom", m, osc, alm)[("Ok", "0")]
            for i in range(3):
                base_[3 + i] = base_[3 + i] + f[(i, 0)] / mass(osc)
        massive = gt(mass(osc), num(0))
        legal = [assume_bool(massive, True)] if n else []
        coast = chain(nostm, assume_bool(has, False), *legal)
        out = field(r.ret, "0", "Ok")
        out = subst(out, pad)
        tail(ck, b, out, base_, "%d models, coasting" % n, coast)
        # thrusting
        th, un, on, f, rate = thrust(osc, law[("Some", "0")], me["decrement_mass"])
        full = list(base_)
        for i in range(3):
            full[3 + i] = full[3 + i] + f[i] / mass(osc)
        full[8] = full[8] + rate
        tr = is_variant(osc["thruster"], TT.OPT, "Some")
        bad_dir = gt(absv(un - num(1)), num(1e-4) if False else S("§NORM_ERR"))
        okdir = lambda a: dir_ok(a, un)
        burn = chain(nostm, assume_bool(has, True), assume_bool(tr, True), okdir, *legal)
        thr_ok = lambda dec: any(a.op == "pos" and illegal(a, v, th) for a, v in dec.items())
        for i in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 89):
            ck.match("thrust", "%d models, entry %d" % (n, i), b, ment(out, i, 0), full[i], burn, exclude=thr_ok)
        # STM
        d = app("Dynamics::dual_eom", me, dt, osc, alm)[("Ok", "0")]
        st = chain(default_assume, assume_bool(hs, True), assume_bool(has, False), *legal)
        for i in range(9):
            ck.match("stm-state", "%d models, entry %d" % (n, i), b, ment(out, i, 0), d["0"][(i, 0)], st)
        P = mmul(d["1"], stm[("Some", "0")])
        ck.match("stm-rate", "%d models" % n, b, mat(1, 81, [ment(out, 9 + k, 0) for k in range(81)]), mat(1, 81, [ment(P, k % 9, k // 9) for k in range(81)]), st)
        # legality
        good = is_variant(r.ret, TT.RES, "Ok")
        for nm, cond in (("no thruster", assume_bool(tr, False)), ("throttle above one", assume_bool(gt(th, num(1)), True)), ("negative throttle", assume_bool(lt(th, num(0)), True))):
            a = chain(cond, nostm, assume_bool(has, True), *( [assume_bool(tr, True)] if nm != "no thruster" else []), *legal)
            ck.match("illegal-control", "%d models, %s" % (n, nm), b, good, FALSE, a)
        if n:
            ck.match("massless", "%d models" % n, b, good, FALSE, chain(default_assume, assume_bool(massive, False)))


def illegal(a, v, th):
    d = a.args[0]
    return v and (same(d, th - 1) or same(d, neg(th)))


def dir_ok(a, un):
    """Slice: the direction has unit norm (within tolerance) and is a normal number."""
    if a.op == "app" and a.args[0] == "is_normal":
        return True
    if a.op == "pos" and any(x.op == "app" and x.args[0] == "abs" for x in subterms(a)) and any(x is un or same(x, un) for x in subterms(a)):
        return False
    return None


def tail(ck, b, out, want, inst, a):
    for i in range(9):
        ck.match("force-balance", "%s, entry %d" % (inst, i), b, ment(out, i, 0), want[i], a)
    ck.match("force-balance", inst + ", other entries", b, mat(1, 81, [ment(out, i, 0) for i in range(9, 90)]), mat(1, 81, want[9:]), a)


def direction_norm(ck):
    """A direction that is not a unit vector must be refused."""
    b = ck.fn("eom", "SpacecraftDynamics", "Dynamics")
    me = rec(S("self"), force_models=arr())
    r = ck.ev(b, [("self", me), "dt", "x", "ctx", "almanac"], opaque=OP)
    osc = app("State::set_with_delta_seconds", S("ctx"), S("dt"), S("x"))
    law = me["guid_law"][("Some", "0")]
    th, un, on, f, rate = thrust(osc, law, me["decrement_mass"])
    good = is_variant(r.ret, TT.RES, "Ok")
    at = [a for a in atoms(r.ret) if a.op == "pos" and dir_ok(a, un) is False]
    if not at:
        ck.violation("unit-direction", "norm test", b.where(), "the norm of the thrust direction is never tested")
        return
    sl = chain(default_assume, assume_bool(is_variant(osc["stm"], TT.OPT, "Some"), False), assume_bool(is_variant(me["guid_law"], TT.OPT, "Some"), True),
               assume_bool(is_variant(osc["thruster"], TT.OPT, "Some"), True), assume_bool(on, True), lambda a: True if dir_ok(a, un) is False else None)
    ck.match("unit-direction", "off-norm direction refused", b, good, FALSE, sl)


def gradient(ck):
    b = ck.fn("dual_eom", "SpacecraftDynamics", "Dynamics")
    ctx, alm, dt = S("ctx"), S("almanac"), S("dt")
    for n in (0, 1, 2):
        models = [S("m%d" % i) for i in range(n)]
        me = rec(S("self"), force_models=arr(*models))
        for idxs in ([None, 6], [7, 6], [6, 7], [6, 6])[:(1, 3, 4)[n]]:
            o = app("OrbitalDynamics::dual_eom", me["orbital_dyn"], dt, ctx["orbit"], alm)
            r = ck.ev(b, [("self", me), "dt", "ctx", "almanac"], opaque=("OrbitalDynamics::dual_eom",))
            dx = [o[("Ok", "0")]["0"][(i, 0)] for i in range(6)] + [num(0)] * 3
            g = [[o[("Ok", "0")]["1"][(i, j)] if i < 6 and j < 6 else num(0) for j in range(9)] for i in range(9)]
            sub_ = {}
            asm = [default_assume, assume_bool(is_variant(me["guid_law"], TT.OPT, "Some"), False)]
            for m, k in zip(models, idxs):
                gr = app("ForceModel::gradient", m, ctx, alm)[("Ok", "0")]
                ei = app("ForceModel::estimation_index", m)
                asm.append(assume_bool(is_variant(ei, TT.OPT, "Some"), k is not None))
                if k is not None:
                    sub_[ei[("Some", "0")]] = num(k)
                for i in range(3):
                    dx[3 + i] = dx[3 + i] + gr["0"][(i, 0)] / mass(ctx)
                    for j in range(3):
                        g[3 + i][j] = g[3 + i][j] + gr["1"][(i, j)] / mass(ctx)
                    if k is not None:
                        g[3 + i][k] = g[3 + i][k] + gr["1"][(3, i)] / mass(ctx)
            a = chain(*asm)
            got = subst(field(r.ret, "0", "Ok"), sub_)
            inst = "%d models, estimated %s" % (n, idxs[:n])
            for i in range(9):
                ck.match("gradient-value", inst + ", [%d]" % i, b, ment(field(got, "0"), i, 0), dx[i], a)
                for j in range(9):
                    ck.match("gradient", inst + ", [%d][%d]" % (i, j), b, ment(field(got, "1"), i, j), g[i][j], a)
            gl = is_variant(me["guid_law"], TT.OPT, "Some")
            ck.match("gradient-guidance", inst, b, is_variant(r.ret, TT.RES, "Ok"), FALSE, chain(default_assume, assume_bool(gl, True)))


def finally_(ck):
    b = ck.fn("finally", "SpacecraftDynamics", "Dynamics")
    r = ck.ev(b, ["self", "st", "almanac"], opaque=("Spacecraft::mut_thrust_direction",))
    me, st, alm = S("self"), S("st"), S("almanac")
    law = me["guid_law"]
    has = is_variant(law, TT.OPT, "Some")
    neg_ = lt(F_(st, "mass", "prop_mass_kg"), num(0))
    ck.match("exhausted", "negative propellant is an error", b, is_variant(r.ret, TT.RES, "Ok"), bnot(neg_))
    th = app("GuidanceLaw::throttle", law[("Some", "0")], st)
    di = app("GuidanceLaw::direction", law[("Some", "0")], st)
    on = gt(th[("Ok", "0")], num(0))
    d = ite(on, some(di[("Ok", "0")]), TT.NONE)
    s1 = app("Spacecraft::mut_thrust_direction!0", st, d)
    s2 = app("GuidanceLaw::next!1", law[("Some", "0")], s1, alm)
    fuel = assume_bool(neg_, False)
    ck.match("hook", "with guidance", b, r.ret, ok(s2), chain(default_assume, fuel, assume_bool(has, True)))
    ck.match("hook", "without guidance", b, r.ret, ok(app("Spacecraft::mut_thrust_direction!0", st, TT.NONE)), chain(default_assume, fuel, assume_bool(has, False)))


RULES = [("eom", eom), ("direction", direction_norm), ("gradient", gradient), ("finally", finally_)]
