"""R15: Kalman filter time and measurement updates, process noise, estimates."""
from spec import *
import models
from mirflow import ORIGIN

TECHNIQUE = "gated value graphs of the filter over matrices of unknown size (non-commutative value numbering, covariances declared symmetric), compared with the filter equations in every branch case"
RULE_TEXT = ["time update: P = Phi P Phi' + Q with Q of the last applicable process noise only; deviation Phi x (zero when the reference is updated); the filter remembers the result",
             "measurement update: K = P H' (H P H' + R)^-1, Joseph-form covariance, residuals, whitened ratio, and rejection exactly above the threshold, in which case only a time update happens",
             "process noise: applies only after its start and within its disable time, decays from its initial epoch, is rotated to inertial, and is mapped by Gamma",
             "estimates: epoch, state, covariance accessors and their transformation into orbital elements"]
OPQ = ("ProcessNoise::propagate", "State::stm", "State::orbit")


def C(n):
    return "nalgebra::base::dimension::Const<%d>" % n


def install(ck):
    """The epoch of a state is not changed by adding a deviation (decided by R13 for Spacecraft)."""
    def ep(ev, fr, f, a, st, pc, dty):
        x = ev.close(st, ev.deref(st, a[0]))

        def one(x):
            if x.op == "app" and x.args[0] in ("State::add", "Add::add"):
                return one(x.args[1])
            return app("State::epoch", x)
        return lift(one, x)
    models.M["State::epoch"] = ep
    ck.vocab.add("State::epoch")


def me_(n):
    s = S("self")
    P = symmetric(S("P"))
    pe = rec(S("prev"), covar=P, nominal_state=S("prevnom"))
    return rec(s, prev_estimate=pe, process_noise=arr(*[S("n%d" % i) for i in range(n)])), pe, P


def parts(n, nom):
    me, pe, P = me_(n)
    dt = sub(app("State::epoch", nom), app("State::epoch", S("prevnom")))
    Q = [app("ProcessNoise::propagate", S("n%d" % i), app("State::orbit", nom), dt) for i in range(n)]
    q, used, bad = mk("mzero"), me["prev_used_snc"], FALSE
    for i in range(n):                      # the last applicable one wins
        v = Q[i][("Ok", "0")]
        c = is_variant(v, TT.OPT, "Some")
        symmetric(v[("Some", "0")])
        q = ite(c, v[("Some", "0")], q)
        used = ite(c, num(i), used)
    Phi = app("State::stm", nom)[("Ok", "0")]
    cb = madd(mmul(mmul(Phi, P), mtr(Phi)), q)
    cb = ite_q(n, Q, Phi, P)
    return me, pe, Phi, cb, used


def ite_q(n, Q, Phi, P):
    base = mmul(mmul(Phi, P), mtr(Phi))
    r = base
    for i in range(n):
        v = Q[i][("Ok", "0")]
        r = ite(is_variant(v, TT.OPT, "Some"), madd(base, v[("Some", "0")]), r)
    return r


def kfe(ck, **kw):
    k, a = ck.F.adt("KfEstimate")
    return variant(ck, "KfEstimate", "KfEstimate", **kw)


def after(me, est, used, n, epoch):
    ns = arr(*[rec(S("n%d" % i), prev_epoch=some(epoch)) for i in range(n)])
    return rec(me, prev_estimate=est, prev_used_snc=used, process_noise=ns)


def fields(ck, rule, inst, b, got, spec, names, **kw):
    for n in names:
        ck.match(rule, inst + ": " + n, b, F_(got, n), F_(spec, n), **kw)


KF = ("prev_estimate", "process_noise", "variant")
EST = ("nominal_state", "state_deviation", "covar", "covar_bar", "predicted", "stm")


ELSE = S("-")


def when(ck, cond, rule, inst, b, got, spec, **kw):
    """Obligation restricted to the case cond."""
    ck.match(rule, inst, b, ite(cond, got, ELSE), ite(cond, spec, ELSE), **kw)


def time_update(ck):
    b = ck.fn("time_update", "KalmanFilter")
    V = ck.F.adt("KalmanVariant")[0]
    nom = S("nom")
    for n in (0, 1, 2, 3):
        me, pe, Phi, cb, used = parts(n, nom)
        r = ck.ev(b, [("self", me), "nom"], opaque=OPQ)
        dev = ite(is_variant(me["variant"], V, "DeviationTracking"), mmul(Phi, pe["state_deviation"]), mk("mzero"))
        est = kfe(ck, nominal_state=nom, state_deviation=dev, covar=cb, covar_bar=cb, stm=Phi, predicted=TRUE)
        fields(ck, "time update", "%d process noises" % n, b, r.ret[("Ok", "0")], est, EST)
        ck.match("time update", "succeeds with %d process noises" % n, b, is_variant(r.ret, TT.RES, "Ok"), TRUE)
        fin = after(me, est, used, n, app("State::epoch", nom))
        for f in EST:
            ck.match("filter memory", "time update, %d process noises: %s" % (n, f), b, F_(r.final["self"], "prev_estimate", f), F_(est, f))
        fields(ck, "filter memory", "time update, %d process noises" % n, b, r.final["self"], fin, ("process_noise", "variant"))
        bad = app("State::stm", nom)
        ck.match("missing STM", "time update, %d process noises" % n, b, is_variant(r.ret, TT.RES, "Ok"), FALSE, assume=lambda a, t=is_variant(bad, TT.RES, "Ok"): (False if a is t.args[0] else default_assume(a)))


def is_ok_only(atom):
    return default_assume(atom)


def meas_update(ck):
    b = ck.fn("measurement_update", "KalmanFilter")
    V = ck.F.adt("KalmanVariant")[0]
    nom, y, c, H, R = S("nom"), S("obs"), S("comp"), S("H"), symmetric(S("R"))
    rej = S("rej")
    M = mk("const", "dim(M)")
    for n in (0, 1, 2):
        me, pe, Phi, cb, used = parts(n, nom)
        r = ck.ev(b, [("self", me), "nom", "obs", "comp", "R", "H", "rej"], opaque=OPQ)
        Sk = madd(mmul(mmul(H, cb), mtr(H)), R)
        pf = madd(y, smul(num(-1), c))

        def opt(x):
            return is_variant(x, TT.OPT, "Some")

        chS, chR, inv = opt(app("cholesky", Sk)), opt(app("cholesky", R)), opt(app("try_inverse", Sk))

        def whiten(a):
            return mmul(mk("minv", app("chol_l", a)), pf)
        q2 = ite(chS, models.odot(whiten(Sk), whiten(Sk)), models.odot(whiten(R), whiten(R)))
        wh = ite(chS, whiten(Sk), whiten(R))
        ratio = sqrt(q2 / M)
        reject = band(opt(rej), gt(ratio, rej[("Some", "0")]["num_sigmas"]))
        usable = bor(chS, chR)
        K = mmul(mmul(cb, mtr(H)), mk("minv", Sk))
        accept = band(usable, bnot(reject), bor(chS, inv))
        okr = is_variant(r.ret, TT.RES, "Ok")
        ck.match("outcome", "update succeeds iff the innovation is invertible, %d process noises" % n, b, okr, bor(band(usable, reject), accept))
        E = ck.F.adt("ODError")[0]
        ck.match("outcome", "singular noise, %d process noises" % n, b, band(bnot(okr), is_variant(r.ret[("Err", "0")], E, "SingularNoiseRk")), bnot(usable))
        dt_ = is_variant(me["variant"], V, "DeviationTracking")
        xb = mmul(Phi, pe["state_deviation"])

        def mneg_(x):
            return smul(num(-1), x)

        inn = madd(pf, mneg_(mmul(H, xb)))
        dev = ite(dt_, madd(xb, mmul(K, inn)), mmul(K, pf))
        post = ite(dt_, inn, madd(pf, mneg_(mmul(H, mmul(K, pf)))))
        IKH = madd(mk("mid"), mneg_(mmul(K, H)))
        J = madd(mmul(mmul(IKH, cb), mtr(IKH)), mmul(mmul(K, R), mtr(K)))
        est = kfe(ck, nominal_state=nom, state_deviation=dev, covar=J, covar_bar=cb, stm=Phi, predicted=FALSE)
        out = r.ret[("Ok", "0")]
        for f in EST:
            when(ck, accept, "accepted", "estimate %s, %d process noises" % (f, n), b, F_(out, "0", f), F_(est, f))
            when(ck, accept, "filter memory", "measurement update %s, %d process noises" % (f, n), b, F_(r.final["self"], "prev_estimate", f), F_(est, f))
        fin = after(me, est, used, n, app("State::epoch", nom))
        for f in ("process_noise", "variant"):
            when(ck, accept, "filter memory", "measurement update %s, %d process noises" % (f, n), b, F_(r.final["self"], f), F_(fin, f))
        res = dict(epoch=app("State::epoch", nom), prefit=pf, postfit=post, whitened_resid=wh, ratio=ratio, rejected=FALSE, real_obs=y, computed_obs=c)
        for f, v in res.items():
            when(ck, accept, "residual", "accepted %s, %d process noises" % (f, n), b, F_(out, "1", f), v)
        when(ck, accept, "gain", "%d process noises" % n, b, F_(out, "2"), some(K))
        rj = band(usable, reject)
        res.update(rejected=TRUE)
        for f, v in res.items():
            if f != "postfit":
                when(ck, rj, "residual", "rejected %s, %d process noises" % (f, n), b, F_(out, "1", f), v)
        when(ck, rj, "gain", "none when rejected, %d process noises" % n, b, F_(out, "2"), NONE)
        tu = kfe(ck, nominal_state=nom, state_deviation=ite(dt_, xb, mk("mzero")), covar=cb, covar_bar=cb, stm=Phi, predicted=TRUE)
        for f in EST:
            when(ck, rj, "rejected", "only a time update, %s, %d process noises" % (f, n), b, F_(out, "0", f), F_(tu, f))
            when(ck, rj, "filter memory", "rejection %s, %d process noises" % (f, n), b, F_(r.final["self"], "prev_estimate", f), F_(tu, f))
        when(ck, rj, "filter memory", "rejection process_noise, %d process noises" % n, b, F_(r.final["self"], "process_noise"), F_(fin, "process_noise"))


def noise(ck):
    me = S("self")
    b = ck.fn("to_matrix", "ProcessNoise")
    ep = S("epoch")
    r = ck.ev(b, ["self", "epoch"], subst={"A": C(3)})
    late = band(is_variant(me["start_time"], TT.OPT, "Some"), gt(me["start_time"][("Some", "0")], ep))
    stale = band(is_variant(me["prev_epoch"], TT.OPT, "Some"), gt(ep - me["prev_epoch"][("Some", "0")], me["disable_time"]))
    none = bor(late, stale)
    ck.match("process noise", "applicability", b, is_variant(r.ret, TT.OPT, "Some"), bnot(none))
    dec = is_variant(me["decay_diag"], TT.OPT, "Some")
    for i in range(3):
        for j in range(3):
            d = ment(me["diag"], i, 0)
            e = app("exp", neg(mul(index(me["decay_diag"][("Some", "0")], num(i)), ep - me["init_epoch"][("Some", "0")])))
            v = ite(dec, d * e, d) if i == j else num(0)
            when(ck, bnot(none), "process noise", "matrix %d,%d" % (i, j), b, ment(r.ret[("Some", "0")], i, j), v)
    b = ck.fn("propagate", "ProcessNoise")
    o, dt = S("orbit"), S("dt")
    LO = is_variant(me["local_frame"], TT.OPT, "Some")
    for n in (6, 9):
        r = ck.ev(b, ["self", "orbit", "dt"], subst={"A": C(3), "S": C(n)}, opaque=("ProcessNoise::to_matrix",))
        q = app("ProcessNoise::to_matrix", me, o["epoch"])
        has = is_variant(q, TT.OPT, "Some")
        ck.match("process noise", "contribution iff applicable and within the disable time, %d states" % n, b, is_variant(r.ret[("Ok", "0")], TT.OPT, "Some"), band(has, le(dt, me["disable_time"])))
        dcm = app("CartesianState::dcm_to_inertial", o, me["local_frame"][("Some", "0")])[("Ok", "0")]["rot_mat"]
        Q = [[ment(q[("Some", "0")], i, j) for j in range(3)] for i in range(3)]
        Rm = [[ment(dcm, i, j) for j in range(3)] for i in range(3)]
        Q0 = [list(x) for x in Q]
        for i in range(3):
            t = num(0)
            for k in range(3):
                for l in range(3):
                    t = t + Rm[i][k] * Q0[k][l] * Rm[i][l]
            Q[i][i] = ite(LO, t, Q[i][i])
        g = [[num(0)] * 3 for _ in range(n)]
        for i in range(3):
            g[i][i], g[i + 3][i] = dt * dt / 2, dt
        # to_matrix is diagonal (above): off-diagonals are left out of the comparison
        offs = [(i, j) for i in range(3) for j in range(3) if i != j]
        app_ = band(has, le(dt, me["disable_time"]))
        got = r.ret[("Ok", "0")][("Some", "0")]
        for i in range(n):
            for j in range(n):
                t = num(0)
                for k in range(3):
                    for l in range(3):
                        t = t + g[i][k] * Q[k][l] * g[j][l]
                when(ck, app_, "process noise", "Gamma Q Gamma' %d,%d of %d" % (i, j, n), b, ment(got, i, j), t)
    v = [S("v%d" % i) for i in range(3)]
    d = [S("d%d" % i) for i in range(3)]

    def built(inst, fn, r, diag, **kw):
        ex = dict(start_time=NONE, local_frame=S("lf"), disable_time=S("dis"), init_epoch=NONE, decay_diag=NONE, prev_epoch=NONE)
        ex.update(kw)
        for k, x in ex.items():
            ck.match("process noise", "%s: %s" % (inst, k), fn, F_(r.ret, k), x)
        for i in range(3):
            ck.match("process noise", "%s: diag %d" % (inst, i), fn, ment(F_(r.ret, "diag"), i, 0), diag[i])
    b = ck.fn("from_diagonal", "ProcessNoise")
    built("from_diagonal", b, ck.ev(b, [("values", arr(*v)), "dis", "lf"], subst={"A": C(3)}), v)
    b = ck.fn("with_decay", "ProcessNoise")
    built("with_decay", b, ck.ev(b, [("values", arr(*v)), "dis", ("dec", arr(*d)), "lf"], subst={"A": C(3)}), v, decay_diag=some(arr(*d)))
    b = ck.fn("with_start_time", "ProcessNoise")
    built("with_start_time", b, ck.ev(b, ["dis", ("values", arr(*v)), "start"], subst={"A": C(3)}), v, start_time=some(S("start")), local_frame=NONE)
    b = ck.fn("from_velocity_km_s", "ProcessNoise")
    built("from_velocity_km_s", b, ck.ev(b, [("vel", arr(*v)), "dur", "dis", "lf"]), [x / S("dur") for x in v])


def filters(ck):
    me, pe, P = me_(2)
    ep = app("State::epoch", S("prevnom"))
    n = lambda x: rec(x, init_epoch=some(ep))
    sn = S("snc")
    b = ck.fn("with_process_noise", "KalmanFilter")
    fields(ck, "configuration", "with_process_noise replaces", b, ck.ev(b, [("self", me), "snc"]).ret, rec(me, process_noise=arr(n(sn))), KF)
    b = ck.fn("and_with_process_noise", "KalmanFilter")
    fields(ck, "configuration", "and_with_process_noise appends", b, ck.ev(b, [("self", me), "snc"]).ret, rec(me, process_noise=arr(S("n0"), S("n1"), n(sn))), KF)
    b = ck.fn("set_process_noise", "KalmanFilter")
    fields(ck, "configuration", "set_process_noise replaces", b, ck.ev(b, [("self", me), "snc"]).final["self"], rec(me, process_noise=arr(sn)), KF)
    b = ck.fn("initialize_process_noises", "KalmanFilter")
    fields(ck, "configuration", "initialize_process_noises", b, ck.ev(b, [("self", me)]).final["self"], rec(me, process_noise=arr(n(S("n0")), n(S("n1")))), KF)
    b = ck.fn("from_process_noise", "KalmanFilter")
    r = ck.ev(b, [("est", pe), "var", "snc"])
    fields(ck, "configuration", "from_process_noise", b, r.ret, variant(ck, "KalmanFilter", "KalmanFilter", prev_estimate=pe, process_noise=arr(n(sn)), variant=S("var"), prev_used_snc=num(0)), KF)
    b = ck.fn("new", "KalmanFilter")
    r = ck.ev(b, [("est", pe), "var"])
    fields(ck, "configuration", "new", b, r.ret, variant(ck, "KalmanFilter", "KalmanFilter", prev_estimate=pe, process_noise=arr(), variant=S("var"), prev_used_snc=num(0)), KF)
    b = ck.fn("replace_state", "KalmanFilter")
    ck.match("configuration", "replace_state", b, ck.ev(b, ["self"]).ret, is_variant(S("self")["variant"], ck.F.adt("KalmanVariant")[0], "ReferenceUpdate"))
    b = ck.fn("set_previous_estimate", "KalmanFilter")
    fields(ck, "configuration", "set_previous_estimate", b, ck.ev(b, [("self", me), "est"]).final["self"], rec(me, prev_estimate=S("est")), KF)


ELS = ("SemiMajorAxis", "Eccentricity", "Inclination", "RAAN", "AoP", "TrueAnomaly")


def estimates(ck):
    nom = S("nom")
    z, I = mk("mzero"), mk("mid")

    def built(inst, b, got, covar, dev=z):
        for k, v in dict(nominal_state=nom, state_deviation=dev, covar=covar, covar_bar=covar, predicted=TRUE, stm=I).items():
            ck.match("estimate", "%s: %s" % (inst, k), b, F_(got, k), v)
    b = ck.fn("from_covar", "KfEstimate")
    built("from_covar", b, ck.ev(b, ["nom", "P"]).ret, S("P"))
    b = ck.fn("from_diag", "KfEstimate")
    built("from_diag", b, ck.ev(b, ["nom", "d"]).ret, app("from_diagonal", S("d")))
    b = ck.fn("zeros", "KfEstimate")
    built("zeros", b, ck.ev(b, ["nom"]).ret, z)
    me = S("self")
    for f in ("nominal_state", "state_deviation", "covar", "predicted", "stm"):
        b = ck.fn(f, "KfEstimate")
        ck.match("estimate", f, b, ck.ev(b, ["self"]).ret, me[f])
    b = ck.fn("predicted_covar", "KfEstimate")
    ck.match("estimate", "predicted_covar", b, ck.ev(b, ["self"]).ret, me["covar_bar"])
    for f, g in (("set_state_deviation", "state_deviation"), ("set_covar", "covar")):
        b = ck.fn(f, "KfEstimate")
        ck.match("estimate", f, b, ck.ev(b, ["self", "x"]).final["self"], rec(me, **{g: S("x")}))
    b = ck.fn("mul", "KfEstimate")
    r = ck.ev(b, ["self", "x"])
    for f in EST:
        ck.match("estimate", "scaled by x: " + f, b, F_(r.ret, f), smul(S("x") * S("x"), me["covar"]) if f == "covar" else me[f])


def elements(ck):
    me = S("self")
    P = me["covar"]
    b = ck.fn("keplerian_covar", "KfEstimate")
    r = ck.ev(b, ["self"])
    grads = {}
    for e in ELS:
        pr = par_of(ck, me, e)
        grads[e] = [app("OrbitalElementPartials::wrt_" + w, pr) for w in ("x", "y", "z", "vx", "vy", "vz")]
    for i, e in enumerate(ELS):
        for j, f in enumerate(ELS):
            t = num(0)
            for k in range(6):
                for l in range(6):
                    t = t + grads[e][k] * ment(P, k, l) * grads[f][l]
            ck.match("orbital elements", "covariance of %s and %s" % (e, f), b, ment(r.ret, i, j), t)
    b = ck.fn("sigma_for", "KfEstimate")
    for e in ELS[:3]:
        r = ck.ev(b, ["self", ("p", el_(ck, e))])
        t = num(0)
        for k in range(6):
            for l in range(6):
                t = t + grads[e][k] * ment(P, k, l) * grads[e][l]
        ck.match("orbital elements", "sigma of " + e, b, r.ret, ok(sqrt(t)))


def el_(ck, e):
    return variant(ck, "OrbitalElement", e)


def par_of(ck, me, e):
    return app("OrbitGrad::partial_for", app("conv", string("OrbitGrad"), me["nominal_state"]["orbit"]), el_(ck, e))[("Ok", "0")]


def residuals(ck):
    me, t = S("self"), S("t")
    for m, f in (("prefit", "prefit"), ("postfit", "postfit"), ("trk_noise", "tracker_msr_noise"), ("real_obs", "real_obs"), ("computed_obs", "computed_obs"), ("whitened_resid", "whitened_resid")):
        b = ck.fn(m, "Residual", "")
        ix = app("IndexSet::get_index_of", me["msr_types"], t)
        ck.match("residual", m + " by measurement type", b, ck.ev(b, ["self", "t"]).ret, ite(is_variant(ix, TT.OPT, "Some"), some(mk("ent", me[f], ix[("Some", "0")], num(0))), NONE))
    b = ck.fn("set_epoch", "KfEstimate")
    r = ck.ev(b, ["self", "t"], opaque=("State::set_epoch",))
    ck.match("estimates", "setting the epoch moves the estimate", b, r.final["self"], rec(me, nominal_state=app("State::set_epoch!0", me["nominal_state"], t)))
    b = ck.fn("nis", "Residual")
    n = app("norm", me["whitened_resid"])
    ck.match("residual", "normalised innovation squared", b, ck.ev(b, ["self"]).ret, n * n)


RULES = [("install", install), ("time update", time_update), ("measurement update", meas_update), ("process noise", noise), ("configuration", filters),
         ("estimates", estimates), ("orbital elements", elements), ("residuals", residuals)]
