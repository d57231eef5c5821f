"""R02: one integration step is the Runge-Kutta step of the selected tableau, with the documented accept/reject rule."""
from spec import *
from r01 import table

TECHNIQUE = "gated value graph of the step function per integration method (stage loops expanded, retry loop summarised), compared with the Runge-Kutta step built from the method's own table"
RULE_TEXT = ["stage i is evaluated at (c_i h, x + h sum a_ij k_j) and the next state is x + h sum b_i k_i",
             "error estimate is the selected norm of h sum (b_i - b*_i) k_i",
             "retry iff error > tolerance and |h| > minimum step and attempts remain",
             "retry and growth proposals follow 0.9 h (tol/err)^(1/q), clamped to the configured bounds, direction kept",
             "reported step, error and attempts are those of the accepted try; a NaN state is refused"]


def setup(ck, variant_):
    k, a = ck.F.adt("IntegratorMethod")
    o, s, A, B = table(ck, k, variant_)
    if not all(x.op == "num" for x in A.args[1:] + B.args[1:]) or not is_num(s):
        raise Undecidable("table is not constant")
    n = int(nval(s))
    prop = rec(S("prop"), method=adt(k, variant_, True, (), []))
    me = rec(S("self"), prop=prop, k=arr(*[S("k%d" % i) for i in range(n)]))
    b = ck.fn("derive", "PropInstance")
    r = ck.ev(b, [("self", me)], opaque=("ErrorControl::estimate", "Dynamics::eom"))
    if len(r.loops) != 1 or r.lost:
        raise Undecidable("step function has %d summarised loops" % len(r.loops))
    return b, r, prop, int(nval(o)), n, [x for x in A.args[1:]], [x for x in B.args[1:]]


def is_any(atom):
    return atom.op == "any" or (atom.op == "app" and atom.args[0] == "any")


def step(ck):
    k, a = ck.F.adt("IntegratorMethod")
    for v in a["variants"]:
        try:
            one(ck, v["name"])
        except Undecidable as e:
            ck.undecided("step", v["name"], e)


def one(ck, vn):
    b, r, prop, order, n, A, B = setup(ck, vn)
    self_ = S("self")
    L = r.loops[0]
    h = mu_by_init(L, self_["step_size"])
    att = mu_by_init(L, num(1))
    opts = prop["opts"]
    x = app("State::to_vector", self_["state"])
    fixed = field(self_, "fixed_step")
    fixed = batom(fixed) if fixed.op != "bdd" else fixed
    mus = (h, att)

    def nxt(h):
        ks = []
        idx = 0
        for i in range(n):
            ci, wi = num(0), mk("mzero")
            for j in range(i):
                ci = ci + A[idx]
                wi = madd(wi, smul(A[idx], ks[j]))
                idx += 1
            e = app("Dynamics::eom", prop["dynamics"], ci * h, madd(x, smul(h, wi)) if i else x, self_["state"], self_["almanac"])
            ks.append(field(e, "0", "Ok"))
        nx, ee = x, mk("mzero")
        for i in range(n):
            nx = madd(nx, smul(h * B[i], ks[i]))
            if len(B) >= 2 * n:
                ee = madd(ee, smul(h * (B[i] - B[i + n]), ks[i]))
        return nx, ee

    nx, ee = nxt(h)
    err_ = app("ErrorControl::estimate", opts["error_ctrl"], ee, nx, x)
    tol, mn, mx = opts["tolerance"], opts["min_step"], opts["max_step"]
    ok_ = chain(default_assume, setting([(fixed, False)]), lambda a: False if is_any(a) else None)
    okf = chain(default_assume, setting([(fixed, True)]), lambda a: False if is_any(a) else None)
    # fixed step
    s0 = {h: self_["step_size"], att: num(1)}
    nx0, _ = nxt(self_["step_size"])
    ck.match("fixed-step", vn, b, subst(r.ret, s0), ok(tup(self_["step_size"], nx0)), okf, mus)
    ck.match("fixed-step-no-retry", vn, b, L.back_pc, FALSE, okf, mus)
    ck.match("fixed-step-details", vn, b, subst(F_(r.final["self"], "details", "step"), s0), self_["step_size"], okf, mus)
    ck.match("fixed-step-kept", vn, b, F_(r.final["self"], "step_size"), self_["step_size"], okf, mus)
    if order and vn == "RungeKutta4":
        return
    # adaptive
    ck.match("adaptive-result", vn, b, r.ret, ok(tup(h, nx)), ok_, mus)
    accept = bor(le(err_, tol), le(absv(h), mn), ge(att, opts["attempts"]))
    ck.match("retry-condition", vn, b, L.back_pc, bnot(accept), ok_, mus)
    fs = r.final["self"]
    ck.match("reported-error", vn, b, F_(fs, "details", "error"), err_, ok_, mus)
    ck.match("reported-step", vn, b, F_(fs, "details", "step"), h, ok_, mus)
    ck.match("reported-attempts", vn, b, F_(fs, "details", "attempts"), att, ok_, mus)
    grow = num(0.9) * h * app("pow", tol / err_, num(1) / num(order))
    grow = ite(gt(absv(grow), absv(mx)), mx * app("signum", grow), grow)
    new = ite(lt(err_, tol), grow, h)
    new = ite(lt(absv(new), mn), mn * ite(lt(new, num(0)), num(-1), num(1)), new)
    ck.match("next-step", vn, b, F_(fs, "step_size"), new, ok_, mus)
    ck.match("attempt-count", vn, b, L.mus[att][1], att + 1, ok_, mus)
    sh = num(0.9) * h * app("pow", tol / err_, num(1) / num(order - 1))
    shr = ite(lt(absv(sh), mn), app("copysign", mn, h), sh)
    ck.match("shrunk-step", vn, b, L.mus[h][1], shr, ok_, mus)
    # NaN refused: under the any-NaN atom no Ok may come out
    nanok = chain(default_assume, setting([(fixed, False)]), lambda a: True if is_any(a) else None)
    bad = [a for _, (a,) in cases((is_variant(r.ret, TT.RES, "Ok"),), nanok) if a is TRUE]
    has = any(is_any(a) for a in atoms(r.ret))
    if has:
        ck.expect(not bad, "nan-refused", vn, b.where(), "a step whose state contains NaN is returned as Ok")
    else:
        nan = [x for x in subterms(r.ret) if x.op == "app" and x.args[0] == "is_nan"]
        if nan:
            ck.undecided("nan-refused", vn, "NaN test of an unknown form")
        else:
            ck.violation("nan-refused", vn, b.where(), "no NaN test on the accepted state")


RULES = [("step", step)]
