"""R03: propagation ends exactly at the requested epoch, publishes every state once, and leaves the instance ready for the next call."""
from spec import *

TECHNIQUE = "gated value graph of the propagation entry points and of the propagation loop (loop-carried instance state), each exit compared with its specification"
RULE_TEXT = ["an ordinary step is only taken when it does not pass the end epoch", "the last step is a fixed step of exactly end - now",
             "step size, step kind and direction are restored after the last step; the frame is rotated back", "every state reached is published once, in order",
             "entry points request exactly the asked duration", "one step = derive, advance the epoch by the step taken, then the post-step hook"]
OPAQUE = ("PropInstance::derive", "PropInstance::single_step")


def single(ck):
    b = ck.fn("single_step", "PropInstance")
    r = ck.ev(b, ["self"], opaque=("PropInstance::derive",))
    s = S("self")
    d = app("PropInstance::derive", s)
    s1 = app("PropInstance::derive!0", s)
    st = app("State::set!0", s1["state"], app("State::epoch", s1["state"]) + d[("Ok", "0")]["0"], d[("Ok", "0")]["1"])
    fin = app("Dynamics::finally", F_(s1, "prop", "dynamics"), st, s1["almanac"])
    ck.match("step", "state", b, r.final["self"]["state"], fin[("Ok", "0")])
    ck.match("step", "result", b, r.ret, ok(UNIT))
    # errors surface
    ck.match("step", "error", b, is_variant(r.ret, TT.RES, "Ok"), band(is_variant(d, TT.RES, "Ok"), is_variant(fin, TT.RES, "Ok")), None)


def loop(ck):
    b = ck.fn("propagate", "PropInstance")
    r = ck.ev(b, ["self", "duration", "chan", "stop"], opaque=OPAQUE)
    if len(r.loops) != 1:
        raise Undecidable("%d loops" % len(r.loops))
    L = r.loops[0]
    s, dur, chan, stop = S("self"), S("duration"), S("chan"), S("stop")
    if len(L.mus) != 1 or not same(L.mus[list(L.mus)[0]][1], app("PropInstance::single_step!0", list(L.mus)[0])):
        m = [x for x in L.mus if L.mus[x][1].op == "app" and L.mus[x][1].args[0] == "PropInstance::single_step!0"]
        if len(m) != 1:
            raise Undecidable("no unique loop-carried instance")
        g = m[0]
    else:
        g = list(L.mus)[0]
    end = app("State::epoch", s["state"]) + dur
    now = app("State::epoch", g["state"])
    back = lt(dur, num(0))
    nostop = chain(default_assume, assume_bool(is_variant(stop, TT.OPT, "Some"), False))
    mus = (g,)
    target = now + g["step_size"]
    past = ite(back, lt(target, end), gt(target, end))
    ex = not_equal(target, end)
    # (1) loop again only if the step stays inside
    zero = not_zero(dur)
    ck.match("stays-inside", "ordinary step", b, L.back_pc, bnot(past), nostop, mus, exclude=ex)
    ck.match("stays-inside", "advance", b, L.mus[g][1], app("PropInstance::single_step!0", g), nostop, mus)
    # (2) initial value of the loop
    f0 = app("Dynamics::finally", F_(s, "prop", "dynamics"), s["state"], s["almanac"])[("Ok", "0")]
    fr = F_(s, "prop", "opts", "integration_frame")
    orb = app("State::orbit", f0)
    nofr = chain(nostop, assume_bool(is_variant(fr, TT.OPT, "Some"), False))
    init = L.mus[g][0]
    ck.match("start", "state", b, init["state"], f0, nofr, mus)
    ck.match("start", "direction", b, init["step_size"], ite(back, neg(s["step_size"]), s["step_size"]), nofr, mus)
    ck.match("start", "step kind", b, tobool(init["fixed_step"]), tobool(s["fixed_step"]), nofr, mus)
    tr = app("Almanac::transform_to", s["almanac"], orb, fr[("Some", "0")], TT.NONE)[("Ok", "0")]
    f1 = fr[("Some", "0")]
    for nm in ("mu_km3_s2", "shape"):
        tr = ite(is_variant(f1[nm], TT.OPT, "Some"), rec(tr, frame=rec(tr["frame"], **{nm: some(f1[nm][("Some", "0")])})), tr)
    other = eq(f1, orb["frame"])
    withfr = chain(nostop, assume_bool(is_variant(fr, TT.OPT, "Some"), True), assume_bool(other, False))
    ck.match("start", "integration frame", b, init["state"], app("State::set_orbit!0", f0, tr), withfr, mus)
    # (3) final step
    g2 = rec(g, step_size=end - now, fixed_step=TRUE)
    after = app("PropInstance::single_step!0", g2)
    exitp = []
    exf = lambda dec: ex(dec)
    at_end = eq(end, now)
    slice_ = chain(nofr, assume_bool(eq(dur, num(0)), False))
    st_fin = ite(past, ite(at_end, g["state"], after["state"]), BOT)
    ck.match("last-step", "returned state", b, r.ret, ite(past, ok(ite(at_end, g["state"], after["state"])), r.ret), slice_, mus, exclude=exf)
    ck.match("last-step", "zero duration", b, r.ret, ok(s["state"]), chain(default_assume, assume_bool(eq(dur, num(0)), True)), mus)
    fs = r.final["self"]
    ck.match("restore", "step size", b, fs["step_size"], ite(past, ite(back, neg(g["step_size"]), g["step_size"]), fs["step_size"]), slice_, mus, exclude=exf)
    ck.match("restore", "step kind", b, tobool(fs["fixed_step"]), ite(past, tobool(g["fixed_step"]), tobool(fs["fixed_step"])), slice_, mus, exclude=exf)
    ck.match("restore", "state kept", b, fs["state"], ite(past, ite(at_end, g["state"], after["state"]), fs["state"]), slice_, mus, exclude=exf)
    # (4) frame rotated back
    sw = chain(withfr, assume_bool(eq(dur, num(0)), False))

    def rot(x):
        return app("State::set_orbit!0", x["state"], app("Almanac::transform_to", x["almanac"], app("State::orbit", x["state"]), orb["frame"], TT.NONE)[("Ok", "0")])
    ck.match("frame", "returned in the original frame", b, r.ret, ite(past, ok(ite(at_end, rot(g), rot(after))), r.ret), sw, mus, exclude=exf)
    # (5) early stop
    cond = app("apply", stop[("Some", "0")], app("PropInstance::single_step!0", g)["state"])
    st1 = chain(default_assume, assume_bool(is_variant(fr, TT.OPT, "Some"), False), assume_bool(is_variant(stop, TT.OPT, "Some"), True), assume_bool(eq(dur, num(0)), False))
    n1 = app("PropInstance::single_step!0", g)
    trig = tobool(cond[("Ok", "0")])
    ck.match("stop", "loop continues until the condition", b, L.back_pc, band(bnot(past), bnot(trig)), st1, mus, exclude=exf)
    ck.match("stop", "state returned", b, r.ret, ite(past, r.ret, ok(n1["state"])), st1, mus, exclude=exf)
    ck.match("stop", "direction restored", b, fs["step_size"], ite(past, fs["step_size"], ite(back, neg(n1["step_size"]), n1["step_size"])), st1, mus, exclude=exf)
    # (6) publication
    sends = calls_to(r, "Sender::send")
    some_chan = is_variant(chan, TT.OPT, "Some")
    if not sends:
        ck.violation("publish", "steps", b.where(), "no state is ever sent on the channel")
        return
    for nm, st, want in (("ordinary step", n1["state"], L.back_pc), ("last step", after["state"], band(past, bnot(at_end)))):
        got = FALSE
        for c in sends:
            if same(c[1][1], st):
                got = bor(got, c[2])
        for nm2, sl in (("without stop condition", chain(slice_)), ("with stop condition", st1)):
            ck.match("publish", nm + ", " + nm2, b, got, band(want, some_chan), sl, mus, exclude=exf)
    for c in sends:
        ck.expect(any(same(c[1][1], x) for x in (n1["state"], after["state"])), "publish", "only reached states", b.where(), "sends %s" % show(c[1][1])[:200])


def not_zero(d):
    return None


def nostop_closure(t):
    """None, or a condition that is never true."""
    if is_none(t):
        return True
    x = field(t, "0", "Some") if t.op == "agg" else None
    return x is not None and x.op == "lam" and same(x.args[1], ok(FALSE))


def is_none(t):
    return same(t, TT.NONE)


def entry(ck):
    s = S("self")
    ep = app("State::epoch", s["state"])
    for fn, want_d, chan in (("for_duration", S("x"), TT.NONE), ("until_epoch", S("x") - ep, TT.NONE),
                             ("for_duration_with_channel", S("x"), some(S("tx"))), ("until_epoch_with_channel", S("x") - ep, some(S("tx"))),
                             ("for_duration_with_traj", S("x"), None), ("until_epoch_with_traj", S("x") - ep, None)):
        b = ck.fn(fn, "PropInstance")
        r = ck.ev(b, ["self", "x", "tx"][:b.argc], opaque=("PropInstance::propagate", "Traj::finalize", "channel"))
        cs = calls_to(r, "PropInstance::propagate")
        if len(cs) != 1:
            ck.undecided("entry", fn, "%d calls of the propagation loop" % len(cs))
            continue
        a = cs[0][1]
        ck.match("entry", fn + ": duration", b, a[1], want_d)
        ck.match("entry", fn + ": instance", b, a[0], s)
        if chan is not None:
            ck.match("entry", fn + ": channel", b, a[2], chan)
            ck.match("entry", fn + ": result", b, r.ret, app("PropInstance::propagate", *a))
        if not nostop_closure(a[3]):
            ck.undecided("entry", fn + ": stop condition", show(a[3]))
        else:
            ck.held("entry", fn + ": stop condition", "never stops early")
        if chan is None:
            p = app("PropInstance::propagate", *a)
            tx = app("mpsc::channel")["0"]
            rx = app("mpsc::channel")["1"]
            ck.match("entry", fn + ": channel", b, a[2], some(tx))
            tr = field(field(r.ret, "0", "Ok"), "1")
            ck.match("entry", fn + ": end state", b, field(field(r.ret, "0", "Ok"), "0"), p[("Ok", "0")])
            fin = calls_to(r, "Traj::finalize")
            if len(fin) != 1:
                ck.undecided("entry", fn + ": trajectory", "%d finalize calls" % len(fin))
                continue
            states = field(fin[0][1][0], "states")
            got = [x for x in subterms(states)]
            has_start = any(x.op == "push" and same(x.args[1], s["state"]) for x in got)
            has_rx = any(same(x, rx) for x in got if x.op in ("app", "proj", "fld", "field"))
            anypush = any(x.op == "push" for x in got)
            if has_start and has_rx:
                ck.held("entry", fn + ": trajectory", "states received plus the start state, finalized")
            elif anypush or has_rx:
                ck.violation("entry", fn + ": trajectory", b.where(), "trajectory is built from %s: it must hold the start state and every state received" % show(states)[:300])
            else:
                ck.undecided("entry", fn + ": trajectory", show(states)[:200])


RULES = [("single", single), ("loop", loop), ("entry", entry)]
