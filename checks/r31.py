"""R31: propagation until an event stops at the requested crossing and returns the state where the event occurs."""
from spec import *
from r20 import okv

TECHNIQUE = "gated value graph of the event search: the stop condition applied to a symbolic history of states, the bracket handed to the root finder, the function it searches, and the returned state and trajectory"
RULE_TEXT = ["the stop condition is true exactly when the event function has crossed zero the requested number of times since the start", "crossings are judged on the event function in the requested frame, at the start and at every state",
             "a search that ends at the time limit is an error", "the root finder searches the event function (same event, same frame) of the interpolated trajectory between the last state before and the first state after the crossing, forward or backward",
             "the returned state is the trajectory at the epoch found, and the trajectory holds every state visited in chronological order"]
ASSUMPTIONS = ["the search is made in the frame of the state (no separate integration frame)", "the root finder and the event function of the anise library are correct"]


def call(ck, clo, args):
    """Apply a closure value in the evaluation under way."""
    e = ck.live
    fr, f, dty, st, pc, line = e.cur
    r = e.apply(fr, clo, args, st, pc)
    if isinstance(r, tuple):
        s2 = r[1]
        st.clear()
        st.update(s2)
        e.cur = (fr, f, dty, st, pc, line)
        return r[0]
    return r


def events(ck):
    b = ck.fn("until_event", "PropInstance")
    r = ck.ev(b, ["self", "dur", "event", "frame"], opaque=("PropInstance::until_nth_event",))
    ck.match("first", "until_event", b, r.ret, app("PropInstance::until_nth_event", S("self"), S("dur"), S("event"), S("frame"), num(1)))
    b = ck.fn("until_nth_event", "PropInstance")
    ck.vocab |= {"State::orbit", "Event::eval", "Almanac::transform_to", "Traj::at", "brent_solver", "utils::brent_solver", "ScalarExpr::is_angle", "State::epoch"}
    s = rec(S("self"), state=S("s0"))
    event, alm = S("event"), S("self")["almanac"]
    ang = batom(app("ScalarExpr::is_angle", event["scalar"]))
    for fname, fr in (("own frame", TT.NONE), ("event frame", some(S("fr")))):
        def orb(x):
            o = app("State::orbit", x)
            return o if fr is TT.NONE else app("Almanac::transform_to", alm, o, S("fr"), TT.NONE)[("Ok", "0")]

        def raw(x):
            return app("Event::eval", event, orb(x), alm)

        def y(x):
            return raw(x)[("Ok", "0")]

        def cross(p, n, form):
            p, n = y(S(p)), y(S(n))
            opposite = lt(p * n, num(0)) if form == 0 else bor(band(lt(p, num(0)), gt(n, num(0))), band(gt(p, num(0)), lt(n, num(0))))
            return ite(ang, band(bnot(eq(app("signum", p), app("signum", n))), lt(absv(n - p), num(180))), opposite)
        for way, sg in (("forward", 1), ("backward", -1)):
            for trig in (1, 2):
                for found in (True, False):
                    one(ck, b, s, event, alm, fname, fr, raw, y, orb, cross, ang, way, sg, trig, found)


def one(ck, b, s, event, alm, fname, fr, raw, y, orb, cross, ang, way, sg, trig, found):
    tag = "%s, %s, occurrence %d, %s" % (fname, way, trig, "reached" if found else "not reached")
    at = {"s0": 0, "a": 10, "b": 20, "e": 30}
    out = {}
    ep = lambda k: S("t") + num(sg * at[k])
    last = "e" if found else "b"

    def epoch(x):
        for k in at:
            if same(x, S(k)):
                return ep(k)
        return None

    def propagate(me, dur, tx, cond):
        out["call"] = (me, dur, tx)
        c = field(cond, "0", "Some")
        out["stops"] = [call(ck, c, [S(k)]) for k in (("a", "b", "e") if found else ("a", "b"))]
        return ok(S(last)), rec(me, state=S(last))

    def brent(f, ev_, x0, x1):
        out["bracket"] = (ev_, x0, x1)
        out["f"] = call(ck, f, [S("q")])
        return ok(S("E"))

    def finalize(tr):
        l = models_plist(field(tr, "states"))
        if l is None or any(c is not TRUE for c, x in l):
            return None
        xs = [x for c, x in l]
        if any(epoch(x) is None for x in xs):
            return None
        key = {S(k): sg * at[k] for k in at}
        xs = [x for i, x in enumerate(xs) if not any(same(x, z) for z in xs[:i])]
        return UNIT, with_field(tr, "states", None, arr(*sorted(xs, key=lambda x: key[x])))

    def collect(it):
        return arr(S("a"), S("b")) if any(x.op == "agg" and len(x.args) == 3 and same(x, arr(S("a"), S("b"))) for x in subterms(it)) else None

    def channel():
        return mk("agg", ("tuple",), S("tx"), arr(S("a"), S("b")))
    r = ck.ev(b, [("self", s), ("dur", num(sg * 100)), "event", ("frame", fr), ("trigger", num(trig))], opaque=("Traj::at",),
              contract={"State::epoch": epoch, "PropInstance::propagate": propagate, "brent_solver": brent, "utils::brent_solver": brent, "Traj::finalize": finalize,
                        "ParallelIterator::collect": collect, "mpsc::channel": channel, "channel": channel})
    if "stops" not in out:
        raise Undecidable("no propagation with a stop condition")
    me, dur, tx = out["call"]
    ck.match("search", tag + ": duration", b, dur, num(sg * 100))
    ck.match("search", tag + ": channel", b, tx, some(S("tx")))
    ck.match("search", tag + ": start", b, me["state"], S("s0"))
    hist = ("s0", "a", "b", "e")
    for k, got in enumerate(out["stops"]):
        wants = []
        for form in (0, 1):                     # opposite signs: a negative product, or one below and one above zero
            cr = [cross(p, n, form) for p, n in zip(hist, hist[1:])]
            wants.append(bor(*cr[:k + 1]) if trig == 1 else bor(*([band(cr[i], cr[j]) for i in range(k + 1) for j in range(i)] or [FALSE])))
        ck.match_any("count", tag + ": stop after state %d" % (k + 1), b, tobool(okv(got)), wants)
    oks = band(is_variant(raw(S("a")), TT.RES, "Ok"), *([] if fr is TT.NONE else [is_variant(app("Almanac::transform_to", alm, app("State::orbit", S("a")), S("fr"), TT.NONE), TT.RES, "Ok")]))
    ck.match("count", tag + ": error", b, is_variant(out["stops"][0], TT.RES, "Ok"), oks, None)
    # the history: the crossings needed happen in the last steps
    n = len(out["stops"])
    when = [False] * n
    if found:
        for i in range(trig):
            when[n - 1 - i] = True
    asm = [default_assume, assume_bool(ang, False)]
    for i in range(n):
        asm.append(assume_bool(lt(y(S(hist[i])) * y(S(hist[i + 1])), num(0)), when[i]))
    for x in ("s0", "a", "b"):
        asm.append(assume_bool(eq(S("e"), S(x)), False))
    asm = chain(*asm[1:], asm[0])
    if not found:
        ck.match("limit", tag + ": result is an error", b, is_variant(r.ret, TT.RES, "Ok"), FALSE, asm)
        return
    if "f" not in out:
        ck.violation("root", tag, b.where(), "the crossing is not searched for its epoch")
        return
    states = arr(*[S(k) for k in (hist if sg > 0 else hist[::-1])])
    ck.match("root", tag + ": event", b, out["bracket"][0], event)
    ck.match_any("root", tag + ": bracket", b, mk("agg", ("tuple",), out["bracket"][1], out["bracket"][2]),
                 [mk("agg", ("tuple",), ep("b"), ep("e")), mk("agg", ("tuple",), ep("e"), ep("b"))], asm)
    tr = None
    for x in subterms(out["f"]):
        if x.op == "app" and x.args[0] == "Traj::at":
            tr = x.args[1]
    if tr is None:
        ck.undecided("root", tag + ": function", "does not read a trajectory: " + show(out["f"])[:200])
        return
    ck.match("root", tag + ": searched trajectory", b, field(tr, "states"), states, asm)
    ck.match("root", tag + ": function", b, okv(out["f"]), y(app("Traj::at", tr, S("q"))[("Ok", "0")]), asm)
    res = okv(r.ret)
    ck.match("result", tag + ": is returned", b, is_variant(r.ret, TT.RES, "Ok"), TRUE, asm)
    ck.match("result", tag + ": trajectory", b, field(field(res, "1"), "states"), states, asm)
    ck.match("result", tag + ": state", b, field(res, "0"), app("Traj::at", tr, S("E"))[("Ok", "0")], asm)


def models_plist(v):
    import models
    return models.plist(v)


RULES = [("events", events)]
