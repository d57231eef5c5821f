"""R28: mission sequences: validation, set up of the propagators, and execution of the phases."""
from r17 import match_list
from r18 import chain_
from r20 import okp, okv
from r24 import fieldless
from spec import *

TECHNIQUE = "gated value graphs of sequence validation, propagator set up and the unrolled phase loop, on sequences of phases at symbolic epochs, compared with the phase by phase definition (propagation, frame translation and model loading opaque)"
RULE_TEXT = ["a sequence ends with a terminate phase and names only known propagators and thruster sets", "every enabled phase's propagator is built from its configuration: all of its models, its method and its options",
             "phases from the state's epoch on run in order, each from the state its predecessor left, until the epoch of the next one", "entry events change the state before the phase runs", "a guided phase uses its thruster set and steering law, on a propagator of its own"]
ASSUMPTIONS = ["up to four phases; the propagation itself is decided under R01 to R03", "frame translation and gravity file loading are taken as given functions"]
SEQ = "SpacecraftSequence"
t0 = S("t")


def at(x):
    return t0 + num(x) if x else t0


def str_(s):
    return TT.mk("str", s)


def act(ck, i, p="p", **k):
    d = dict(name=str_("n%d" % i), propagator=str_(p), guidance=NONE, on_entry=NONE, disabled=FALSE)
    d.update(k)
    return variant(ck, "Phase", "Activity", **d)


def end(ck):
    return fieldless(ck, "Phase", "Terminate")


def guide(ck, law, thr="th", mass=FALSE):
    return some(rec(S("guid"), thruster_model=str_(thr), disable_prop_mass=mass, law=law))


def seq(ck, phases, props=("p", "q"), thr=("th",), **k):
    return rec(S("self"), seq=chain_(*[(at(10 * i), x) for i, x in enumerate(phases)]), propagators=chain_(*[(str_(p), S("cfg_" + p)) for p in props]),
               thruster_sets=chain_(*[(str_(x), S("thr_" + x)) for x in thr]), **k)


def burn(ck):
    return variant(ck, "SteeringLaw", "FiniteBurn", **{"0": S("mnvr")})


def validation(ck):
    b = ck.fn("validate", SEQ)
    on, off = FALSE, TRUE

    def case(tag, me, want):
        r = ck.ev(b, [("self", me)])
        ck.match("validation", tag, b, okp(r.ret), want, None)
    A = lambda i, **k: act(ck, i, **k)
    case("activities then terminate", seq(ck, [A(0), A(1, p="q"), end(ck)]), TRUE)
    case("disabled activity and guidance", seq(ck, [A(0, disabled=off), A(1, guidance=guide(ck, burn(ck))), end(ck)]), TRUE)
    case("terminate in between", seq(ck, [A(0), end(ck), A(1), end(ck)]), TRUE)
    for dis in (on, off):
        for ph in ([A(0, disabled=dis)], [A(0), A(1, disabled=dis)], [A(0), end(ck), A(1, disabled=dis)]):
            case("ends with an activity (%d phases, disabled %r): error" % (len(ph), dis), seq(ck, ph), FALSE)
        for k in range(3):
            ph = [A(i, p="x" if i == k else "p", disabled=dis if i == k else on) for i in range(3)] + [end(ck)]
            case("unknown propagator in phase %d (disabled %r): error" % (k, dis), seq(ck, ph), FALSE)
            for mass in (TRUE, FALSE):
                ph = [A(i, disabled=dis if i == k else on, guidance=guide(ck, burn(ck), "x" if i == k else "th", mass=mass)) for i in range(3)] + [end(ck)]
                case("unknown thruster set in phase %d (disabled %r, mass kept %r): error" % (k, dis, mass), seq(ck, ph), FALSE)
    case("no propagator at all: error", seq(ck, [A(0), end(ck)], props=()), FALSE)


def setup(ck):
    b = ck.fn("setup", SEQ)
    ck.vocab |= {"PropagatorConfig::build", "get"}
    B = lambda n: app("PropagatorConfig::build", S("cfg_" + n), S("almanac"))
    A = lambda i, **k: act(ck, i, **k)
    for tag, ph, built in (("one propagator", [A(0), A(1)], "p"), ("two propagators", [A(0), A(1, p="q"), A(2)], "pq"), ("disabled phase", [A(0, p="q", disabled=TRUE), A(1)], "p"),
                           ("disabled once", [A(0, disabled=TRUE), A(1)], "p"), ("all disabled", [A(0, disabled=TRUE)], "")):
        r = ck.ev(b, [("self", seq(ck, ph + [end(ck)], prop_setups=chain_())), "almanac"], opaque=("PropagatorConfig::build",))
        ck.match("setup", tag + ": succeeds if every propagator can be built", b, okp(r.ret), band(TRUE, *[okp(B(n)) for n in built]), None)
        for n in "pq":
            got = models_get(r.final["self"]["prop_setups"], str_(n))
            ck.match("setup", "%s: %s" % (tag, n), b, got, some(okv(B(n))) if n in built else NONE)
    r = ck.ev(b, [("self", seq(ck, [A(0)], prop_setups=chain_())), "almanac"], opaque=("PropagatorConfig::build",))
    ck.match("setup", "invalid sequence: error", b, okp(r.ret), FALSE, None)
    b = ck.fn("build", "PropagatorConfig")
    r = ck.ev(b, ["self", "almanac"], opaque=("Dynamics::build",))
    d = app("Dynamics::build", S("self")["dynamics"], S("almanac"))
    ck.vocab |= {"Dynamics::build"}
    ck.match("setup", "propagator: succeeds if its dynamics do", b, okp(r.ret), okp(d), None)
    for f, w in (("dynamics", okv(d)), ("method", S("self")["method"]), ("opts", S("self")["options"])):
        ck.match("setup", "propagator: " + f, b, okv(r.ret)[f], w)
    dynamics(ck)


def models_get(m, k):
    import models
    return models.map_get(m, k)


def dynamics(ck):
    b = ck.fn("build", "Dynamics")
    from itertools import product
    ck.vocab |= {"GravityFieldData::from_config", "GravityField::new"}
    for on in product((0, 1), repeat=5):
        o = lambda i, n: some(S(n)) if on[i] else NONE
        me = rec(S("self"), accel_models=rec(S("am"), point_masses=o(0, "pm"), gravity_field=o(1, "gf"), solid_tides=o(2, "st")), force_models=rec(S("fm"), solar_pressure=o(3, "srp"), drag=o(4, "drag")))
        r = ck.ev(b, [("self", me), "almanac"], opaque=("GravityFieldData::from_config", "GravityField::new"))
        tag = "dynamics with %s: " % ("+".join(n for i, n in enumerate(("point masses", "gravity field", "solid tides", "SRP", "drag")) if on[i]) or "two bodies")
        gd = app("GravityFieldData::from_config", S("gf"), S("almanac"))
        ck.match("setup", tag + "succeeds unless the gravity field cannot be loaded", b, okp(r.ret), okp(gd) if on[1] else TRUE, None)
        d = okv(r.ret)
        acc = [x for i, x in enumerate((S("pm"), app("GravityField::new", okv(gd)), S("st"))) if on[i]]
        frc = [x for i, x in ((3, S("srp")), (4, S("drag"))) if on[i]]
        for nm, got, want in (("acceleration models", d["orbital_dyn"]["accel_models"], acc), ("force models", d["force_models"], frc)):
            multiset(ck, "setup", tag + nm, b, got, want)
        ck.match("setup", tag + "no guidance law", b, d["guid_law"], NONE)


def multiset(ck, rule, inst, b, got, want):
    """The models in any order (their sum does not depend on it)."""
    ck.match(rule, inst + ": number", b, length(got), num(len(want)))
    from itertools import permutations
    for p in permutations(want):
        if all(index(got, num(i)) is x for i, x in enumerate(p)):
            match_list(ck, rule, inst, b, got, [(TRUE, x) for x in p])
            return
    match_list(ck, rule, inst, b, got, [(TRUE, x) for x in want])


# ---------------------------------------------------------------- execution
def run_(i):
    return app("run", num(i))


def contracts(calls):
    """The propagations asked for, in order: each returns a result of its own."""
    def propagation(inst, until):
        if not (inst.op == "app" and inst.args[0] == "Propagator::with"):
            raise Undecidable("a propagation that is not of a fresh instance: %r" % inst)
        calls.append((inst.args[1], inst.args[2], inst.args[3], until))
        return run_(len(calls) - 1)
    return {"PropInstance::until_epoch_with_traj": propagation,
            "PropInstance::for_duration_with_traj": lambda inst, d: propagation(inst, inst.args[2]["orbit"]["epoch"] + d),
            "Frame::orient_origin_match": lambda a, c: TT.eq(a["orientation_id"], c["orientation_id"]),
            "Frame::ephem_origin_match": lambda a, c: TT.eq(a["ephemeris_id"], c["ephemeris_id"])}


def start(x=0):
    return rec(S("state"), orbit=rec(S("state")["orbit"], epoch=at(x)))


def left(i):
    """The state at the end of the i-th propagation."""
    return field(okv(run_(i)), "0")


def go(ck, phases, x=0, until=NONE, st=None):
    b = ck.fn("propagate", SEQ)
    calls = []
    me = seq(ck, phases, prop_setups=chain_((str_("p"), S("prop_p")), (str_("q"), S("prop_q"))))
    r = ck.ev(b, [("self", me), ("state", st if st is not None else start(x)), ("until_phase", until), "almanac"], opaque=("Propagator::with",), contract=contracts(calls))
    if r.loops:
        raise Undecidable("the phases cannot be told apart")
    return b, r, calls


def want_runs(ck, rule, tag, b, r, calls, runs, ok=TRUE):
    """runs: [(phase, propagator, state, until)], a propagator being a term or the fields it is to have"""
    ck.vocab |= {"run", "Propagator::with"}
    ck.match(rule, tag + ": succeeds if every step does", b, okp(r.ret), band(ok, *[okp(run_(k)) for k in range(len(runs))]), None)
    ck.expect(len(calls) == len(runs), rule, tag + ": propagations", b.where(), "%d propagations, must be %d" % (len(calls), len(runs)))
    for k, ((prop, st, al, until), (i, wprop, wst, wuntil)) in enumerate(zip(calls, runs)):
        t = "%s: phase %d: " % (tag, i)
        if isinstance(wprop, dict):
            for f, w in wprop.items():
                ck.match(rule, t + f, b, F_(prop, *f.split(".")), w)
        else:
            ck.match(rule, t + "propagator", b, prop, wprop)
        ck.match(rule, t + "state", b, st, wst)
        ck.match(rule, t + "end", b, until, wuntil)
        ck.match(rule, t + "almanac", b, al, S("almanac"))
    match_list(ck, rule, tag, b, okv(r.ret), [(TRUE, rec(field(okv(run_(k)), "1"), name=some(str_("n%d" % x[0])))) for k, x in enumerate(runs)])


def expected(phases, x, until=None):
    """The definition; phases: [(kind, propagator)], kind one of on, off, end."""
    cur, runs = start(x), []
    for i, (k, p) in enumerate(phases):
        if 10 * i < x:
            continue
        if k == "end" or until == "n%d" % i:
            return runs
        if k == "on":
            runs.append((i, S("prop_" + p), cur, at(10 * (i + 1))))
            cur = left(len(runs) - 1)
    raise AssertionError


def execution(ck):
    seqs = [("one phase", [("on", "p"), ("end", "")]), ("two phases", [("on", "p"), ("on", "q"), ("end", "")]), ("three phases", [("on", "q"), ("on", "p"), ("on", "p"), ("end", "")]),
            ("disabled in between", [("on", "p"), ("off", "q"), ("on", "p"), ("end", "")]), ("disabled first", [("off", "p"), ("on", "q"), ("end", "")]),
            ("terminates in between", [("on", "p"), ("end", ""), ("on", "q"), ("end", "")]), ("only terminate", [("end", "")])]
    for tag, ph in seqs:
        terms = [end(ck) if k == "end" else act(ck, i, p=p, disabled=TRUE if k == "off" else FALSE) for i, (k, p) in enumerate(ph)]
        for x in (-5, 0, 5, 10, 15):
            if x > 10 * (len(ph) - 1):
                continue
            for until in (None, "n0", "n1", "n2", "other"):
                b, r, calls = go(ck, terms, x, some(str_(until)) if until else NONE)
                want_runs(ck, "execution", "%s, from %+d s%s" % (tag, x, ", until " + until if until else ""), b, r, calls, expected(ph, x, until))


PR = {"mass": ("dry_mass_kg", "prop_mass_kg", "extra_mass_kg"), "srp": ("area_m2", "coeff_reflectivity"), "drag": ("area_m2", "coeff_drag")}


def entry(ck):
    ck.vocab |= {"Almanac::translate_to", "CartesianState::dcm_to_inertial"}
    P, Q = S("prop_p"), S("prop_q")

    def case(tag, ev, change, st):
        """change: state -> (state, whether that succeeds)"""
        w, ok = change(st)
        b, r, calls = go(ck, [act(ck, 0, on_entry=some(ev)), act(ck, 1, p="q"), end(ck)], st=st)
        want_runs(ck, "entry", tag, b, r, calls, [(0, P, w, at(10)), (1, Q, left(0), at(20))], ok)
        b, r, calls = go(ck, [act(ck, 0, on_entry=some(ev), disabled=TRUE), act(ck, 1, p="q"), end(ck)], st=st)
        want_runs(ck, "entry", tag + ", disabled", b, r, calls, [(1, Q, st, at(20))])
    # central body
    s0 = start()
    fr = s0["orbit"]["frame"]
    for tag, old, new in (("same center", 3, 3), ("other center", 3, 5)):
        st = rec(s0, orbit=rec(s0["orbit"], frame=rec(fr, ephemeris_id=num(old))))
        nf = rec(S("new_frame"), orientation_id=fr["orientation_id"], ephemeris_id=num(new))

        def swap(s):
            if old == new:
                return s, TRUE
            tr = app("Almanac::translate_to", S("almanac"), s["orbit"], nf, NONE)
            return rec(s, orbit=okv(tr)), okp(tr)
        case("frame swap, " + tag, variant(ck, "DiscreteEvent", "FrameSwap", new_frame=nf), swap, st)
    # staging and docking
    for kind, key, sgn in (("Staging", "decrement_properties", -1), ("Docking", "increment_properties", 1)):
        for imp in (0, 1):
            for on in ((), ("mass",), ("srp",), ("drag",), ("mass", "srp", "drag"), None):
                pr = NONE if on is None else some(rec(S("pr"), **{g: some(S("d_" + g)) if g in on else NONE for g in PR}))
                ev = variant(ck, "DiscreteEvent", kind, impulsive_maneuver=some(S("mnvr")) if imp else NONE, **{key: pr})

                def change(s):
                    ok = TRUE
                    if imp:
                        dcm = app("CartesianState::dcm_to_inertial", s["orbit"], S("mnvr")["local_frame"])
                        ok, v, dv = okp(dcm), s["orbit"]["velocity_km_s"], rotated(okv(dcm), S("mnvr")["dv_km_s"])
                        s = rec(s, orbit=rec(s["orbit"], velocity_km_s=mat(3, 1, [v[(k, 0)] + dv[(k, 0)] for k in range(3)])))
                    for g in on or ():
                        s = rec(s, **{g: rec(s[g], **{f: s[g][f] + num(sgn) * S("d_" + g)[f] for f in PR[g]})})
                    return s, ok
                case("%s%s of %s" % (kind, " with impulse" if imp else "", "+".join(on or ()) or ("nothing" if on is None else "no property")), ev, change, s0)


def guidance(ck):
    s0 = start()
    laws = {"FiniteBurn": {"0": S("mnvr")}, "Ruggiero": dict(objectives=S("objs"), max_eclipse_prct=S("ecl")), "Kluever": dict(objectives=S("objs"), max_eclipse_prct=S("ecl"))}
    for law, f in laws.items():
        for keep in (TRUE, FALSE):
            ev = some(variant(ck, "DiscreteEvent", "Staging", impulsive_maneuver=NONE, decrement_properties=some(rec(S("pr"), mass=some(S("d_mass")), srp=NONE, drag=NONE))))
            g = guide(ck, variant(ck, "SteeringLaw", law, **f), mass=keep)
            for first in (0, 1):
                plain, guided = act(ck, 1 - first), act(ck, first, guidance=g, on_entry=ev)
                b, r, calls = go(ck, [guided, plain, end(ck)] if first == 0 else [plain, guided, end(ck)])
                st = s0 if first == 0 else left(0)
                st = rec(st, mass=rec(st["mass"], **{k: st["mass"][k] - S("d_mass")[k] for k in PR["mass"]}), thruster=some(S("thr_th")))
                if law == "FiniteBurn":
                    lw = S("mnvr")
                else:
                    lw = variant(ck, law, law, **dict(dict(f), **({"init_state": st} if law == "Ruggiero" else {})))
                want = {"dynamics.decrement_mass": TT.bnot(keep), "dynamics.guid_law": some(lw), "dynamics.orbital_dyn": S("prop_p")["dynamics"]["orbital_dyn"],
                        "dynamics.force_models": S("prop_p")["dynamics"]["force_models"], "method": S("prop_p")["method"], "opts": S("prop_p")["opts"]}
                runs = [(first, want, st, at(10 * (first + 1)))]
                runs = runs + [(1, S("prop_p"), left(0), at(20))] if first == 0 else [(0, S("prop_p"), s0, at(10))] + runs
                want_runs(ck, "guidance", "%s%s, phase %d" % (law, ", mass kept" if keep is TRUE else "", first), b, r, calls, runs)


RULES = [("validation", validation), ("setup", setup), ("execution", execution), ("entry", entry), ("guidance", guidance)]
