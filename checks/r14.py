"""R14: binary (DER) round trip: what is decoded is what was encoded, and the announced length is the length written."""
from spec import *
import models as MM
import re

TECHNIQUE = "tape semantics over the value graphs of every Encode/Decode pair: the encoder's writes form a symbolic tape, which the decoder of the same type is run on; one instance per combination of optional parts"
RULE_TEXT = ["decoding the tape an encoder writes yields the encoded value, consumes the whole tape and never fails", "items are read back with the type they were written with", "the announced length is the sum of the lengths of the items written"]


class Tape:
    pass


def bits(ty):
    ty = re.sub(r"^&(mut )?", "", ty.strip())
    m = re.match(r"^(?:core|std)::option::Option<(.*)>$", ty)
    return bits(m.group(1)) if m else ty


INTS = {"u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "usize"}


def compatible(a, b):
    a, b = bits(a), bits(b)
    if a in INTS and b in INTS:
        return True
    st = {"alloc::string::String", "str", "String"}
    return a == b or (a in st and b in st)


def items(v):
    """What encoding value v writes: an absent optional writes nothing."""
    if v.op == "agg" and v.args[0][0] == "adt" and v.args[0][1] == TT.OPT:
        if v.args[0][2] == "None":
            return []
        return items(v.args[1])
    if v.op == "ite":
        raise Undecidable("conditional item " + show(v)[:80])
    return [v]


def enclen(v, ty=""):
    n = num(0)
    for x in items(v):
        if x in (TRUE, FALSE) or (x.op == "num" and 0 <= nval(x) < 128):
            n = n + num(3)
        elif x.op == "disc" or (x.op == "app" and x.args[0] in ("disc", "cast") and "u8" in ty):
            n = n + num(3)
        else:
            n = n + app("enclen", x)
    return n


def install():
    def encode(ev, fr, f, a, st, pc, dty):
        v = ev.close(st, MM.dv(ev, st, a[0]))
        r, t = MM.innermost(ev, st, a[1])
        if not (t.op == "agg" and t.args[0] == ("tape",)):
            return NotImplemented
        ty = f.targs[0] if f.targs else ""
        new = list(t.args[1:]) + [mk("agg", ("tuple",), x, mk("str", bits(ty))) for x in items(v)]
        ev.write(st, r, mk("agg", ("tape",), *new))
        return ok(UNIT)

    def length_(ev, fr, f, a, st, pc, dty):
        v = ev.close(st, MM.dv(ev, st, a[0]))
        return ok(enclen(v, f.targs[0] if f.targs else ""))

    def decode(ev, fr, f, a, st, pc, dty):
        r, t = MM.innermost(ev, st, a[0])
        if not (t.op == "agg" and t.args[0] == ("tape",)):
            raise Undecidable("decoder state is not a tape: " + show(t)[:80])
        m = re.match(r"^core::result::Result<(.*), [^<>]*(?:<[^<>]*>)?>$", dty)
        want = m.group(1) if m else (f.targs[-1] if f.targs else "")
        if len(t.args) == 1:
            return app("past the end of the encoding", mk("str", want))
        v, ty = t.args[1].args[1], t.args[1].args[2].args[0]
        if not compatible(ty, want):
            raise Mismatch("written as %s, read as %s" % (ty, bits(want)))
        ev.write(st, r, mk("agg", ("tape",), *t.args[2:]))
        return ok(v)

    def ladd(ev, fr, f, a, st, pc, dty):
        tx = MM.tyof(f, 0)
        if "der::length::Length" in tx:
            x, y = [MM.dv(ev, st, q) for q in a]
            conv = lambda v: field(v, "0", "Ok") if v.op == "agg" and v.args[0][0] == "adt" and v.args[0][1] == TT.RES else v
            return ok(add(conv(x), conv(y)))
        return old(ev, fr, f, a, st, pc, dty)
    old = MM.M["Add::add"]
    MM.M["Add::add"] = ladd
    MM.M["Encode::encode"] = encode
    MM.M["Encode::encoded_len"] = length_
    MM.M["Reader::decode"] = decode
    MM.M["Decode::decode"] = decode


class Mismatch(Exception):
    pass


def normal(t):
    """Inverse pairs of the libraries: nanoseconds of a duration, (duration, time scale) of an epoch, the elements of a set in its order."""
    def f(x):
        if x.op == "app" and x.args[0] == "Duration::from_total_nanoseconds" and x.args[1].op == "app" and x.args[1].args[0] == "Duration::total_nanoseconds":
            return x.args[1].args[1]
        if x.op == "app" and x.args[0] == "Epoch::from_duration" and len(x.args) == 3:
            d, ts = x.args[1:]
            if ts.op == "app" and ts.args[0] == "conv" and ts.args[-1].op == "disc":
                s = ts.args[-1].args[1]
                for e in subterms(d):
                    if e.op not in ("str", "num") and same(field(e, "duration"), d) and same(field(e, "time_scale"), s):
                        return e
        if x.op == "app" and x.args[0] in ("FromIterator::from_iter", "IndexSet::from_iter") and x.args[-1].op == "collect":
            return setof(x.args[-1])
        if x.op == "collect":
            return setof(x)
        return None
    for _ in range(4):
        t, old = TT.rebuild(t, f, {}), t
        if t is old:
            break
    return t


def setof(c):
    s = c.args[0]
    if s.op == "stream" and s.args[2].op == "app" and s.args[2].args[0] == "key_at" and s.args[2].args[2] is s.args[1] and same(s.args[0], length(s.args[2].args[1])):
        return s.args[2].args[1]
    return None


def trip(ck, ty, lab, val, fields):
    be, bd, bl = ck.fn("encode", ty, "Encode"), ck.fn("decode", ty, "Decode"), ck.fn("encoded_len", ty, "Encode")
    inst = "%s%s" % (ty, ", " + lab if lab else "")
    r = ck.ev(be, [("self", val), ("encoder", mk("agg", ("tape",)))])
    tape = r.final.get("encoder")
    if tape is None or tape.op != "agg" or tape.args[0] != ("tape",):
        return ck.undecided("encode", inst, "the writes do not form a tape: " + show(tape or BOT)[:200])
    ck.match("encode", inst + ", succeeds", be, is_variant(r.ret, TT.RES, "Ok"), TRUE, None)
    total = num(0)
    for it in tape.args[1:]:
        total = total + enclen(it.args[1], it.args[2].args[0])
    rl = ck.ev(bl, [("self", val)])
    ck.match("length", inst, bl, rl.ret, ok(total), None, vocab=("enclen",))
    try:
        rd = ck.ev(bd, [("decoder", tape)])
    except Mismatch as e:
        return ck.violation("types", inst, bd.where(), str(e))
    rest = rd.final.get("decoder")
    ck.expect(rest is not None and rest.op == "agg" and len(rest.args) == 1, "decode", inst + ", reads everything that was written", bd.where(), show(rest or BOT)[:300])
    ck.match("decode", inst + ", succeeds", bd, is_variant(rd.ret, TT.RES, "Ok"), TRUE, None)
    v = field(rd.ret, "0", "Ok")
    for f in fields:
        got, want = normal(field(v, f)), field(val, f)
        ck.match("round-trip", "%s, %s" % (inst, f), bd, got, want, None, vocab=("past the end of the encoding",))
    return rd, v


def codecs(ck):
    install()
    me = S("self")
    N = TT.NONE
    trip(ck, "Thruster", "", me, ("thrust_N", "isp_s"))
    for lab, th in (("with thruster", some(S("th"))), ("without thruster", N)):
        trip(ck, "Spacecraft", lab, rec(me, thruster=th), ("orbit", "mass", "srp", "drag", "thruster", "mode"))
    trip(ck, "Strand", "", me, ("start", "end"))
    for lab, c in (("with constant", some(S("c"))), ("without constant", N)):
        trip(ck, "GaussMarkov", lab, rec(me, constant=c), ("tau", "process_noise", "constant"))
    for w in (some(S("w")), N):
        for b in (some(S("b")), N):
            trip(ck, "StochasticNoise", "%s white noise, %s bias" % ("no" if w is N else "with", "no" if b is N else "with"), rec(me, white_noise=w, bias=b), ("white_noise", "bias"))
    for lab, c in (("with alignment", some(S("c"))), ("without alignment", N)):
        trip(ck, "Scheduler", lab, rec(me, sample_alignment=c), ("handoff", "cadence", "min_samples", "sample_alignment"))
    for s in (some(S("s")), N):
        for d in (some(S("d")), N):
            trip(ck, "TrkConfig", "%s scheduler, %s strands" % ("no" if s is N else "with", "no" if d is N else "with"), rec(me, scheduler=s, strands=d), ("scheduler", "sampling", "strands"))
    for v in (variant(ck, "Cadence", "Continuous"), variant(ck, "Cadence", "Intermittent", on=S("on"), off=S("off"))):
        be, bd = ck.fn("encode", "Cadence", "Encode"), ck.fn("decode", "Cadence", "Decode")
        lab = "Cadence::" + v.args[0][2]
        x = trip(ck, "Cadence", v.args[0][2], v, ())
        if x:
            ck.match("round-trip", lab, bd, normal(x[1]), v, None)
    for i in (some(S("i")), N):
        for t in (some(S("t")), N):
            for s in (some(S("s")), N):
                lab = "%s integration time, %s timestamp noise, %s noises" % tuple("no" if q is N else "with" for q in (i, t, s))
                x = trip(ck, "GroundStation", lab, rec(me, integration_time=i, timestamp_noise_s=t, stochastic_noises=s),
                         ("name", "location", "measurement_types", "integration_time", "light_time_correction", "timestamp_noise_s") + (("stochastic_noises",) if s is N else ()))
                if x and s is not N:
                    rd, v = x
                    bd = ck.fn("decode", "GroundStation", "Decode")
                    ck.match("round-trip", lab + ", noises present", bd, is_variant(field(v, "stochastic_noises"), TT.OPT, "Some"), TRUE, None)
                    noises(ck, lab, bd, rd, field(field(v, "stochastic_noises"), "0", "Some"))


def noises(ck, lab, bd, rd, m):
    """The map is rebuilt from every (type, noise) pair."""
    if m.op == "app" and m.args[0].startswith("collect_") and m.args[1].op == "stream" and m.args[1].args[2].op == "agg":
        i, it = m.args[1].args[1], m.args[1].args[2]
        src = it.args[1].args[1] if it.args[1].op == "app" and len(it.args[1].args) == 3 else BOT
        if same(it, mk("agg", ("tuple",), app("key_at", src, i), app("val_at", src, i))):
            return ck.held("round-trip", lab + ", noises keep their measurement type")
    L = [l for l in rd.loops if m in l.mus]
    if len(L) != 1:
        return ck.undecided("round-trip", lab + ", noises", "not a loop over the pairs: " + show(m)[:120])
    L = L[0]
    init, step = L.mus[m]
    ck.held("round-trip", lab + ", noises start empty") if "new" in show(init) or "map0" in show(init) or "default" in show(init) else ck.undecided("round-trip", lab + ", noises start empty", show(init)[:100])
    ins = [c for c in subterms(step) if c.op == "app" and "insert" in c.args[0]]
    if len(ins) != 1 or len(ins[0].args) != 4:
        return ck.undecided("round-trip", lab + ", noises", show(step)[:200])
    k, v = ins[0].args[2:4]
    good = k.op == "app" and k.args[0] == "key_at" and v.op == "app" and v.args[0] == "val_at" and k.args[1] is v.args[1] and same(k.args[2], v.args[2])
    if good or not foreign(k, {"key_at", "val_at"}) and not foreign(v, {"key_at", "val_at"}):
        ck.expect(good, "round-trip", lab + ", noises keep their measurement type", bd.where(), "inserts %s under %s" % (show(v)[:200], show(k)[:200]))
    else:
        ck.undecided("round-trip", lab + ", noises", show(step)[:200])


RULES = [("codecs", codecs)]
