"""R36: CCSDS TDM files are read as the measurements they hold."""
from spec import *
from r18 import when, chain_, UNIT, TYPES
from r35 import items
import mirflow, models, re

TECHNIQUE = "gated value graph of the reader over files whose keywords are known and whose values are symbolic: file access is a contract and text operations on known text are folded, and every measurement, epoch, tracker, modulus and error outcome is compared with the file"
RULE_TEXT = ["each observable of the file is stored with its tracker, epoch (in the time system of its section) and one-way value, one measurement per tracker and epoch, in chronological order",
             "frequencies become a Doppler by the extrapolated transmit frequency and the turnaround ratio, or are dropped", "corrections are added exactly when they are not applied; a positive range modulus is kept",
             "unsupported or unreadable content is an error", "the writer stores each observable once, in a section with the path, names, units, epochs and modulus that apply", "reading what was written returns the same measurements"]
ASSUMPTIONS = ["a few sections and lines with symbolic numbers stand for all files", "text operations, number and epoch parsing follow the standard library and hifitime"]
ARC = "TrackingDataArc"


def text(t):
    while t.op in ("conv",) or t.op == "app" and t.args[0] == "conv":
        t = t.args[-1]
    return t.args[0] if t.op == "str" else None


def lit(t):
    """The text of a literal, a char or a one-character pattern."""
    s = text(t)
    if s is not None:
        return s
    if t.op == "num" and 0 < nval(t) < 128:
        return chr(int(nval(t)))
    s = show(t)
    return s.strip("'\"") if len(s.strip("'\"")) >= 1 and s[0] in "'\"" else None


st_ = lambda s: mk("str", s)


class Text:
    """A file of known lines; a word that begins with $ is a number (a symbol), one with @ an epoch."""

    def __init__(self, lines, scales=("UTC", "TAI", "TDB", "GPST")):
        self.lines = lines
        self.prec = {}
        self.scales = scales
        c = {}
        one = lambda f: (lambda t, *a: None if text(t) is None else f(text(t), *a))
        for n, f in (("trim", str.strip), ("trim_end", str.rstrip), ("trim_start", str.lstrip), ("to_lowercase", str.lower), ("to_uppercase", str.upper), ("to_ascii_lowercase", str.lower), ("to_ascii_uppercase", str.upper)):
            c["str::" + n] = one(lambda s, f=f: st_(f(s)))
        two = lambda f: (lambda t, p, *a: None if text(t) is None or lit(p) is None else f(text(t), lit(p), *a))
        c["str::split"] = two(lambda s, p: items(*[st_(x) for x in s.split(p)]))
        c["str::split_once"] = two(lambda s, p: some(mk("agg", ("tuple",), *[st_(x) for x in s.split(p, 1)])) if p in s else NONE)
        c["str::split_whitespace"] = c["str::split_ascii_whitespace"] = one(lambda s: items(*[st_(x) for x in s.split()]))
        c["str::starts_with"] = two(lambda s, p: TRUE if s.startswith(p) else FALSE)
        c["str::ends_with"] = two(lambda s, p: TRUE if s.endswith(p) else FALSE)
        c["str::contains"] = two(lambda s, p: TRUE if p in s else FALSE)
        c["str::eq_ignore_ascii_case"] = two(lambda s, p: TRUE if s.lower() == p.lower() else FALSE)
        c["str::strip_prefix"] = two(lambda s, p: some(st_(s[len(p):])) if s.startswith(p) else NONE)
        c["str::is_empty"] = c["String::is_empty"] = one(lambda s: FALSE if s else TRUE)
        c["str::len"] = c["String::len"] = one(lambda s: num(len(s)))
        c["str::matches"] = two(lambda s, p: items(*[st_(p)] * s.count(p)))
        for n in ("str::to_string", "ToString::to_string", "str::to_owned", "String::as_str", "String::from", "str::as_str", "String::new"):
            c[n] = lambda *t: (t[0] if text(t[0]) is not None else None) if t else st_("")
        c["str::parse"] = c["FromStr::from_str"] = self.parse
        c["TimeScale::from_str"] = self.scale
        c["Epoch::from_gregorian_str"] = c["Epoch::from_str"] = self.epoch
        c["File::open"] = lambda p: ok(S("file"))
        c["BufReader::new"] = lambda f: S("reader") if f is S("file") else None
        c["BufRead::lines"] = lambda r: items(*[ok(st_(l)) for l in self.lines]) if r is S("reader") else None
        c["Iterator::nth"] = self.nth
        c["hint::must_use"] = lambda t: t
        c["fmt::format"] = c["format"] = self.format
        self.contract = c

    def parse(self, t):
        s = text(t)
        if s is None:
            return None
        if s.startswith("$"):
            return ok(self.seen[int(s[1:])] if s[1:].isdigit() else S(s[1:]))
        if s in self.scales or s in ("XYZT",):
            return self.scale(t)
        try:
            return ok(num(float(s) if not re.fullmatch(r"[+-]?\d+", s) else int(s)))
        except ValueError:
            return TT.err(S("unreadable"))

    def scale(self, t):
        s = text(t)
        return None if s is None else ok(S("scale " + s)) if s in self.scales else TT.err(S("no such scale"))

    def nth(self, it, n):
        if it.op != "iter" or not is_num(n) or it.args[0].op != "stream" or not is_num(it.args[0].args[0]) or not is_num(it.args[1]):
            return None
        st, k = it.args[0], int(nval(it.args[1]) + nval(n))
        if k >= nval(st.args[0]):
            return (NONE, mk("iter", st, st.args[0]))
        l = next((x for x in st.args[2:] if x.op == "index"), None)
        return (some(index(l.args[0], num(k))), mk("iter", st, num(k + 1))) if l is not None else None

    def flat(self, t):
        """The text a term displays as a list of literals and symbols, or None."""
        s = text(t)
        if s is not None:
            return [s]
        if t.op == "app" and t.args[0] in ("hint::must_use", "fmt::format", "to_string", "String::as_str", "conv", "must_use", "Argument::new_display", "Argument::new_upper_exp", "Argument::new_lower_exp", "Arguments::from_str"):
            return self.flat(t.args[1])
        if t.op == "app" and t.args[0] == "Arguments::new":
            tpl, args = [models.plist(x) for x in t.args[1:3]]
            if tpl is None or args is None:
                return None
            tpl = [int(nval(x)) for _, x in tpl]
            args = [x for _, x in args]
            out, p, k = [], 0, 0
            while p < len(tpl) and tpl[p] != 0:
                c = tpl[p]
                if c >= 192:
                    p += 1 + (4 if c & 1 else 0)
                    width = tpl[p] + 256 * tpl[p + 1] if c & 2 else 0
                    p += 2 if c & 2 else 0
                    digits = tpl[p] + 256 * tpl[p + 1] if c & 4 else None
                    p += 2 if c & 4 else 0
                    if c & 8:
                        k = tpl[p] + 256 * tpl[p + 1]
                        p += 2
                    r = self.flat(args[k])
                    if r is None:
                        return None
                    if digits is not None and len(r) == 1:
                        self.prec[r[0]] = digits
                    out += [r[0].ljust(width)] if len(r) == 1 and isinstance(r[0], str) else r
                    k += 1
                elif c < 128:
                    out.append("".join(chr(x) for x in tpl[p + 1:p + 1 + c]))
                    p += 1 + c
                elif c == 128:
                    n = tpl[p + 1] + 256 * tpl[p + 2]
                    out.append("".join(chr(x) for x in tpl[p + 3:p + 3 + n]))
                    p += 3 + n
                else:
                    return None
            return out
        if t.op == "app" and t.args[0] == "Formatter::new":
            e, f = t.args[1], t.args[2]
            f = next((x for x in subterms(f) if x.op == "str"), None)
            return ["@%s" % (nval(e) if is_num(e) else show(e))] if f is not None and text(f) == "%Y-%m-%dT%H:%M:%S.%f" else None
        if t.op == "app" and t.args[0] in ("Add::add", "add"):
            x, y = self.flat(t.args[1]), self.flat(t.args[2])
            return None if x is None or y is None else x + y
        if t.op == "agg" and t.args[0][0] == "adt" and show(t).startswith("TimeScale::"):
            return [show(t)[11:]]
        if t.op == "sym":
            return [t]
        return None

    def format(self, t):
        p = self.flat(t)
        return st_("".join(p)) if p is not None and all(isinstance(x, str) for x in p) else None

    def epoch(self, t):
        p = self.flat(t)
        if p is None:
            return None
        s = "".join(x if isinstance(x, str) else x.args[0][6:] if x.args[0].startswith("scale ") else "?" for x in p).split()
        if len(s) == 2 and s[0].startswith("@") and s[1] in self.scales:
            return ok(num(int(s[0][1:]) + 1000 * self.scales.index(s[1])))
        return TT.err(S("no epoch"))


HEAD = ["CCSDS_TDM_VERS = 2.0", "COMMENT made by someone", "CREATION_DATE = 2026-01-01", "ORIGINATOR = me", ""]


def section(data, tracker="DSS-25", scale="UTC", path="1,2", extra=()):
    return ["META_START", "TIME_SYSTEM = " + scale, "PARTICIPANT_1 = " + tracker, "PARTICIPANT_2 = sc", "MODE = SEQUENTIAL", "PATH = " + path] + list(extra) + ["META_STOP", "", "DATA_START"] + list(data) + ["DATA_STOP", ""]


def wanted(ck, rule, tag, b, r, T, want, moduli=NONE):
    """want: [(tracker, epoch, {type: value})] in chronological order"""
    ck.match(rule, tag + ": succeeds", b, is_variant(r, TT.RES, "Ok"), TRUE)
    v = field(r, "0", "Ok")
    ms = F_(v, "measurements")
    l = models.plist(ms)
    if l is None or any(c is not TRUE for c, _ in l):
        ck.undecided(rule, tag + ": measurements", "the measurements are not a list of known length: " + show(ms)[:200])
        return
    ck.expect(len(l) == len(want), rule, tag + ": number of measurements", b.where(), "%d measurements are read instead of %d" % (len(l), len(want)))
    for i, ((_, m), (trk, e, data)) in enumerate(zip(l, want)):
        ck.match(rule, "%s: tracker %d" % (tag, i), b, F_(m, "tracker"), st_(trk))
        ck.match(rule, "%s: epoch %d" % (tag, i), b, F_(m, "epoch"), num(e))
        ck.match(rule, "%s: rejected %d" % (tag, i), b, tobool(F_(m, "rejected")), FALSE)
        for nm, t in T.items():
            ck.match(rule, "%s: %s of %d" % (tag, nm, i), b, models.map_get(F_(m, "data"), t), some(data[nm]) if nm in data else NONE)
    ck.match(rule, tag + ": moduli", b, F_(v, "moduli"), moduli)
    ck.match(rule, tag + ": force reject", b, tobool(F_(v, "force_reject")), FALSE)


def read(ck, lines, aliases=NONE, b=None):
    f = Text(lines)
    return ck.ev(ck.fn("from_tdm", ARC), ["path", ("aliases", aliases)], contract=f.contract, turns=80).ret


def kinds(ck):
    return {n: variant(ck, "MeasurementType", n) for n in TYPES}


def reader(ck):
    b, T = ck.fn("from_tdm", ARC), kinds(ck)
    half = lambda n: div(S(n), num(2))
    rd = ["RANGE = @10 $r0", "DOPPLER_INTEGRATED = @10 $d0", "RANGE = @20 $r1", "DOPPLER_INSTANTANEOUS = @30 $d2"]
    one = [(10, {"Range": S("r0"), "Doppler": S("d0")}), (20, {"Range": S("r1")}), (30, {"Doppler": S("d2")})]
    two = [(10, {"Range": half("r0"), "Doppler": half("d0")}), (20, {"Range": half("r1")}), (30, {"Doppler": half("d2")})]
    at = lambda trk, l, dt=0: [(trk, e + dt, d) for e, d in l]
    w = lambda tag, lines, want, **kw: wanted(ck, "values", tag, b, read(ck, lines, **kw), T, want)
    w("one way", HEAD + section(rd), at("DSS-25", one))
    w("two way", HEAD + section(rd, path="1,2,1"), at("DSS-25", two))
    w("indented", ["\t%s  " % l if l else l for l in HEAD + section(rd, path="1,2,1")], at("DSS-25", two))
    w("lines in reverse", HEAD + section(rd[::-1]), at("DSS-25", one))
    w("comment in the data", HEAD + section(["COMMENT the data", ""] + rd), at("DSS-25", one))
    for p, d in (("1,2", lambda x: x), ("1,2,1", lambda x: x)):
        w("angles, path " + p, HEAD + section(["ANGLE_1 = @10 $a", "ANGLE_2 = @10 $e"], path=p), [("DSS-25", 10, {"Azimuth": d(S("a")), "Elevation": d(S("e"))})])
    w("range and angles of one two way section", HEAD + section(["RANGE = @10 $r", "ANGLE_1 = @10 $a", "ANGLE_2 = @10 $e", "RANGE = @20 $s"], path="1,2,1"), [("DSS-25", 10, {"Range": half("r"), "Azimuth": S("a"), "Elevation": S("e")}), ("DSS-25", 20, {"Range": half("s")})])
    for k, sc in enumerate(("UTC", "TAI", "TDB", "GPST")):
        w("epochs in " + sc, HEAD + section(rd, scale=sc), at("DSS-25", one, 1000 * k))
    w("no time system", HEAD + [l for l in section(rd) if not l.startswith("TIME_SYSTEM")], at("DSS-25", one))
    # sections of their own
    o, t = at("DSS-25", two), at("DSS-65", one)
    both = lambda x, y: sorted(x + y, key=lambda m: (m[1], m[0]))
    w("a section per tracker", HEAD + section(rd, path="1,2,1") + section(rd, tracker="DSS-65"), both(o, t))
    w("another order of the trackers", HEAD + section(rd, tracker="DSS-65") + section(rd, path="1,2,1"), both(o, t))
    w("a section per time scale", HEAD + section(rd, scale="TAI", path="1,2,1") + section(rd, tracker="DSS-65"), both(at("DSS-25", two, 1000), t))
    w("sections that meet at one epoch", HEAD + section(rd[:1]) + section(["RANGE = @10 $x", "RANGE = @20 $y"], tracker="DSS-65"), [("DSS-25", 10, {"Range": S("r0")}), ("DSS-65", 10, {"Range": S("x")}), ("DSS-65", 20, {"Range": S("y")})])
    w("sections of one tracker", HEAD + section(rd[:1] + rd[2:3], path="1,2,1") + section(["ANGLE_1 = @10 $a", "ANGLE_2 = @40 $e"]),
      [("DSS-25", 10, {"Range": half("r0"), "Azimuth": S("a")}), ("DSS-25", 20, {"Range": half("r1")}), ("DSS-25", 40, {"Elevation": S("e")})])
    # names of the trackers
    al = some(chain_((st_("DSS-25"), st_("Goldstone")), (st_("x"), st_("y"))))
    w("aliases", HEAD + section(rd), at("Goldstone", one), aliases=al)
    w("no alias for this tracker", HEAD + section(rd, tracker="DSS-65"), at("DSS-65", one), aliases=al)
    # errors
    bad = lambda tag, lines: ck.match("errors", tag, b, is_variant(read(ck, lines), TT.RES, "Ok"), FALSE)
    bad("unknown time system", HEAD + section(rd, scale="XYZT"))
    bad("a path with a relay", HEAD + section(rd, path="1,2,3,1"))
    bad("a path with one participant", HEAD + section(rd, path="1"))
    bad("unknown data", HEAD + section(rd + ["PRESSURE = @40 $p"]))
    bad("not a number", HEAD + section(rd + ["RANGE = @40 ten"]))
    bad("not an epoch", HEAD + section(rd + ["RANGE = today $r"]))
    bad("no data", HEAD + section([]))
    bad("empty file", [])
    f = Text(HEAD + section(rd))
    e = TT.err(S("io"))
    ck.match("errors", "a file that cannot be opened", b, is_variant(ck.ev(b, ["path", ("aliases", NONE)], contract=dict(f.contract, **{"File::open": lambda p: e}), turns=80).ret, TT.RES, "Ok"), FALSE)
    ck.match("errors", "a line that cannot be read", b, is_variant(ck.ev(b, ["path", ("aliases", NONE)], contract=dict(f.contract, **{"BufRead::lines": lambda r: items(*[ok(st_(l)) for l in f.lines], e)}), turns=80).ret, TT.RES, "Ok"), FALSE)


def extras(ck):
    b, T = ck.fn("from_tdm", ARC), kinds(ck)
    rd = ["RANGE = @10 $r", "DOPPLER_INTEGRATED = @10 $d", "ANGLE_1 = @20 $a", "ANGLE_2 = @20 $e"]
    want = [("DSS-25", 10, {"Range": S("r"), "Doppler": S("d")}), ("DSS-25", 20, {"Azimuth": S("a"), "Elevation": S("e")})]
    w = lambda tag, lines, want, **kw: wanted(ck, "modulus", tag, b, read(ck, lines), T, want, **kw)
    w("range modulus", HEAD + section(rd, extra=["RANGE_MODULUS = $m"]), want, moduli=ite(gt(S("m"), num(0)), some(chain_((T["Range"], S("m")))), NONE))
    w("no range modulus", HEAD + section(rd, extra=["RANGE_MODULUS = 0.0"]), want)
    w("unreadable range modulus", HEAD + section(rd, extra=["RANGE_MODULUS = one"]), want)
    # corrections
    corr = ["CORRECTION_RANGE = $cr", "CORRECTION_ANGLE_1 = $ca", "CORRECTION_ANGLE_2 = $ce"]
    fixed = [("DSS-25", 10, {"Range": add(S("r"), S("cr")), "Doppler": S("d")}), ("DSS-25", 20, {"Azimuth": add(S("a"), S("ca")), "Elevation": add(S("e"), S("ce"))})]
    w = lambda tag, lines, want, **kw: wanted(ck, "corrections", tag, b, read(ck, lines), T, want, **kw)
    for flag, x in (("NO", fixed), ("no", fixed), ("YES", want), ("yes", want), ("perhaps", want)):
        w("corrections applied: " + flag, HEAD + section(rd, extra=corr + ["CORRECTIONS_APPLIED = " + flag]), x)
    w("corrections not mentioned", HEAD + section(rd, extra=corr), want)
    w("one correction only", HEAD + section(rd, extra=corr[:1] + ["CORRECTIONS_APPLIED = NO"]), [fixed[0], want[1]])
    w("unreadable correction", HEAD + section(rd, extra=["CORRECTION_RANGE = much"] + corr[1:] + ["CORRECTIONS_APPLIED = NO"]), [want[0], fixed[1]])


def frequencies(ck):
    b, T = ck.fn("from_tdm", ARC), kinds(ck)
    ratio = div(S("n"), S("q"))
    ta = ["TURNAROUND_NUMERATOR = $n", "TURNAROUND_DENOMINATOR = $q"]
    c = num(299792.458)
    dop = lambda ft, fr: div(mul(sub(mul(ft, ratio), fr), c), mul(num(2), mul(ft, ratio)))
    w = lambda tag, data, want, extra=ta: wanted(ck, "frequencies", tag, b, read(ck, HEAD + section(data, path="1,2,1", extra=extra)), T, [("DSS-25", e, d) for e, d in want])
    f, g, q = S("f"), S("g"), S("q1")
    D = lambda ft, fr: {"Doppler": dop(ft, S(fr))}
    w("constant frequency", ["TRANSMIT_FREQ = @10 $f", "RECEIVE_FREQ = @20 $r2", "RECEIVE_FREQ = @30 $r3"], [(20, D(f, "r2")), (30, D(f, "r3"))])
    w("same epoch", ["TRANSMIT_FREQ = @10 $f", "RECEIVE_FREQ = @10 $r1"], [(10, D(f, "r1"))])
    w("numbered bands", ["TRANSMIT_FREQ_2 = @10 $f", "RECEIVE_FREQ_2 = @20 $r2"], [(20, D(f, "r2"))])
    w("new frequency", ["TRANSMIT_FREQ = @10 $f", "RECEIVE_FREQ = @20 $r2", "TRANSMIT_FREQ = @30 $g", "RECEIVE_FREQ = @40 $r3"], [(20, D(f, "r2")), (40, D(g, "r3"))])
    k = S("k")
    w("ramp", ["TRANSMIT_FREQ = @10 $f", "TRANSMIT_FREQ_RATE = @10 $k", "RECEIVE_FREQ = @20 $r2", "RECEIVE_FREQ = @30 $r3"], [(20, D(add(f, mul(k, num(10))), "r2")), (30, D(add(f, mul(k, num(20))), "r3"))])
    w("two ramps", ["TRANSMIT_FREQ = @10 $f", "TRANSMIT_FREQ_RATE = @10 $k", "RECEIVE_FREQ = @20 $r2", "TRANSMIT_FREQ_RATE = @30 $h", "RECEIVE_FREQ = @70 $r3"],
      [(20, D(add(f, mul(k, num(10))), "r2")), (70, D(add(add(f, mul(k, num(20))), mul(S("h"), num(40))), "r3"))])
    w("frequency and ramp renewed", ["TRANSMIT_FREQ = @10 $f", "TRANSMIT_FREQ_RATE = @10 $k", "TRANSMIT_FREQ = @30 $g", "TRANSMIT_FREQ_RATE = @30 $h", "RECEIVE_FREQ = @70 $r3"], [(70, D(add(g, mul(S("h"), num(40))), "r3"))])
    w("received before any transmission", ["RECEIVE_FREQ = @5 $r1", "TRANSMIT_FREQ = @10 $f", "RECEIVE_FREQ = @20 $r2"], [(20, D(f, "r2"))])
    w("with range", ["TRANSMIT_FREQ = @10 $f", "RANGE = @10 $x", "RECEIVE_FREQ = @20 $r2", "RANGE = @20 $y"], [(10, {"Range": div(S("x"), num(2))}), (20, dict(D(f, "r2"), Range=div(S("y"), num(2))))])
    for tag, ex in (("no turnaround ratio", []), ("no denominator", ta[:1]), ("no numerator", ta[1:]), ("unreadable denominator", ta[:1] + ["TURNAROUND_DENOMINATOR = one"])):
        w(tag, ["TRANSMIT_FREQ = @10 $f", "RECEIVE_FREQ = @20 $r2", "RANGE = @20 $y"], [(20, {"Range": div(S("y"), num(2))})], ex)
    ck.match("frequencies", "only unusable frequencies are no data", b, is_variant(read(ck, HEAD + section(["TRANSMIT_FREQ = @10 $f", "RECEIVE_FREQ = @20 $r2"])), TT.RES, "Ok"), FALSE)


class Writer(Text):
    """Records what is written, in order."""

    def __init__(self):
        Text.__init__(self, [])
        self.out = ""
        self.seen, self.prec = [], {}
        c = self.contract
        c["Write::write_fmt"] = c["BufWriter::write_fmt"] = self.put
        c["Option::unwrap_or_default"] = lambda o: app("map0") if o is NONE else None
        c["Epoch::now"] = lambda: ok(S("now"))
        c["Epoch::to_time_scale"] = lambda e, t: app("in scale", e, st_(show(t).split("::")[-1]))
        c["Formatter::to_time_scale"] = lambda e, f, t: app("Formatter::new", app("in scale", e, st_(show(t).split("::")[-1])), f)
        c["Format::from_str"] = lambda t: ok(app("format", t)) if text(t) is not None else None
        c["FromStr::from_str"] = lambda t: ok(app("format", t)) if text(t) is not None else None
        c["File::create"] = lambda p: ok(S("file"))
        c["ExportCfg::actual_path"] = lambda c, p: S("the path")
        c["prj_name_ver"] = lambda: st_("Nyx")
        c["io::prj_name_ver"] = c["prj_name_ver"]

    def put(self, w, a):
        p = self.flat(a)
        if p is None or any(not isinstance(x, str) for x in p) or mirflow.NOW[0] is not TRUE:
            self.out += "?" + show(a)[:200] + "\n"
        else:
            self.out += "".join(p)
        return (ok(UNIT), w)

    def flat(self, t):
        if t.op == "app" and t.args[0] == "Formatter::new":
            e = t.args[1]
            if text(next((x for x in subterms(t.args[2]) if x.op == "str"), S("none"))) != "%Y-%m-%dT%H:%M:%S.%f":
                return None
            sc = "own"
            while e.op == "app" and e.args[0] == "in scale":
                sc, e = (text(e.args[2]) if sc == "own" else sc), e.args[1]
            return ["@%s%s" % ("" if sc == "UTC" else sc, nval(e) if is_num(e) else show(e))]
        if t.op == "app" and t.args[0].startswith("Argument::new"):
            r = self.flat(t.args[1])
            if r is None or any(not isinstance(x, str) for x in r):
                self.seen.append(t.args[1])
                return ["$%d" % (len(self.seen) - 1)]
            return r
        r = Text.flat(self, t)
        if r is None or len(r) == 1 and not isinstance(r[0], str):
            if t.op != "agg" and not (t.op == "app" and t.args[0].startswith(("Argument", "fmt", "Formatter", "hint"))):
                self.seen.append(t)
                return ["$%d" % (len(self.seen) - 1)]
        return r


def sections(out):
    """[(metadata, [(keyword, epoch, value)])] and the header of a TDM text."""
    head, secs, where = {}, [], "head"
    for l in out.split("\n"):
        l = l.strip()
        if l == "META_START":
            secs.append(({}, []))
            where = "meta"
        elif l in ("META_STOP", "DATA_STOP"):
            where = None
        elif l == "DATA_START":
            where = "data"
        elif not l or l.startswith("COMMENT"):
            continue
        elif "=" in l:
            k, v = [x.strip() for x in l.split("=", 1)]
            if where == "head":
                head[k] = v
            elif where == "meta":
                secs[-1][0][k] = v
            elif where == "data":
                secs[-1][1].append((k,) + tuple(v.split()))
            else:
                head["outside"] = l
        else:
            head["outside"] = l
    return head, secs


NAMES = {"Range": "RANGE", "Doppler": "DOPPLER_INTEGRATED", "Azimuth": "ANGLE_1", "Elevation": "ANGLE_2"}


def writer(ck):
    b, T = ck.fn("to_tdm_file", ARC), kinds(ck)
    ck.vocab |= {"in scale"}
    pm = lambda trk, e, **kw: (trk, e, kw)
    arcs = {"one tracker": [pm("A", 10, Range="r0", Doppler="d0"), pm("A", 20, Range="r1")], "angles": [pm("A", 10, Azimuth="a0", Elevation="e0"), pm("A", 20, Elevation="e1")],
            "all types": [pm("A", 10, Elevation="e0", Range="r0", Azimuth="a0", Doppler="d0"), pm("A", 20, Azimuth="a1", Doppler="d1"), pm("A", 30, Range="r2")],
            "two trackers": [pm("A", 10, Range="r0"), pm("B", 10, Range="s0", Azimuth="b0"), pm("A", 20, Doppler="d1"), pm("B", 40, Range="s1", Doppler="t1")]}
    none = app("map0")
    runs = [("%s" % k, v, NONE, NONE, NONE, NONE, NONE, False) for k, v in arcs.items()]
    L = arcs["two trackers"]
    runs += [("no metadata", L, NONE, NONE, NONE, some(none), NONE, False), ("metadata", L, NONE, NONE, NONE, some(chain_((st_("TIMETAG_REF"), st_("RECEIVE")))), NONE, False), ("originator", L, NONE, NONE, NONE, some(chain_((st_("originator"), st_("me")))), NONE, False),
             ("alias", L, some(chain_((st_("A"), st_("DSS-1")))), NONE, NONE, NONE, NONE, True), ("modulus", arcs["all types"], NONE, NONE, NONE, NONE, some(chain_((T["Range"], S("mod")))), True),
             ("from an epoch", L, NONE, some(num(15)), NONE, NONE, NONE, False), ("until an epoch", L, NONE, NONE, some(num(30)), NONE, NONE, False), ("between epochs", arcs["all types"], NONE, some(num(15)), some(num(25)), NONE, NONE, False),
             ("no modulus of range", arcs["angles"], NONE, NONE, NONE, NONE, some(chain_((T["Doppler"], S("mod")))), False)]
    for tag, l, al, t0, t1, meta, mod, _ in runs:
        ms = arr(*[rec(S("m"), tracker=st_(trk), epoch=num(e), rejected=FALSE, data=chain_(*[(T[k], S(v)) for k, v in kw.items()])) for trk, e, kw in l])
        me = rec(S("self"), measurements=ms, moduli=mod)
        w = Writer()
        cfg = rec(S("cfg"), start_epoch=t0, end_epoch=t1, metadata=meta)
        r = ck.ev(b, [("self", me), ("spacecraft_name", st_("sc")), ("aliases", al), "path", ("cfg", cfg)], contract=w.contract, turns=80).ret
        if "?" in w.out or is_variant(r, TT.RES, "Ok") not in (TRUE, FALSE):
            ck.undecided("writer", tag, "part of the text is not followed: " + next((x for x in w.out.split("\n") if x.startswith("?")), show(r))[:200])
            continue
        say = lambda cond, what, msg: ck.expect(cond, "writer", "%s: %s" % (tag, what), b.where(), msg)
        say(is_variant(r, TT.RES, "Ok") is TRUE, "succeeds", "returns " + show(r)[:80])
        ck.match("writer", tag + ": returns the path", b, field(r, "0", "Ok"), S("the path"))
        head, secs = sections(w.out)
        say(head.get("CCSDS_TDM_VERS") == "2.0" and "CREATION_DATE" in head and "ORIGINATOR" in head and "outside" not in head, "header", "the header is %s" % head)
        if tag == "originator":
            say(head.get("ORIGINATOR") == "me", "originator", "the originator is %s" % head.get("ORIGINATOR"))
        kept = [m for m in l if (t0 is NONE or m[1] >= 15) and (t1 is NONE or m[1] < (30 if t0 is NONE else 25))]
        name = lambda trk: "DSS-1" if tag == "alias" and trk == "A" else trk
        # what is written: each observable once, in a section of its tracker
        left = {(name(trk), NAMES[k], e): S(v) for trk, e, kw in kept for k, v in kw.items()}
        for md, data in secs:
            if not data:
                continue
            say(md.get("TIME_SYSTEM") == "UTC" and md.get("PARTICIPANT_2") == "sc" and md.get("MODE") == "SEQUENTIAL" and md.get("PATH") in ("1,2", "1,2,1"), "section " + md.get("PATH", "?"), "the section is %s" % md)
            es = [m[1] for m in kept if name(m[0]) == md.get("PARTICIPANT_1")]
            say(es and md.get("START_TIME") == "@%d" % es[0] and md.get("STOP_TIME") == "@%d" % es[-1], "section %s of %s: times" % (md.get("PATH"), md.get("PARTICIPANT_1")), "from %s to %s" % (md.get("START_TIME"), md.get("STOP_TIME")))
            kws = {d[0] for d in data}
            if "RANGE" in kws:
                say(md.get("RANGE_UNITS") == "km", "range unit", "range in %s" % md.get("RANGE_UNITS"))
                want = S("mod") if tag == "modulus" else None
                got = w.seen[int(md["RANGE_MODULUS"][1:])] if md.get("RANGE_MODULUS", "").startswith("$") else None
                if want is not None and got is not None:
                    ck.match("writer", tag + ": modulus", b, got, want)
                else:
                    say((want is None) == ("RANGE_MODULUS" not in md), "modulus", "the modulus is %s" % md.get("RANGE_MODULUS"))
            if kws & {"ANGLE_1", "ANGLE_2"}:
                say(md.get("ANGLE_TYPE") == "AZEL", "angle type", "angles are %s" % md.get("ANGLE_TYPE"))
            if tag in ("metadata", "originator"):
                say((md.get("TIMETAG_REF") == "RECEIVE") == (tag == "metadata") and "originator" not in md, "section metadata", "the section is %s" % md)
            for d in data:
                where = "%s of %s at %s" % (d[0], md.get("PARTICIPANT_1"), d[1] if len(d) > 1 else "")
                e = int(d[1][1:]) if len(d) == 3 and re.fullmatch(r"@\d+", d[1]) else None
                x = left.pop((md.get("PARTICIPANT_1"), d[0], e), None)
                say(x is not None, where, "this line is not an observable of the arc (or is written twice, or not in UTC): %s" % (d,))
                if x is None or not d[2].startswith("$"):
                    continue
                say(w.prec.get(d[2], 99) >= 9, "digits of " + where, "written with %s decimals only" % w.prec.get(d[2]))
                two = md.get("PATH") == "1,2,1" and not d[0].startswith("ANGLE")
                ck.match("writer", "%s: value of %s" % (tag, where), b, w.seen[int(d[2][1:])], mul(x, num(2)) if two else x)
        say(not left, "every observable is written", "not written: %s" % sorted(left)[:4])
        # and read again
        rd = Text(w.out.split("\n"))
        rd.seen = w.seen
        if not re.search(r"@[^0-9\s]", re.sub(r"CREATION_DATE.*", "", w.out)):
            back = [("DSS-1", NONE)] if tag == "alias" else []
            r = ck.ev(ck.fn("from_tdm", ARC), ["path", ("aliases", some(chain_((st_("DSS-1"), st_("A")))) if back else NONE)], contract=rd.contract, turns=160).ret
            wanted(ck, "round trip", tag, b, r, T, sorted([(trk, e, {k: S(v) for k, v in kw.items()}) for trk, e, kw in kept], key=lambda m: (m[1], m[0])),
                   moduli=ite(gt(S("mod"), num(0)), some(chain_((T["Range"], S("mod")))), NONE) if tag == "modulus" else NONE)
    me = rec(S("self"), measurements=arr(), moduli=NONE)
    r = ck.ev(b, [("self", me), ("spacecraft_name", st_("sc")), ("aliases", NONE), "path", ("cfg", rec(S("cfg"), start_epoch=NONE, end_epoch=NONE, metadata=NONE))], contract=Writer().contract).ret
    ck.match("writer", "an empty arc is an error", b, is_variant(r, TT.RES, "Ok"), FALSE)


RULES = [("values", reader), ("extras", extras), ("frequencies", frequencies), ("writer", writer)]
