"""R38: trajectories survive Parquet files."""
from spec import *
from r18 import UNIT
from r35 import items
from r36 import st_, text
from r37 import Parquet, NULL
import mirflow, models

TECHNIQUE = "gated value graph of the writer and the reader over trajectories and files of known shape with symbolic values: the builders, schema and columns of the arrow library are replaced by contracts that record them, and the value of each parameter of each state is a distinct symbol or an error"
RULE_TEXT = ["the file holds one row per state (or per sample of the trajectory between the requested epochs, by default its ends), in order: the epoch in UTC and each requested parameter in a column of its own; a value that a state does not have is empty in a column that may be empty, and a parameter that no state has is left out",
             "reading yields one state per row, put in order, with its epoch, the frame of the file, its guidance mode and every stored parameter of position, velocity, masses and thrust that is not empty", "a file without epochs, frame, position, velocity or propellant mass, an unreadable epoch or frame, and a file that cannot be read are errors"]
ASSUMPTIONS = ["trajectories of three states and files of up to two batches stand for all", "arrow builders, arrays, and record batches behave as documented", "value and set_value of a state address the same quantity (R13); sampling and ordering of trajectories are those of R23"]
NAMES = {}
ORBIT = ("X", "Y", "Z", "VX", "VY", "VZ")
READ = ORBIT + ("DryMass", "Isp", "PropMass", "Thrust", "ThrustX", "ThrustY", "ThrustZ")
PARAMS = READ + ("SemiMajorAxis", "GuidanceMode", "Cr", "Cd")
PARAM, ELEM = "StateParameter", "OrbitalElement"


def par(t):
    """The name of a parameter term, or None."""
    if t.op != "agg" or t.args[0][0] != "adt":
        return None
    n = show(t).split("{")[0].split("::")[-1]
    if n == "Element":
        return show(field(t, "0", "Element")).split("{")[0].split("::")[-1]
    return n


def mkpar(ck, n):
    els = ("X", "Y", "Z", "VX", "VY", "VZ", "SemiMajorAxis")
    return variant(ck, PARAM, "Element", **{"0": variant(ck, ELEM, n)}) if n in els else variant(ck, PARAM, n)


class Traj(Parquet):
    def __init__(self, ck, vals, batches=(), bad=None, frames=()):
        Parquet.__init__(self, batches, bad)
        self.ck, self.vals, self.between, self.out = ck, vals, [], None
        c = self.contract
        val = lambda s, f: None if par(f) is None or s.op != "sym" else ok(S("%s of %s" % (par(f), s.args[0]))) if self.vals(s.args[0], par(f)) else TT.err(S("no such value"))
        for k in ("State", "Spacecraft"):
            c[k + "::value"] = val
            c[k + "::epoch"] = lambda s: num(10 * int(s.args[0][1:])) if s.op == "sym" and s.args[0][1:].isdigit() else None
        c["Interpolatable::frame"] = c["Spacecraft::frame"] = lambda s: S("frame of it")
        c["serde_dhall::serialize"] = c["serialize"] = lambda f: app("dhall", f)
        c["Serializer::static_type_annotation"] = lambda s: s
        c["Serializer::to_string"] = lambda s: ok(app("as text", s))
        c["Field::new"] = lambda n, d, z: app("Field", n, z)
        c["Formatter::write_fmt"] = c["Formatter::write_str"] = self.shown
        c["Field::with_nullable"] = lambda f, n: app("Field", f.args[1], n, *f.args[3:]) if f.op == "app" and f.args[0] == "Field" else None
        c["Traj::every_between"] = self.every
        # reading
        c["FileMetaData::key_value_metadata"] = lambda m: NONE
        c["Field::metadata"] = lambda f: app("meta", f)
        get = lambda m, k: None if m.op != "app" or m.args[0] != "meta" or text(k) != "Frame" or text(m.args[1].args[1]) is None else some(S("frame of it")) if text(m.args[1].args[1]) in [column(ck, n) for n in frames] else NONE
        c["HashMap::get"] = get
        c["any::type_name"] = lambda: st_("nyx_space::cosmic::spacecraft::Spacecraft")
        c["Iterator::last"] = self.last
        c["serde_dhall::from_str"] = c["de::from_str"] = lambda t: t if t is S("frame of it") else None
        c["Deserializer::parse"] = lambda t: (TT.err(S("no frame")) if bad == "frame" else ok(t)) if t is S("frame of it") else None
        sets = lambda n: (lambda x, v: (UNIT, with_field(x, n, None, v)))
        for k in ("State", "Spacecraft", "Interpolatable"):
            c[k + "::zeros"] = lambda: rec(S("zeros"), thruster=NONE, stm=NONE)
            c[k + "::default"] = c[k + "::zeros"]
            c[k + "::set_epoch"] = sets("epoch")
            c[k + "::set_frame"] = sets("frame")
            c[k + "::set_value"] = self.set
        c["Traj::finalize"] = lambda t: (UNIT, with_field(t, "states", None, app("finalized", field(t, "states"))))
        c["GuidanceMode::from"] = c["From::from"] = lambda v: app("mode", v) if show(v).startswith("GuidanceMode") else None

    def every(self, t, step, a, b):
        self.between.append((step, a, b))
        return items(S("s5"), S("s6"))

    def last(self, it):
        st = it.args[0] if it.op == "iter" else None
        if st is None or st.op != "stream" or not is_num(st.args[0]):
            return None
        n, x = int(nval(st.args[0])), next((x for x in st.args[2:] if x.op == "index"), None)
        return NONE if n == 0 else some(index(x.args[0], num(n - 1))) if x is not None else None

    def set(self, x, p, v):
        n = par(p)
        if n is None:
            return None
        if n in ("Isp", "Thrust") and is_variant(field(x, "thruster"), TT.OPT, "Some") is not TRUE:
            return (TT.err(S("no thruster")), x) if field(x, "thruster") is NONE else None
        return ok(UNIT), with_field(x, "value " + n, None, v)

    def shown(self, f, t):
        if f is S("formatter"):
            self.out = self.flat(t)
            return ok(UNIT) if self.out is not None else None
        return None

    def name(self, p):
        """The text a parameter is displayed as."""
        n = par(p)
        if n not in NAMES:
            keep, self.out = self.out, None
            self.ck.ev(self.ck.fn("fmt", PARAM, "Display"), [("self", p), ("f", S("formatter"))], contract=self.contract)
            NAMES[n], self.out = self.out, keep
        return NAMES[n]

    def flat(self, t):
        if t.op == "app" and t.args[0] in ("Argument::new_display", "to_string", "ToString::to_string") and t.args[1].op == "agg" and t.args[1].args[0][0] == "adt":
            n = show(t.args[1]).split("{")[0].split("::")
            return self.name(t.args[1]) if PARAM in n else ["element " + n[-1]] if ELEM in n else None
        if t.op == "app" and t.args[0] == "Argument::new_debug" and t.args[1].op == "app" and t.args[1].args[0] == "mode":
            return ["mode " + show(t.args[1].args[1])]
        return Parquet.flat(self, t)


def column(ck, n):
    """The name of the column of a parameter."""
    if n not in PARAMS:
        return n
    r = Traj(ck, None).name(mkpar(ck, n))
    if r is None or not all(isinstance(x, str) for x in r):
        raise Undecidable("the name of %s is not followed" % n)
    return "".join(r)


def writer(ck):
    NAMES.clear()
    names = [column(ck, n) for n in PARAMS]
    ck.expect(len(set(names)) == len(names), "writer", "each parameter has a column of its own", ck.fn("fmt", PARAM, "Display").where(), "the columns are %s" % names)
    b = ck.fn("to_parquet", "Traj")
    ck.vocab |= {"in scale", "rows", "mode", "dhall", "as text"}
    P = lambda *ns: arr(*[mkpar(ck, n) for n in ns])
    yes = lambda s, f: True
    some_ = lambda s, f: not (f == "ThrustX" and s != "s1") and not (f == "GuidanceMode" and s == "s2") and f != "Isp"
    runs = [("default values", None, yes, {}), ("all values", ("X", "VZ", "PropMass"), yes, {}), ("modes", ("Y", "GuidanceMode", "Cr"), yes, {}), ("values that some states lack", ("X", "ThrustX", "Isp", "GuidanceMode", "DryMass"), some_, {}),
            ("from an epoch", ("X", "Y"), yes, dict(start_epoch=some(S("t0")))), ("until an epoch", ("X", "Y"), yes, dict(end_epoch=some(S("t1")))), ("with a step", ("X", "Y"), yes, dict(step=some(S("dt")))),
            ("between epochs", ("X", "Y"), yes, dict(start_epoch=some(S("t0")), end_epoch=some(S("t1")), step=some(S("dt"))))]
    for tag, ps, vals, kw in runs:
        w = Traj(ck, vals)
        full = dict(start_epoch=NONE, end_epoch=NONE, step=NONE, metadata=NONE, fields=some(P(*ps)) if ps else NONE)
        full.update(kw)
        if ps is None:
            ps = ("X", "VX", "PropMass")
            w.contract["Interpolatable::export_params"] = lambda ps=ps: P(*ps)
        r = ck.ev(b, [("self", rec(S("self"), states=arr(S("s1"), S("s2"), S("s3")))), "path", ("cfg", rec(S("cfg"), **full))], contract=w.contract, turns=60).ret
        k_ok = is_variant(r, TT.RES, "Ok")
        bat = w.written[0] if len(w.written) == 1 else None
        fs = cs = None
        if bat is not None and bat.args[1].op == "app" and bat.args[1].args[0] == "Schema":
            fs, cs = models.plist(bat.args[1].args[1]), models.plist(bat.args[2])
        if w.undecided or fs is None or cs is None or any(x.op != "app" or x.args[0] != "Field" or text(x.args[1]) is None for _, x in fs) or any(x.op != "app" or x.args[0] != "rows" for _, x in cs):
            ck.undecided("writer", tag, "the columns are not followed: " + show(bat if bat is not None else r)[:300])
            continue
        say = lambda cond, what, msg: ck.expect(cond, "writer", "%s: %s" % (tag, what), b.where(), msg)
        states = ["s5", "s6"] if kw else ["s1", "s2", "s3"]
        if kw:
            ck.expect(len(w.between) == 1, "writer", tag + ": sampled once", b.where(), "%d samplings" % len(w.between))
            for g, n, d in zip(w.between[0] if w.between else (), ("step", "start_epoch", "end_epoch"), (None, num(10), num(30))):
                if n in kw or d is not None:
                    ck.match("writer", "%s: %s of the sampling" % (tag, n), b, g, field(kw[n], "0", "Some") if n in kw else d)
        ck.match("writer", tag + ": returns the path", b, field(r, "0", "Ok"), S("the path"))
        names, cols = [text(x.args[1]) for _, x in fs], [x.args[1:] for _, x in cs]
        say(len(names) == len(cols) and len(set(names)) == len(names), "one column per field", "%d fields and %d columns" % (len(names), len(cols)))
        want = [p for p in ps if any(vals(s, p) for s in states)]
        say(set(names) == {"Epoch (UTC)"} | {column(ck, p) for p in want}, "columns", "the columns are %s instead of those of %s" % (names, want))
        say(all(len(x) == len(states) for x in cols), "rows", "the columns have %s rows instead of %d" % ([len(x) for x in cols], len(states)))
        file = dict(zip(names, cols))
        for (_, f), c in zip(fs, cs):
            if text(f.args[1]) != "Epoch (UTC)" and any(x is S(NULL) for x in c[1].args[1:]):
                ck.match("writer", "%s: %s may be empty" % (tag, text(f.args[1])), b, tobool(f.args[2]), TRUE)
        for i, s in enumerate(states):
            at = lambda c: file[c][i] if c in file and i < len(file[c]) else S("nothing")
            ck.match("writer", "%s: epoch %d" % (tag, i), b, at("Epoch (UTC)"), st_("@%d" % (10 * int(s[1:]))))
            for p in want:
                v = "%s of %s" % (p, s)
                ck.match("writer", "%s: %s of %d" % (tag, p, i), b, at(column(ck, p)), S(NULL) if not vals(s, p) else st_("mode " + v) if p == "GuidanceMode" else S(v))


def reader(ck):
    NAMES.clear()
    b = ck.fn("from_parquet", "Traj")
    ck.vocab |= {"what lies under an empty cell", "value " + READ[0]}

    def batch(rows, names, modes=None, extra=()):
        d = {"Epoch (UTC)": [st_("@%s" % e) for e in rows]}
        for x in extra:
            d[x] = [S("%s at %s" % (x, e)) for e in rows]
        for n in names:
            d[n] = [None if n.endswith("?") and i == 1 else S("%s at %s" % (n.rstrip("?"), e)) for i, e in enumerate(rows)]
        d = {column(ck, k.rstrip("?")): v for k, v in d.items()}
        if modes:
            d[column(ck, "GuidanceMode")] = [st_(m) for m in modes]
        return d
    ev = lambda f: ck.ev(b, ["path"], contract=f.contract, turns=60).ret

    def good(tag, rows, names, modes=None, cut=None, extra=(), shuffle=False):
        bs = [batch(rows, names, modes, extra)] if cut is None else [batch(rows[:cut], names, modes, extra), batch(rows[cut:], names, modes, extra)]
        if shuffle:
            bs = [dict(reversed(list(x.items()))) for x in bs]
        r = ev(Traj(ck, None, bs, frames=ORBIT))
        ck.match("reader", tag + ": succeeds", b, is_variant(r, TT.RES, "Ok"), TRUE)
        t = field(r, "0", "Ok")
        st = field(t, "states")
        fin = st.op == "app" and st.args[0] == "finalized"
        l = models.plist(st.args[1] if fin else st)
        if l is None or any(c is not TRUE for c, _ in l):
            ck.undecided("reader", tag + ": states", "the states are not a list of known length: " + show(field(t, "states"))[:300])
            return
        ck.expect(len(l) == len(rows), "reader", tag + ": number of states", b.where(), "%d states are read instead of %d" % (len(l), len(rows)))
        if not fin:
            rows = sorted(rows)
        has = {n.rstrip("?") for n in names}
        for i, ((_, s), e) in enumerate(zip(l, rows)):
            m = lambda what, g, w: ck.match("reader", "%s: %s of %d" % (tag, what, i), b, g, w)
            m("epoch", field(s, "epoch"), num(e))
            m("frame", field(s, "frame"), S("frame of it"))
            m("thruster", is_variant(field(s, "thruster"), TT.OPT, "Some"), TRUE if has & {"Isp", "Thrust"} else FALSE)
            if modes:
                m("mode", field(s, "mode"), variant(ck, "GuidanceMode", modes[i]))
            for n in READ:
                m(n, field(s, "value " + n), S("%s at %s" % (n, e)) if n in names or n + "?" in names and i != 1 else field(S("zeros"), "value " + n))
    good("the orbit and the mass", (10, 20), ORBIT + ("PropMass",))
    good("all parameters", (10, 20, 30), READ)
    good("modes", (10, 20, 30), ORBIT + ("PropMass",), ("Thrust", "Coast", "Inhibit"))
    good("two batches", (10, 20, 30), ORBIT + ("PropMass", "DryMass"), cut=2)
    good("columns in another order", (10, 20), READ, shuffle=True)
    good("other columns", (10, 20), ORBIT + ("PropMass",), extra=("Notes", "SemiMajorAxis"))
    good("rows out of order", (30, 10, 20), ORBIT + ("PropMass",))
    for k in ("Isp", "Thrust", "ThrustY", "DryMass"):
        good("with only " + k, (10, 20), ORBIT + ("PropMass", k))
    good("empty cells", (10, 20, 30), ORBIT + ("PropMass", "ThrustX?", "ThrustY?", "ThrustZ?", "Isp?", "Thrust?"))
    no = lambda tag, f: ck.match("errors", tag, b, is_variant(ev(f), TT.RES, "Ok"), FALSE)
    full = batch((10, 20), ORBIT + ("PropMass",))
    for k in ("Epoch (UTC)",) + ORBIT + ("PropMass",):
        no("a file without " + k, Traj(ck, None, [{n: v for n, v in full.items() if n != column(ck, k)}], frames=ORBIT))
    no("a file without frame", Traj(ck, None, [full]))
    no("unreadable frame", Traj(ck, None, [full], "frame", ORBIT))
    no("unreadable epoch", Traj(ck, None, [batch((10, "today"), ORBIT + ("PropMass",))], frames=ORBIT))
    for k in ("file", "build"):
        no("a %s that cannot be read" % k, Traj(ck, None, [full], k, ORBIT))


RULES = [("writer", writer), ("reader", reader)]
