"""R35: gravity field data hold the coefficients of their file."""
from spec import *
from r18 import UNIT
from r18 import when
import models

TECHNIQUE = "gated value graph of the readers over files of known shape (degrees, orders and column layout known, coefficients symbolic): file access and text splitting are replaced by contracts, and every stored coefficient, the reported size and the error outcomes are compared with the file"
RULE_TEXT = ["every coefficient pair of the file up to the requested degree and order is stored at its degree and order, and no other coefficient is set",
             "header and comment lines are skipped, and a compressed file is decompressed first", "in a COF file the C and S of one column are separated by their signs", "a field that cannot be parsed is an error",
             "a configuration is read by the reader of its file format, with its degree, order, compression and the frame known to the almanac",
             "an accessor returns the coefficient of the given degree and order"]
G = "GravityFieldData"
Z = num(0)


def items(*xs):
    l = arr(*xs)
    return models.mkiter(models.stream(num(len(xs)), lambda i: index(l, i)))


class File:
    """A text file of known shape. A line is a list of columns (name, parsed value or None if it cannot be parsed)."""

    def __init__(self, lines, commas=False, skip=()):
        self.lines = lines              # [(kind, [column name...])]
        self.vals = {}
        self.parts = {}                 # column -> its parts between minus signs
        self.commas = commas
        self.gz = None
        self.contract = {"String::from_utf8": self.utf8, "str::from_utf8": self.utf8, "String::from_utf8_lossy": None, "str::split": self.split, "str::lines": self.all_lines, "str::split_whitespace": self.white, "str::replace": self.replace,
                         "FromStr::from_str": self.parse, "str::parse": self.parse, "usize::from_str": self.parse, "f64::from_str": self.parse, "str::starts_with": self.starts, "str::is_empty": self.empty,
                         "Iterator::count": self.count, "str::trim": self.same_, "str::trim_end": self.same_, "str::trim_start": self.same_}
        glue = lambda a, x: (UNIT, app("Add::add", a, x))
        self.contract.update({"String::push_str": glue, "String::push": glue, "[T]::concat": self.concat, "slice::concat": self.concat})
        self.contract = {k: v for k, v in self.contract.items() if v}

    def same_(self, t):
        return t

    def utf8(self, buf):
        self.gz = any(x.op == "app" and x.args[0].startswith("GzDecoder::") for x in subterms(buf))
        return ok(S("text"))

    def all_lines(self, t):
        return items(*[S("line%d" % i) for i in range(len(self.lines))]) if t is S("text") else None

    def split(self, t, pat):
        if t is S("text"):
            return self.all_lines(t)
        if t.op == "sym" and t.args[0] in self.parts:
            return items(*[S(p) if p else mk("str", "") for p in self.parts[t.args[0]]])
        if t.op == "sym" and t.args[0] in self.vals and show(pat).strip("'\"") == "D":
            return items(app("mantissa of", t), app("exponent of", t))
        return None

    def line(self, t):
        if t.op == "sym" and t.args[0].startswith("line"):
            return self.lines[int(t.args[0][4:])]
        return None

    def replace(self, t, a, b):
        n = show(a).strip("'\"")
        m = show(b).strip("'\"")
        if self.line(t) is not None and n == "," and m == " ":
            return app("no commas", t)
        if t.op == "sym" and n == "D" and m in ("E", "e"):
            return app("exponent", t)
        return None

    def white(self, t):
        l = self.line(t.args[1]) if t.op == "app" and t.args[0] == "no commas" else self.line(t)
        if l is None:
            return None
        if self.commas and t.op == "sym":
            return items(*[S(c + ",") for c in l[1]])        # the commas stay in the columns
        return items(*[S(c) for c in l[1]])

    def concat(self, l):
        ps = models.plist(l)
        if not ps or not all(c is TRUE for c, _ in ps):
            return None
        r = ps[0][1]
        for _, x in ps[1:]:
            r = app("Add::add", r, x)
        return r

    def flat(self, t):
        if t.op == "app" and t.args[0] in ("Add::add", "add"):
            return self.flat(t.args[1]) + self.flat(t.args[2])
        if t.op == "conv" or (t.op == "app" and t.args[0] == "conv"):
            return self.flat(t.args[-1])
        if t.op == "sym":
            return t.args[0]
        if t.op == "str":
            return t.args[0]
        if t.op == "char" or show(t) in ("'-'", "-"):
            return show(t).strip("'")
        return "?"

    def parse(self, t):
        if t.op == "app" and t.args[0] == "exponent":
            t = t.args[1]
        elif t.op == "sym" and t.args[0] in self.vals and self.vals[t.args[0]] is not None and not is_num(self.vals[t.args[0]]) and self.commas:
            return ok(app("without its exponent", t))
        if t.op == "app" and t.args[0] in ("mantissa of", "exponent of"):
            return ok(t)
        n = self.flat(t)
        if "?" in n:
            return None                 # built by text operations that are not followed
        v = self.vals.get(n)
        return ok(v) if v is not None else TT.err(S("unreadable"))

    def starts(self, t, pat):
        p = show(pat).strip("'\"")
        l = self.line(t)
        if l is not None and p == "R":
            return TRUE if l[0] == "data" else FALSE
        if t.op == "sym" and p == "-":
            return TRUE if t.args[0].startswith("-") else FALSE
        return None

    def empty(self, t):
        l = self.line(t)
        return None if l is None else (TRUE if l[0] == "blank" else FALSE)

    def count(self, it):
        for x in [it] + list(subterms(it)):
            if x.op == "app" and x.args[0] == "str::matches" and x.args[1].op == "sym" and show(x.args[2]).strip("'\"") == "-":
                return num(max(len(self.parts.get(x.args[1].args[0], ["", ""])) - 1, 0) if x.args[1].args[0] in self.parts else x.args[1].args[0].count("-"))
        return None


def shadr(data, header=True, tail=True):
    f = File([], commas=True)
    if header:
        f.lines.append(("header", ["a_ref", "mu"]))
    for n, m, bad in data:
        cols = ["n%d_%d" % (n, m), "m%d_%d" % (n, m), "c%d_%d" % (n, m), "s%d_%d" % (n, m), "u%d_%d" % (n, m), "w%d_%d" % (n, m)]
        for k, (c, v) in enumerate(zip(cols, (num(n), num(m), S("C%d_%d" % (n, m)), S("S%d_%d" % (n, m))))):
            f.vals[c] = None if bad == k else v
        f.lines.append(("data", cols))
    if tail:
        f.lines.append(("blank", []))
    return f


def cof(data):
    """Columns of a COF line: tag, degree, order, C, S; C and a negative S run together, so that the whole column has three or four minus signs."""
    f = File([])
    f.lines += [("comment", ["Cx"]), ("header", ["POTFIELD", "x"])]
    for n, m, how in data:
        k = "%d_%d" % (n, m)
        cols = ["RECOEF", "n" + k, "m" + k]
        f.vals["n" + k], f.vals["m" + k] = num(n), num(m)
        C, Sv = S("C" + k), S("S" + k)
        if how in ("C", "-C"):
            name = ("-" if how[0] == "-" else "") + "c" + k + "-e"
            cols.append(name)
            f.vals[name] = C
        elif how in ("C S", "-C S"):
            name = ("-" if how[0] == "-" else "") + "c" + k + "-e"
            cols += [name, "s" + k]
            f.vals[name], f.vals["s" + k] = C, Sv
        elif how == "C-S":
            name = "c%s-e-s%s-g" % (k, k)
            f.parts[name] = ["c" + k, "e", "s" + k, "g"]
            cols.append(name)
            f.vals["c%s-e" % k], f.vals["-s%s-g" % k] = C, Sv
        elif how == "-C-S":
            name = "-c%s-e-s%s-g" % (k, k)
            f.parts[name] = ["", "c" + k, "e", "s" + k, "g"]
            cols.append(name)
            f.vals["-c%s-e" % k], f.vals["-s%s-g" % k] = C, Sv
        elif how.startswith("bad"):
            cols += ["c" + k, "s" + k]
            f.vals["c" + k], f.vals["s" + k] = C, Sv
            f.vals[cols[int(how[3:])]] = None
        f.lines.append(("data", cols))
    f.lines += [("end", ["END"]), ("blank", [])]
    return f


def stored(ck, rule, tag, b, r, f, have, degree, order, gz):
    ck.match(rule, tag + ": succeeds", b, is_variant(r, TT.RES, "Ok"), TRUE)
    ck.expect(f.gz is gz, rule, tag + ": decompressed exactly when compressed", b.where(), "read through a decompressor: %s" % f.gz)
    v = field(r, "0", "Ok")
    for n in range(degree + 1):
        for m in range(degree + 1):
            if n + m == 0:
                continue
            w = have.get((n, m), (Z, Z)) if m <= order else (Z, Z)
            ck.match(rule, "%s: C %d,%d" % (tag, n, m), b, ment(F_(v, "c_nm"), n, m), w[0])
            ck.match(rule, "%s: S %d,%d" % (tag, n, m), b, ment(F_(v, "s_nm"), n, m), w[1])
    dmax = max(n for n, m in have if n <= degree)
    omax = max(m for n, m in have if n <= degree)
    ck.match(rule, tag + ": degree", b, F_(v, "degree"), num(dmax))
    if omax <= order:
        ck.match(rule, tag + ": order", b, F_(v, "order"), num(omax))
    ck.match(rule, tag + ": frame", b, F_(v, "frame"), S("frame"))


FULL = [(2, 0), (2, 1), (2, 2), (3, 0), (3, 1), (3, 2), (3, 3)]


def files(ck):
    ck.vocab |= {"without its exponent", "mantissa of", "exponent of"}
    b = ck.fn("from_shadr", G)
    pair = lambda n, m: (S("C%d_%d" % (n, m)), S("S%d_%d" % (n, m)))
    for tag, nm, degree, order in (("full", FULL, 3, 3), ("lower order", FULL, 3, 1), ("lower degree", FULL, 2, 2), ("smaller than requested", FULL[:3], 4, 4), ("from degree 1", [(1, 0), (1, 1)] + FULL[:3], 2, 2)):
        for gz in (True, False):
            f = shadr([(n, m, None) for n, m in nm])
            r = ck.ev(b, ["path", ("degree", num(degree)), ("order", num(order)), ("gunzipped", TRUE if gz else FALSE), "frame"], contract=f.contract, turns=14).ret
            stored(ck, "SHADR", "%s%s" % (tag, ", compressed" if gz else ""), b, r, f, {k: pair(*k) for k in nm}, degree, order, gz)
    for k, what in enumerate(("degree", "order", "C", "S")):
        f = shadr([(2, 0, None), (2, 1, k), (2, 2, None)])
        r = ck.ev(b, ["path", ("degree", num(2)), ("order", num(2)), ("gunzipped", FALSE), "frame"], contract=f.contract, turns=14).ret
        ck.match("SHADR", "an unreadable %s is an error" % what, b, is_variant(r, TT.RES, "Ok"), FALSE)


def cofs(ck):
    b = ck.fn("from_cof", G)
    hows = ["-C", "C", "-C S", "C S", "C-S", "-C-S", "C S"]
    pair = lambda n, m, h: (S("C%d_%d" % (n, m)), S("S%d_%d" % (n, m)) if "S" in h else Z)
    for tag, nm, degree, order in (("full", FULL, 3, 3), ("lower order", FULL, 3, 1), ("lower degree", FULL, 2, 2), ("smaller than requested", FULL[:3], 4, 4)):
        for rot in range(0, 7, 1 if tag == "full" else 5):
            for gz in ((True, False) if rot == 0 else (True,)):
                data = [(n, m, hows[(i + rot) % 7]) for i, (n, m) in enumerate(nm)]
                f = cof(data)
                r = ck.ev(b, ["path", ("degree", num(degree)), ("order", num(order)), ("gunzipped", TRUE if gz else FALSE), "frame"], contract=f.contract, turns=14).ret
                stored(ck, "COF", "%s, layout %d%s" % (tag, rot, ", compressed" if gz else ""), b, r, f, {(n, m): pair(n, m, h) for n, m, h in data}, degree, order, gz)
    for k, what in ((1, "degree"), (2, "order"), (3, "C"), (4, "S")):
        f = cof([(2, 0, "C"), (2, 1, "bad%d" % k), (2, 2, "C S")])
        r = ck.ev(b, ["path", ("degree", num(2)), ("order", num(2)), ("gunzipped", FALSE), "frame"], contract=f.contract, turns=14).ret
        ck.match("COF", "an unreadable %s is an error" % what, b, is_variant(r, TT.RES, "Ok"), FALSE)


def config(ck):
    b = ck.fn("from_config", G)
    for gz, ext in ((TRUE, ".cof.gz"), (FALSE, ".cof")):
        cfg = rec(S("cfg"), gunzipped=gz)
        named = lambda s, x: app("the file name ends with", x) if any(y is S("cfg") for y in subterms(s)) else None
        part = lambda s, x: app("the last component of the path is", x)
        r = ck.ev(b, [("cfg", cfg), "almanac"], opaque={"GravityFieldData::from_cof", "GravityFieldData::from_shadr"}, contract={"str::ends_with": named, "String::ends_with": named, "Path::ends_with": part})
        ck.vocab |= {"the last component of the path is", "the file name ends with", "GravityFieldData::from_cof", "GravityFieldData::from_shadr"}
        fi = app("Almanac::frame_info", S("almanac"), cfg["frame"])
        args = [cfg["filepath"], cfg["degree"], cfg["order"], gz, fi[("Ok", "0")]]
        g = tobool(app("the file name ends with", mk("str", ext)))
        ck.match("configuration", "reader of a file%s" % (", compressed" if gz is TRUE else ""), b, r.ret, ite(g, app("GravityFieldData::from_cof", *args), app("GravityFieldData::from_shadr", *args)))
        ck.match("configuration", "needs the frame%s" % (", compressed" if gz is TRUE else ""), b, when(bnot(is_variant(fi, TT.RES, "Ok")), is_variant(r.ret, TT.RES, "Ok")), when(bnot(is_variant(fi, TT.RES, "Ok")), FALSE), None)


def access(ck):
    b = ck.fn("from_j2", G)
    r = ck.ev(b, ["j2", "frame"]).ret
    for n in range(3):
        for m in range(3):
            ck.match("J2", "C %d,%d" % (n, m), b, ment(F_(r, "c_nm"), n, m), S("j2") if (n, m) == (2, 0) else Z)
            ck.match("J2", "S %d,%d" % (n, m), b, ment(F_(r, "s_nm"), n, m), Z)
    for k, w in (("degree", num(2)), ("order", Z), ("frame", S("frame"))):
        ck.match("J2", k, b, F_(r, k), w)
    C = mat(4, 4, [S("C%d%d" % (i, j)) for i in range(4) for j in range(4)])
    Sm = mat(4, 4, [S("S%d%d" % (i, j)) for i in range(4) for j in range(4)])
    me = rec(S("self"), c_nm=C, s_nm=Sm)
    b = ck.fn("cs_nm", G)
    for n in range(4):
        for m in range(n + 1):
            r = ck.ev(b, [("self", me), ("degree", num(n)), ("order", num(m))]).ret
            ck.match("access", "C %d,%d" % (n, m), b, field(r, "0"), ment(C, n, m))
            ck.match("access", "S %d,%d" % (n, m), b, field(r, "1"), ment(Sm, n, m))
    for fn, k in (("max_degree_n", "degree"), ("max_order_m", "order")):
        b = ck.fn(fn, G)
        ck.match("access", fn, b, ck.ev(b, ["self"]).ret, S("self")[k])


RULES = [("SHADR", files), ("COF", cofs), ("configuration", config), ("access", access)]
