"""R37: tracking arcs survive Parquet files."""
from spec import *
from r18 import chain_, UNIT
from r35 import items
from r36 import Text, st_, text, kinds, ARC, wanted
import mirflow, models, re

TECHNIQUE = "gated value graph of the writer and the reader over arcs and files of known shape with symbolic values: the builders, schema and columns of the arrow library are replaced by contracts that record them, every written cell is compared with the arc and every measurement read with the file, including empty cells"
RULE_TEXT = ["the file holds one row per selected measurement, in order: its epoch in UTC, its tracker, and each of its observables in the column of its type; an observable that a measurement does not have is empty",
             "reading yields one measurement per row, with the epoch, tracker and exactly the observables that are not empty, each under the type of its column", "a file without epochs, trackers or observables, an unreadable epoch, and a file that cannot be read are errors",
             "reading what was written returns the same measurements"]
ASSUMPTIONS = ["files of up to two batches of three rows stand for all files", "arrow builders, arrays, and record batches behave as documented: rows are kept in the order appended, and a null cell has no value"]
NULL = "an empty cell"
COLS = {"Range": "Range (km)", "Doppler": "Doppler (km/s)", "Azimuth": "Azimuth (deg)", "Elevation": "Elevation (deg)"}


class Parquet(Text):
    """columns: [{name: [cell]}] per batch, for reading; cells are terms, None if empty."""

    def __init__(self, batches=(), bad=None):
        Text.__init__(self, [])
        self.batches, self.bad = list(batches), bad
        self.written, self.meta, self.undecided = [], None, False
        c = self.contract
        grow = lambda b, v: (UNIT, app("rows", *(b.args[1:] + (v,)))) if b.op == "app" and b.args[0] == "rows" and self.here() else None
        for k in ("GenericByteBuilder", "PrimitiveBuilder"):
            c[k + "::new"] = lambda *a: app("rows")
            c[k + "::with_capacity"] = lambda *a: app("rows")
            c[k + "::append_value"] = grow
            c[k + "::append_null"] = lambda b: grow(b, S(NULL))
            c[k + "::append_option"] = lambda b, o: grow(b, S(NULL)) if o is NONE else grow(b, field(o, "0", "Some")) if is_variant(o, TT.OPT, "Some") is TRUE else None
            c[k + "::finish"] = lambda b: b
        c["Field::new"] = lambda n, *a: app("Field", n)
        c["Field::with_metadata"] = lambda f, *a: f
        c["Schema::new"] = lambda l, *a: app("Schema", l)
        c["File::create"] = lambda p: ok(S("file"))
        c["ExportCfg::actual_path"] = lambda c, p: S("the path")
        c["pq_writer"] = c["watermark::pq_writer"] = c["io::pq_writer"] = self.props
        c["ArrowWriter::try_new"] = lambda *a: ok(S("arrow writer"))
        c["RecordBatch::try_new"] = lambda s, r: ok(app("Batch", s, r))
        c["ArrowWriter::write"] = self.write
        c["ArrowWriter::close"] = lambda w: ok(S("closed"))
        c["ArrowWriter::finish"] = lambda w: ok(S("closed"))
        c["Epoch::to_time_scale"] = lambda e, t: app("in scale", e, st_(show(t).split("::")[-1]))
        c["Epoch::to_isoformat"] = self.iso
        c["Epoch::to_gregorian_str"] = lambda e, t: self.iso(c["Epoch::to_time_scale"](e, t))
        c["Epoch::now"] = lambda: ok(S("now"))
        # reading
        err = TT.err(S("io"))
        c["File::open"] = lambda p: err if self.bad == "file" else ok(S("file"))
        c["ArrowReaderBuilder::try_new"] = lambda f: ok(S("builder"))
        c["ArrowReaderBuilder::build"] = lambda f: err if self.bad == "build" else ok(S("reader"))
        c["RecordBatchReader::schema"] = c["ParquetRecordBatchReader::schema"] = c["ArrowReaderBuilder::schema"] = lambda r: S("schema")
        c["IntoIterator::into_iter"] = self.into
        c["Schema::fields"] = lambda s: field(s, "fields")
        c["slice::iter"] = c["Iterator::iter"] = lambda x: self.into(x) if x.op != "app" else None
        c["Field::name"] = lambda f: f.args[1] if f.op == "app" and f.args[0] == "Field" else None
        c["Schema::field_with_name"] = lambda s, n: None if text(n) is None else ok(app("Field", n)) if text(n) in self.names() else TT.err(S("no field"))
        c["RecordBatch::num_rows"] = lambda b: num(len(next(iter(self.batches[self.which(b)].values())))) if self.which(b) is not None else None
        c["RecordBatch::column_by_name"] = lambda b, n: None if text(n) is None or self.which(b) is None else some(app("column", b, n)) if text(n) in self.batches[self.which(b)] else NONE
        for k in ("Array", "GenericByteArray", "PrimitiveArray"):
            c[k + "::as_any"] = lambda x: x
            c[k + "::value"] = lambda x, i: self.cell(x, i, lambda v: S("what lies under an empty cell") if v is None else v)
            c[k + "::is_null"] = lambda x, i: self.cell(x, i, lambda v: TRUE if v is None else FALSE)
            c[k + "::is_valid"] = lambda x, i: self.cell(x, i, lambda v: FALSE if v is None else TRUE)
        c["::downcast_ref"] = c["Any::downcast_ref"] = c["dyn Any::downcast_ref"] = c["<dyn Any>::downcast_ref"] = lambda x: some(x) if x.op == "app" and x.args[0] == "column" else None

    def here(self):
        if mirflow.NOW[0] is not TRUE:
            self.undecided = True
        return True

    def iso(self, e):
        sc = "own"
        while e.op == "app" and e.args[0] == "in scale":
            sc, e = (text(e.args[2]) if sc == "own" else sc), e.args[1]
        return st_("@%s%s" % ("" if sc == "UTC" else sc, nval(e) if is_num(e) else show(e)))

    def epoch(self, t):
        s = text(t)
        m = re.fullmatch(r"@(\d+)( UTC)?", s) if s is not None else None
        return None if s is None else ok(num(int(m.group(1)))) if m else TT.err(S("no epoch"))

    def props(self, m):
        self.meta = m
        return S("props")

    def write(self, w, b):
        self.here()
        if b.op == "app" and b.args[0] == "Batch":
            self.written.append(b)
            return ok(UNIT)
        return None

    def names(self):
        return list(self.batches[0]) if self.batches else []

    def which(self, b):
        return int(b.args[0][5:]) if b.op == "sym" and b.args[0].startswith("batch") else None

    def into(self, x):
        if x is S("reader"):
            l = [ok(S("batch%d" % i)) for i in range(len(self.batches))]
            return items(*(l + ([TT.err(S("io"))] if self.bad == "batch" else [])))
        if show(x).startswith("schema"):
            return items(*[app("Field", st_(n)) for n in self.names()])
        return None

    def cell(self, x, i, f):
        if x.op == "app" and x.args[0] == "column" and is_num(i):
            col = self.batches[self.which(x.args[1])][text(x.args[2])]
            k = int(nval(i))
            return f(col[k]) if 0 <= k < len(col) else None
        return None

    def flat(self, t):
        if t.op == "app" and t.args[0] == "Argument::new_debug" and t.args[1].op == "agg" and t.args[1].args[0][0] == "adt":
            return [show(t.args[1]).split("::")[-1]]
        return Text.flat(self, t)


def want_of(rows):
    return [(trk, e, {k: S(v) for k, v in kw.items()}) for trk, e, kw in rows]


def reader(ck):
    b, T = ck.fn("from_parquet", ARC), kinds(ck)
    ck.vocab |= {"what lies under an empty cell"}
    read = lambda f: ck.ev(b, ["path"], contract=f.contract, turns=40).ret

    def batch(rows, cols, extra=()):
        d = {"Epoch (UTC)": [st_("@%s" % e) for _, e, _ in rows], "Tracking device": [st_(t) for t, _, _ in rows]}
        for x in extra:
            d[x] = [S("other") for _ in rows]
        for k in cols:
            d[COLS[k]] = [S(kw[k]) if k in kw else None for _, _, kw in rows]
        return d
    full = [("A", 10, {"Range": "r0", "Doppler": "d0", "Azimuth": "a0", "Elevation": "e0"}), ("B", 20, {"Range": "r1", "Doppler": "d1", "Azimuth": "a1", "Elevation": "e1"})]
    only = lambda rows, *ks: [(t, e, {k: v for k, v in kw.items() if k in ks}) for t, e, kw in rows]
    mixed = [("A", 10, {"Range": "r0", "Doppler": "d0"}), ("A", 20, {"Doppler": "d1", "Elevation": "e1"}), ("B", 30, {"Range": "r2", "Azimuth": "a2"})]
    w = lambda tag, f, rows: wanted(ck, "reader", tag, b, read(f), T, want_of(rows))
    w("all types", Parquet([batch(full, COLS)]), full)
    w("columns in another order", Parquet([dict(reversed(list(batch(full, COLS).items())))]), full)
    w("other columns", Parquet([batch(full, COLS, ("Notes", "X (km)"))]), full)
    for k in COLS:
        w("only " + k, Parquet([batch(only(full, k), [k])]), only(full, k))
    w("two types", Parquet([batch(only(full, "Range", "Azimuth"), ["Range", "Azimuth"])]), only(full, "Range", "Azimuth"))
    w("two batches", Parquet([batch(full, COLS), batch([("C", 30, {k: k[0] for k in COLS})], COLS)]), full + [("C", 30, {k: k[0] for k in COLS})])
    many = [("ABC"[i % 3], 10 * i, {k: "%s%d" % (k[0], i) for k in COLS}) for i in range(8)]
    w("three batches", Parquet([batch(many[:3], COLS), batch(many[3:6], COLS), batch(many[6:], COLS)]), many)
    w("some observables missing", Parquet([batch(mixed, COLS)]), mixed)
    bad = lambda tag, f: ck.match("errors", tag, b, is_variant(read(f), TT.RES, "Ok"), FALSE)
    lack = lambda n: Parquet([{k: v for k, v in batch(full, COLS).items() if k != n}])
    bad("no epochs", lack("Epoch (UTC)"))
    bad("no trackers", lack("Tracking device"))
    bad("no observables", Parquet([batch(full, [], ("X (km)",))]))
    bad("unreadable epoch", Parquet([batch(full + [("C", "today", full[0][2])], COLS)]))
    for k in ("file", "build", "batch"):
        bad("a %s that cannot be read" % k, Parquet([batch(full, COLS)], k))


def writer(ck):
    b, T = ck.fn("to_parquet", ARC), kinds(ck)
    ck.vocab |= {"in scale", "rows"}
    pm = lambda trk, e, **kw: (trk, e, kw)
    arcs = {"one tracker": [pm("A", 10, Range="r0", Doppler="d0"), pm("A", 20, Range="r1", Doppler="d1")], "angles": [pm("A", 10, Azimuth="a0", Elevation="e0"), pm("B", 20, Azimuth="a1", Elevation="e1")],
            "some missing": [pm("A", 10, Elevation="e0", Range="r0"), pm("B", 20, Doppler="d1"), pm("A", 30, Range="r2", Azimuth="a2")]}
    L = arcs["some missing"]
    runs = [(k, v, NONE, NONE) for k, v in arcs.items()] + [("from an epoch", L, some(num(15)), NONE), ("until an epoch", L, NONE, some(num(25))), ("between epochs", L, some(num(15)), some(num(25)))]
    for tag, l, t0, t1 in runs + [("with a step", L, "step", NONE)]:
        t0, step = (NONE, some(num(5))) if t0 == "step" else (t0, NONE)
        ms = arr(*[rec(S("m"), tracker=st_(trk), epoch=num(e), rejected=FALSE, data=chain_(*[(T[k], S(v)) for k, v in kw.items()])) for trk, e, kw in l])
        w = Parquet()
        cfg = rec(S("cfg"), start_epoch=t0, end_epoch=t1, metadata=NONE, step=step, fields=NONE)
        r = ck.ev(b, [("self", rec(S("self"), measurements=ms, moduli=NONE)), "path", ("cfg", cfg)], contract=w.contract, turns=60).ret
        k_ok = is_variant(r, TT.RES, "Ok")
        bat = w.written[0] if len(w.written) == 1 else None
        fs = cs = None
        if bat is not None and bat.args[1].op == "app" and bat.args[1].args[0] == "Schema":
            fs, cs = models.plist(bat.args[1].args[1]), models.plist(bat.args[2])
        if w.undecided or k_ok not in (TRUE, FALSE) or fs is None or cs is None or any(x.op != "app" or x.args[0] != "Field" or text(x.args[1]) is None for _, x in fs) or any(x.op != "app" or x.args[0] != "rows" for _, x in cs):
            ck.undecided("writer", tag, "the columns are not followed: " + show(bat if bat is not None else r)[:200])
            continue
        say = lambda cond, what, msg: ck.expect(cond, "writer", "%s: %s" % (tag, what), b.where(), msg)
        say(k_ok is TRUE, "succeeds", "returns " + show(r)[:80])
        ck.match("writer", tag + ": returns the path", b, field(r, "0", "Ok"), S("the path"))
        names, cols = [text(x.args[1]) for _, x in fs], [x.args[1:] for _, x in cs]
        lo, hi = (15 if t0 is not NONE else None), (25 if t1 is not NONE else None)
        # the end of a selection is exclusive
        kept = [m for m in l if (lo is None or m[1] >= lo) and (hi is None or m[1] < hi)]
        say(len(names) == len(cols) and len(set(names)) == len(names), "one column per field", "%d fields and %d columns" % (len(names), len(cols)))
        n = len(cols[0]) if cols else 0
        say(n == len(kept) and all(len(x) == n for x in cols), "rows", "the columns have %s rows instead of %d" % ([len(x) for x in cols], len(kept)))
        file = dict(zip(names, cols))
        have = {k for _, _, kw in l for k in kw}
        say({"Epoch (UTC)", "Tracking device"} <= set(names) and {COLS[k] for k in have} <= set(names), "columns", "the columns are %s" % names)
        for i, (trk, e, kw) in enumerate(kept[:n]):
            at = lambda c: file[c][i] if c in file and i < len(file[c]) else S("nothing")
            ck.match("writer", "%s: epoch %d" % (tag, i), b, at("Epoch (UTC)"), st_("@%d" % e))
            ck.match("writer", "%s: tracker %d" % (tag, i), b, at("Tracking device"), st_(trk))
            for k in COLS:
                if COLS[k] in file:
                    ck.match("writer", "%s: %s of %d" % (tag, k, i), b, at(COLS[k]), S(kw[k]) if k in kw else S(NULL))
        if len({len(x) for x in cols}) == 1:
            rd = Parquet([{c: [None if x is S(NULL) else x for x in xs] for c, xs in file.items()}])
            r = ck.ev(ck.fn("from_parquet", ARC), ["path"], contract=rd.contract, turns=60).ret
            wanted(ck, "round trip", tag, b, r, T, want_of(kept[:n]))
    r = ck.ev(b, [("self", rec(S("self"), measurements=arr(), moduli=NONE)), "path", ("cfg", S("cfg"))], contract=Parquet().contract).ret
    ck.match("errors", "an empty arc is not written", b, is_variant(r, TT.RES, "Ok"), FALSE)


RULES = [("reader", reader), ("writer", writer)]
