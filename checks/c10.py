"""C10: a rendered CREATE TABLE (and the fragments of ALTER statements) mean the same as the definition."""
import importlib

from mv import gen, histories, model as M, objects, render, server, tool, world

PROPERTY = "C10"
LEVEL = "exploration"
CASES = {"quick": 8000, "thorough": 150000}
RULE = ("one evaluation = one rendered statement (compact or multi-line CREATE TABLE, ALTER TABLE of column, index and constraint fragments) parsed by an independent "
        "MySQL parser, executed by the server model and read back by the tool; non-trivial = the table has a default, charset, value list, key or foreign key; "
        "distinct = different rendered text")
ASSUMPTIONS = [
    "SQL validity and meaning are judged by the parser and server model in lib/mv (MySQL 5.7, 8.0 and MariaDB)",
    "CHARACTER SET after NOT NULL/DEFAULT is tolerated there as known finding late-charset",
    "an explicit DEFAULT NULL on a nullable column means the same as no default",
]
MINIMUM = {"quick": {"creates": 8000, "fragments": 12000, "read_back": 8000}, "thorough": {"creates": 150000}}

A = importlib.import_module("mygrations.formats.mysql.mygrations.operations.alter_table").AlterTable
B = importlib.import_module("mygrations.core.operations.alter_table").AlterTable


def numeric(c):
    """A number given to a text column is stored as its text."""
    if c.default and c.default[0] == "num" and c.type not in M.NUMERIC_TYPES + ("year",):
        return c.copy(default=("str", server._numtext(c.default[1])))
    if c.type == "year" and c.default and c.default[0] != "null":
        return c.copy(default=("str", c.default[1]))
    return c


def strict(t):
    """All a declaration says."""
    cols = []
    for c in t.cols.values():
        c = numeric(c)
        args = None
        if c.type in M.INT_TYPES + ("year",) and c.type != "tinyint":  # BOOL is TINYINT(1)
            args = tuple(str(int(x)) for x in c.args) if c.args else None
        cols.append(M.norm_col(c) + (args,))
    return {
        "columns": cols,
        "indexes": sorted((i.kind, i.name, tuple(i.cols)) for i in t.idxs.values()),
        "foreign keys": sorted((f.name,) + M.norm_fk(f) for f in t.fks.values()),
        "options": [(k.upper(), str(v).lower()) for k, v in t.options],
    }


def declared(sql, notes):
    """What an independent parser reads."""
    ine, name, els, opts = server.parse_create(sql, notes)
    t = M.Table(name)
    t.options = opts
    for e in els:
        if e[0] == "col":
            assert e[1].name not in t.cols, "column twice"
            t.cols[e[1].name] = e[1]
            if e[2]["pk"]:
                t.idxs["PRIMARY"] = M.Idx("", "PRIMARY", (e[1].name,))
            if e[2]["unique"]:
                raise server.Rejected(0, "unexpected UNIQUE of a column")
    for e in els:
        if e[0] == "idx":
            n = "PRIMARY" if e[1].kind == "PRIMARY" else e[1].name
            if n in t.idxs:
                raise server.Rejected(1061, "key %s twice" % n)
            t.idxs[n] = e[1]
        elif e[0] == "fk":
            if e[1].name in t.fks:
                raise server.Rejected(1826, "foreign key %s twice" % e[1].name)
            t.fks[e[1].name] = e[1]
    for n in t.primary.cols if t.primary else ():
        if n in t.cols:
            t.cols[n].null = False
    return t


def different(a, b, options=True):
    a, b = strict(a), strict(b)
    for k in a:
        if k == "options" and not options:
            continue
        if a[k] != b[k]:
            x = [i for i in a[k] if i not in b[k]]
            y = [i for i in b[k] if i not in a[k]]
            return "%s: %r instead of %r" % (k, x or a[k], y or b[k])
    return None


def late(c, notes, **data):
    for n in notes:
        if "late_charset" in str(n):
            c.violation("the charset is named after NOT NULL or DEFAULT, which MySQL refuses", key="late-charset", **data)
            c.count("late_charset_statements")
            return


def look(c, tt, want, ctx, label):
    """One table object of the tool against what it should declare."""
    for form, sql in (("compact", str(tt)), ("nice", tt.nice()), ("operation", str(tt.create()))):
        c.evals += 1
        c.count("creates")
        d = dict(ctx, rendered=sql, source=label, form=form)
        c.context = {"rendered": sql, "source": label}
        notes = []
        try:
            got = declared(sql, notes)
        except Exception as e:
            c.violation("%s: the %s rendering is not a CREATE TABLE statement: %r" % (label, form, e), **d)
            return False
        late(c, notes, **d)
        if got.name != want.name:
            c.violation("%s: the %s rendering creates %s instead of %s" % (label, form, got.name, want.name), **d)
            return False
        x = different(got, want)
        if x:
            c.violation("%s: the %s rendering of %s declares %s" % (label, form, want.name, x), **d)
            return False
        if want.idxs or want.fks or any(y.default or y.values or y.charset or y.collate for y in want.cols.values()):
            c.nontrivial = True
            c.fingerprint.add(world.digest(sql))
        for y in want.cols.values():
            c.seen("column_kinds", (y.type, bool(y.args), y.unsigned, y.null, y.default[0] if y.default else None, bool(y.charset), bool(y.collate), y.auto))
        # and back
        db = tool.read(sql)
        c.count("read_back")
        if list(db.tables) != [want.name]:
            c.violation("%s: reading the %s rendering of %s gives the tables %s" % (label, form, want.name, list(db.tables)), **d)
            return False
        t2 = db.tables[want.name]
        bad = list(db.global_errors) + list(t2.parsing_errors)
        if bad:
            c.violation("%s: reading the %s rendering of %s gives errors %s" % (label, form, want.name, bad[:3]), **d)
            return False
        ops = [str(o) for o in tt.to(t2)] + [str(o) for o in t2.to(tt)]
        if ops:
            c.violation("%s: the %s rendering of %s read back differs: %s" % (label, form, want.name, ops), **d)
            return False
        x = different(tool.table_of(t2), want, options=False)
        if x:
            c.violation("%s: reading the %s rendering of %s gives %s" % (label, form, want.name, x), **d)
            return False
        opts = [(o.name.upper().replace("DEFAULT ", ""), o.value.lower()) for o in t2.options]
        if opts != [(k.upper(), v.lower()) for k, v in want.options]:
            c.violation("%s: reading the %s rendering of %s gives the options %s instead of %s" % (label, form, want.name, opts, want.options), **d)
            return False
    return True


SESSION = {"fk_checks": False, "autocommit": True}


def run(srv, sql, c, d):
    del srv.notes[:]
    try:
        srv.execute(sql, dict(SESSION))
    except server.Rejected as e:
        c.violation("the server refuses a rendered statement: %s (%s)" % (sql[:300], e), **d)
        return False
    late(c, srv.notes, **d)
    return True


def fragments(c, tabs, s, ctx):
    """The same definitions as parts of ALTER statements."""
    rng = c.rng
    flavour = rng.choice(world.FLAVOURS)
    ref = server.Server(flavour)
    for t in s.tables.values():
        t = t.copy()
        t.options = []
        ref.execute(render.create(t), dict(SESSION))
    srv = server.Server(flavour)
    fam = rng.choice(histories.FAMILIES)
    alter = A if fam is histories.FAMILIES[0] else B
    d = dict(ctx, flavour=flavour)
    mode = rng.choice(["add", "change"])
    c.seen("fragment_modes", (mode, histories.FAMILIES.index(fam)))
    for t in s.tables.values():
        if mode == "add":
            ok = run(srv, "CREATE TABLE `%s` (`zz_first` INT)" % t.name, c, d)
        else:
            ok = run(srv, "CREATE TABLE `%s` (%s)" % (t.name, ", ".join("`%s` GEOMETRY_X" % n if False else "`%s` DATE" % n for n in t.cols)), c, d)
    for n, t in s.tables.items():
        tt = tabs[n]
        a = alter(n)
        if mode == "add":
            prev = True
            names = list(tt.columns)
            # in order after each other, or backwards each in front
            if rng.random() < 0.5:
                for k in names:
                    a.add_operation(fam["add_column"](tt.columns[k], prev))
                    prev = k
            elif rng.random() < 0.5:
                for k in reversed(names):
                    a.add_operation(fam["add_column"](tt.columns[k], True))
            else:
                for k in names:
                    a.add_operation(fam["add_column"](tt.columns[k], rng.choice([False, None])))
            a.add_operation(fam["remove_column"](objects.column(M.Col("zz_first", "int"))))
        else:
            for k in tt.columns:
                a.add_operation(fam["change_column"](tt.columns[k]))
        for k in tt.indexes:
            a.add_operation(fam["add_index"](tt.indexes[k]))
        c.count("fragments", len(list(a)))
        c.evals += 1
        if not run(srv, str(a), c, dict(d, rendered=str(a))):
            return False
        again = [k for k in tt.indexes if rng.random() < 0.3 and not any(x.auto for x in t.cols.values())]
        if again:
            a = alter(n)
            for k in again:
                a.add_operation(fam["change_index"](tt.indexes[k]))
            c.count("fragments", len(again))
            if not run(srv, str(a), c, dict(d, rendered=str(a))):
                return False
    for n, t in s.tables.items():
        tt = tabs[n]
        if tt.constraints:
            a = alter(n)
            for k in tt.constraints:
                a.add_operation(fam["add_constraint"](tt.constraints[k]))
            c.count("fragments", len(tt.constraints))
            c.evals += 1
            if not run(srv, str(a), c, dict(d, rendered=str(a))):
                return False
    for n in s.tables:
        x = different(srv.tables[n].t, ref.tables[n].t, options=False)
        if x:
            c.violation("the fragments of %s declare %s" % (n, x), **dict(d, log=[str(y) for y in srv.log[-6:]]))
            return False
    return True


def case(c):
    rng = c.rng
    c.evals = 0
    c.fingerprint = set()
    g = gen.Gen(rng, rows=False)
    s = g.schema()
    for t in s.tables.values():
        t.rows = None
    if rng.random() < 0.003:
        c.count("bulk_" + world.bulk(rng, M.Schema(), s, rows=False))
    if rng.random() < 0.1:
        # a length of zero is a length
        for t in s.tables.values():
            keys = {x for i in t.idxs.values() for x in i.cols}
            for x in t.cols.values():
                if x.type in ("varchar", "char", "varbinary", "binary") and x.name not in keys and not g.used_in_fk(s, t.name, x.name):
                    x.args, x.default = ("0",), None
    ctx = {"schema": [repr(t) for t in s.tables.values()]}
    source = rng.choice(["objects", "text", "text", "server"])
    c.seen("sources", source)
    if source == "objects":
        db = objects.database(s, native=rng.random() < 0.3)
        want = s.copy()
    elif source == "text":
        st = {k: True for k in ("synonyms", "default_null", "numbers", "shuffle") if rng.random() < 0.5}
        st["widths"] = False
        stm = render.schema_sql(s, rng, rng.choice([0, 1, 2]), st) if rng.random() < 0.8 else render.schema_sql(s)
        ctx["text"] = stm
        db = tool.read("\n".join(stm))
        want = s
        if db.errors:
            c.violation("a valid declaration has errors: %s" % [str(x) for x in db.errors][:3], **ctx)
            return
    else:
        srv = tool.live(s, rng.choice(world.FLAVOURS), world.pick_server_style(rng))
        shown = {n: srv.show_create(n) for n in srv.tables}
        ctx["shown"] = shown
        db = tool.read_live(srv)
        want = M.Schema([declared(x, []) for x in shown.values()])
    c.sample = {"source": source, "rendered": [str(t) for t in db.tables.values()][:1]}
    for n, t in want.tables.items():
        if not look(c, db.tables[n], t, ctx, source):
            return
    # all of it at once on an empty server, and what the server then prints
    if rng.random() < 0.3:
        srv = server.Server(rng.choice(world.FLAVOURS), table_order=world.shuffled(rng))
        order = list(want.tables)
        rng.shuffle(order)
        for n in order:
            if not run(srv, str(db.tables[n]) if rng.random() < 0.5 else db.tables[n].nice(), c, ctx):
                return
        fk_names = world.fk_names(want, want) if hasattr(world, "fk_names") else ()
        left = M.diff_schemas(srv.schema(), want, fk_names)
        c.count("created_on_server")
        if left:
            c.violation("a server on which the rendered tables were created differs: %s" % left[:3], **ctx)
            return
    if source != "server" and rng.random() < 0.5:
        fragments(c, db.tables, want, ctx)


def late_charset():
    t = objects.table(M.Table("t", [M.Col("a", "varchar", ("5",), null=False, default=("str", "a"), charset="utf8")]))
    notes = []
    server.parse_create(str(t), notes)
    return any("late_charset" in str(n) for n in notes)


FINDINGS = {"late-charset": late_charset}
