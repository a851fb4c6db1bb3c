"""C11: in-memory edits agree with definitions built from scratch; comparison and application of operations agree with the server."""
from mv import gen, histories, model as M, objects, render, server, tool, valid, world

PROPERTY = "C11"
LEVEL = "exploration"
CASES = {"quick": 6000, "thorough": 90000}
RULE = ("one evaluation = one comparison: the state after one applied operation against the server model after the same statement, two definitions compared after all "
        "operations, all answers of an edited database against those of one built from scratch, or the state around a refused edit; "
        "non-trivial = at least one edit or operation was applied; distinct = different sequence of edits or operations")
ASSUMPTIONS = [
    "the server is the model in lib/mv/server.py",
    "equivalences of definitions are those of C01 (display width, options, charset or collation named on one side only, index that differs only by carrying a constraint's name)",
]
MINIMUM = {"quick": {"edits": 6000, "operations": 4000, "refused": 4000, "compared_to_fresh": 4000, "laws": 1200}, "thorough": {"edits": 100000}}

SESSION = {"fk_checks": False, "autocommit": True}


def source_of(c, s, label, charsets=True):
    """A database of the tool that declares s."""
    rng = c.rng
    how = rng.choice(["objects", "text", "live"])
    c.seen("sources", (label, how))
    if how == "objects":
        return objects.database(s, native=rng.random() < 0.2), how
    if how == "text":
        stm = render.schema_sql(s, rng, rng.choice([0, 1]), {"synonyms": False, "widths": False}) if rng.random() < 0.5 else render.schema_sql(s)
        return tool.read("\n".join(stm)), how
    srv = tool.live(s, rng.choice(world.FLAVOURS), {})
    return tool.read_live(srv), how


def flat(ops):
    """The single operations of what Table.to() gives."""
    if isinstance(ops, dict):
        xs = [ops[k] for k in ("removed_fks", "kitchen_sink", "fks") if k in ops]
    else:
        xs = list(ops)
    return xs, [o for x in xs for o in x]


def law(c, s_have, s_want, ctx):
    """Applying the differences of two tables leaves no difference."""
    rng = c.rng
    A, ha = source_of(c, s_have, "from")
    B, hb = source_of(c, s_want, "to")
    for n in sorted(set(A.tables) & set(B.tables)):
        a, b = A.tables[n], B.tables[n]
        split = rng.random() < 0.5
        before = snap_table(b), snap_table(a)
        ops, single = flat(a.to(b, split))
        c.evals += 1
        c.count("laws")
        if (snap_table(b), snap_table(a)) != before:
            c.violation("comparing %s changed one of the two definitions" % n, **ctx)
            return False
        d = dict(ctx, operations=[str(o) for o in ops], how=(ha, hb, split))
        for o in single:
            try:
                if rng.random() < 0.5:
                    a.apply_operation(o)
                else:
                    A.apply_operation(n, o)
            except Exception as e:
                c.violation("%s can not be applied to %s: %r" % (o, n, e), **d)
                return False
            c.count("operations")
        if single:
            c.nontrivial = True
            c.fingerprint.add(world.digest(*[str(o) for o in ops]))
        for x, y, l in ((a, b, "from here to there"), (b, a, "from there to here")):
            left = [str(o) for o in flat(x.to(y, rng.random() < 0.5))[0]]
            if left:
                c.violation("after applying the differences of %s there are still some %s: %s" % (n, l, left), **d)
                return False
        left = M.diff_tables(tool.table_of(a), s_want.tables[n], fk_names(s_have, s_want), order=world.kept_order(s_have, s_want)(n))
        if left:
            c.violation("after applying the differences of %s it is not the declared table: %s" % (n, left[:3]), **d)
            return False
        if snap_table(b) != before[0]:
            c.violation("applying the differences of %s changed the table it was compared with" % n, **d)
            return False
    return True


def fk_names(*s):
    return world.fk_names(*s)


def plan_in_memory(c, s_have, s_want, ctx):
    """Every operation of a plan, applied in memory and executed by the server."""
    rng = c.rng
    flavour = rng.choice(world.FLAVOURS)
    srv = server.Server(flavour)
    for t in s_have.tables.values():
        t = t.copy()
        t.options = []
        srv.execute(render.create(t), dict(SESSION))
    src = rng.choice(["objects", "text", "live"])
    if src == "live":
        have = tool.read_live(srv.clone())
    elif src == "text":
        have = tool.read("\n".join(render.schema_sql(s_have)))
    else:
        have = objects.database(s_have)
    want = tool.read("\n".join(render.schema_sql(s_want)))
    m = tool.Mygration(want, have, rng.random() < 0.5)
    if m.operations is None:
        return True
    names = fk_names(s_have, s_want)
    done = []
    d = dict(ctx, plan=[str(o) for o in m.operations], flavour=flavour, source=src)
    session = dict(SESSION)
    for o in m.operations:
        sql = str(o)
        done.append(sql)
        try:
            srv.execute(sql, session)
        except server.Rejected:
            c.count("plans_refused_by_server")  # C03 decides about these
            return True
        if sql.startswith("SET "):
            continue
        c.evals += 1
        try:
            if sql.startswith("CREATE TABLE"):
                have.add_table(tool.read(sql).tables[o.table_name] if rng.random() < 0.5 else want.tables[o.table_name])
            elif sql.startswith("DROP TABLE"):
                have.remove_table(have.tables[o.table_name])
            else:
                for x in o:
                    have.apply_operation(o.table_name, x)
                    c.count("operations")
        except Exception as e:
            c.violation("%s can not be applied in memory: %r" % (sql, e), **d)
            return False
        left = M.diff_schemas(tool.schema_of(have), srv.schema(), names, lambda n: True)
        if left:
            c.violation("after %s the definition in memory is not the one of the server: %s" % (sql, left[:3]), **d)
            return False
    c.count("plans_followed")
    if done:
        c.nontrivial = True
        c.fingerprint.add(world.digest(*done))
    left = M.diff_schemas(tool.schema_of(have), s_want, names, world.kept_order(s_have, s_want))
    if left:
        c.violation("after all operations the definition in memory is not the declared one: %s" % left[:3], **d)
        return False
    rest = tool.Mygration(want, have, False)
    if rest.operations:
        c.violation("after all operations in memory there is still a plan: %s" % [str(o) for o in rest.operations], **d)
        return False
    return True


# ---------------------------------------------------------------------------------------------
# answers


def snap_table(t):
    """All questions a table answers."""
    cols = list(t.columns)
    return {
        "name": t.name,
        "columns": [(k, str(v)) for k, v in t.columns.items()],
        "indexes": sorted((k, str(v), v.index_type, tuple(v.columns)) for k, v in t.indexes.items()),
        "constraints": sorted((k, str(v)) for k, v in t.constraints.items()),
        "primary": str(t.primary) if t.primary else None,
        "indexed": {k: (bool(t.column_is_indexed(k)), bool(t.column_is_indexed(v))) for k, v in t.columns.items()},
        "indexed_elsewhere": bool(t.column_is_indexed("no_such_column")),
        "before": {k: t.column_before(k) for k in cols},
        "schema_errors": sorted(map(str, t.schema_errors)),
        "schema_warnings": sorted(map(str, t.schema_warnings)),
        "parsing_errors": sorted(map(str, t.parsing_errors)),
        "tracking": t.tracking_rows,
        "rows": None if t.rows is None else [(k, dict(v)) for k, v in t.rows.items()],
        "sql": lines(str(t)),
        "nice": lines(t.nice()),
        "options": [(o.name, o.value) for o in t.options],
    }


def lines(sql):
    """Rendered CREATE TABLE: the columns in order, keys in any order."""
    try:
        ine, name, els, opts = server.parse_create(sql, [])
    except Exception:
        return sql
    return (name, [repr(e) for e in els if e[0] == "col"], sorted(repr(e) for e in els if e[0] != "col"), opts)


def snap(db):
    out = {n: snap_table(t) for n, t in db.tables.items()}
    for n, t in db.tables.items():
        out[n]["unfulfilled"] = sorted((k, str(v["error"]), str(v["foreign_key"])) for k, v in db.unfulfilled_fks(t).items())
    out[None] = {"tables": sorted(db.tables), "errors": sorted(map(str, db.errors)), "warnings": sorted(map(str, db.warnings))}
    return out


def first_difference(a, b):
    for n in b:
        if n not in a:
            return "table %s is missing" % n
        for k in b[n]:
            if a[n].get(k) != b[n][k]:
                return "%s of %s: %r instead of %r" % (k, n or "the database", a[n].get(k), b[n][k])
    for n in a:
        if n not in b:
            return "table %s is still there" % n
    return None


def ask_something(c, db):
    """Questions between edits, so that remembered answers exist."""
    rng = c.rng
    r = rng.random()
    if r < 0.35:
        db.errors
    elif r < 0.6:
        for t in db.tables.values():
            db.unfulfilled_fks(t)
    elif r < 0.8:
        for t in db.tables.values():
            for k in t.columns:
                t.column_is_indexed(k)
    elif r < 0.9:
        for t in db.tables.values():
            t.schema_errors, t.schema_warnings, t.primary, str(t)


def refused(c, db, s, g, ctx):
    """Edits that can not be made."""
    rng = c.rng
    tabs = list(s.tables.values())
    if not tabs:
        return True
    t = rng.choice(tabs)
    tt = db.tables[t.name]
    fam = rng.choice(histories.FAMILIES)
    tries = []

    def edit(kind, *args):
        def by_method():
            getattr(tt, kind)(*args)

        def by_operation():
            op = fam[kind](*args)
            if rng.random() < 0.5:
                tt.apply_operation(op)
            else:
                db.apply_operation(t.name, op)

        tries.append(("%s%s" % (kind, tuple(str(a) for a in args)), by_operation if kind in fam and rng.random() < 0.5 else by_method))

    missing = M.Col("no_such_column", "int")
    if t.cols:
        k = rng.choice(list(t.cols))
        edit("add_column", objects.column(g.col(k)), rng.choice([False, True, None, k, "no_such_column"]))
        edit("add_column", tt.columns[k])
    new = g.fresh_col_name(t)
    if new:
        edit("add_column", objects.column(g.col(new)), "no_such_column")
        edit("add_column", objects.column(g.col(new)), new)
    edit("remove_column", objects.column(missing))
    edit("change_column", objects.column(missing))
    i = M.Idx("no_such_index", rng.choice(["INDEX", "UNIQUE"]), tuple(list(t.cols)[:1]) or ("id",))
    edit("remove_index", objects.index(i))
    edit("change_index", objects.index(i))
    for k, v in t.idxs.items():
        if v.kind != "PRIMARY":
            edit("add_index", objects.index(M.Idx(k, "INDEX", (rng.choice(list(t.cols) or ["id"]),))))
    if "PRIMARY" not in t.idxs:
        p = objects.index(M.Idx("", "PRIMARY", tuple(list(t.cols)[:1]) or ("id",)))
        edit("remove_index", p)
        edit("change_index", p)
    else:
        edit("add_index", objects.index(M.Idx("", "PRIMARY", (rng.choice(list(t.cols) or ["id"]),))))
    f = M.FK("no_such_fk", next(iter(t.cols), "id"), t.name, next(iter(t.cols), "id"))
    edit("remove_constraint", objects.constraint(f))
    edit("change_constraint", objects.constraint(f))
    for k in t.fks:
        edit("add_constraint", objects.constraint(M.FK(k, f.col, f.ref_table, f.ref_col)))
    tries.append(("remove_column by name", lambda: tt.remove_column("no_such_column")))
    tries.append(("remove_index by name", lambda: tt.remove_index("no_such_index")))
    tries.append(("remove_constraint by name", lambda: tt.remove_constraint("no_such_fk")))
    tries.append(("add_table %s again" % t.name, lambda: db.add_table(tt if rng.random() < 0.5 else objects.table(t))))
    other = objects.table(M.Table("no_such_table", [M.Col("id", "int")]))
    tries.append(("remove_table of another", lambda: db.remove_table(other)))
    tries.append(("apply_operation to no table", lambda: db.apply_operation("no_such_table", fam["remove_column"](objects.column(missing)))))
    tries.append(("apply_operation to another table", lambda: db.apply_operation(other, fam["add_column"](objects.column(missing)))))
    tries.append(("column_before of no column", lambda: tt.column_before("no_such_column")))
    # the ones above that are legal were left out by construction
    for what, fn in rng.sample(tries, min(len(tries), 6)):
        before = snap(db)
        c.evals += 1
        c.count("refused")
        c.seen("refusals", what.split("(")[0].split(" ")[0])
        d = dict(ctx, refused=what, table=repr(t))
        try:
            fn()
        except (ValueError, KeyError):
            pass
        except Exception as e:
            c.violation("the invalid edit %s of %s fails with %r" % (what, t.name, e), **d)
            return False
        else:
            c.violation("the invalid edit %s of %s is accepted" % (what, t.name), **d)
            return False
        x = first_difference(snap(db), before)
        if x:
            c.violation("the refused edit %s of %s changed %s" % (what, t.name, x), **d)
            return False
    return True


def history(c, ctx):
    rng = c.rng
    g = gen.Gen(rng, rows=False)
    s = g.schema()
    for t in s.tables.values():
        t.rows = None
        t.options = []
    if rng.random() < 0.6:
        db, how = objects.database(s), "objects"
    else:
        db, how = tool.read("\n".join(render.schema_sql(s))), "text"
        if db.errors:
            c.violation("a valid declaration has errors: %s" % [str(e) for e in db.errors][:3], schema=[repr(t) for t in s.tables.values()])
            return
        if tool.exact_diff(tool.schema_of(db), s):
            return
    # a second database made of the same objects must not notice
    twin = None
    if rng.random() < 0.3:
        twin = objects.Database("")
        for t in db.tables.values():
            twin.add_table(objects.Table(t.name, columns=list(t.columns.values()), indexes=list(t.indexes.values()), constraints=list(t.constraints.values())))
        twin_before = snap(twin)
    h = histories.History(rng, g, s, db, breakage=rng.choice([0, 0, 0.2, 0.6]))
    log = []
    for _ in range(rng.randint(1, 12)):
        ask_something(c, db)
        what = h.step()
        if what is None:
            continue
        c.count("edits")
        log.append(what)
        d = {"history": log, "how": how, "schema": [repr(t) for t in s.tables.values()]}
        c.context = dict(d)
        if rng.random() < 0.5 and not fresh(c, db, s, d, how):
            return
        if rng.random() < 0.3 and not refused(c, db, s, g, d):
            return
    d = {"history": log, "how": how, "schema": [repr(t) for t in s.tables.values()]}
    if log:
        c.nontrivial = True
        c.fingerprint.add(world.digest(*log))
    if not fresh(c, db, s, d, how):
        return
    if not refused(c, db, s, g, d):
        return
    if twin is not None:
        c.evals += 1
        x = first_difference(snap(twin), twin_before)
        if x:
            c.violation("edits of one database changed another made of the same parts: %s" % x, **d)


# of columns that came from text some words are written in another way than in an object
WORDS = ("columns", "sql", "nice", "warnings", "schema_warnings")


def fresh(c, db, s, d, how):
    c.evals += 1
    c.count("compared_to_fresh")
    new = objects.database(s)
    a, b = snap(db), snap(new)
    if how == "text":
        for x in (a, b):
            for n in x:
                for k in WORDS:
                    x[n].pop(k, None)
                x[n]["errors"] = sorted(e.replace("'None'", "''") for e in x[n].get("errors", ()))
                if n:
                    x[n]["unfulfilled"] = [(k, e.replace("'None'", "''"), f) for k, e, f in x[n]["unfulfilled"]]
        left = tool.exact_diff(tool.schema_of(db), s)
        if left:
            c.violation("after edits the tables are %s" % left[:3], **d)
            return False
    x = first_difference(a, b)
    if x:
        c.violation("after edits, compared with the same definitions built from scratch: %s" % x, **d)
        return False
    for n in s.tables:
        ops = [str(o) for o in db.tables[n].to(new.tables[n])] + [str(o) for o in new.tables[n].to(db.tables[n])]
        if ops:
            c.violation("after edits %s differs from the same table built from scratch: %s" % (n, ops), **d)
            return False
    # the definitions that the tool holds are the ones that were asked for
    if how != "text":
        left = M.diff_schemas(tool.schema_of(db), s, (), lambda n: True)
        if left:
            c.violation("after edits the tables are %s" % left[:3], **d)
            return False
    return True


def case(c):
    rng = c.rng
    c.evals = 0
    c.fingerprint = set()
    r = rng.random()
    if r < 0.45:
        c.seen("parts", "history")
        history(c, {})
        return
    g = gen.Gen(rng, rows=False)
    s_have, s_want, log = g.pair()
    if rng.random() < 0.003:
        c.count("bulk_" + world.bulk(rng, s_have, s_want, rows=False))
    for s in (s_have, s_want):
        for t in s.tables.values():
            t.rows = None
            t.options = []
    ctx = {"have": [repr(t) for t in s_have.tables.values()], "want": [repr(t) for t in s_want.tables.values()], "edits": log}
    c.sample = {"edits": log}
    if r < 0.7:
        c.seen("parts", "law")
        law(c, s_have, s_want, ctx)
    else:
        c.seen("parts", "plan")
        plan_in_memory(c, s_have, s_want, ctx)
