"""C03: every planned statement is accepted by the server, in plan order; foreign key checks bracket the changes."""
from mv import gen, model as M, render, server, tool, world

PROPERTY = "C03"
LEVEL = "exploration"
CASES = {"quick": 5000, "thorough": 60000}
RULE = ("one evaluation = one plan executed statement by statement on the server with the acceptance rules and the foreign key monitor on; "
        "non-trivial = at least one structural statement; distinct = different list of statements")
ASSUMPTIONS = [
    "acceptance rules are those of lib/mv/server.py (syntax, duplicates, missing objects, foreign key pairs and their indexes, "
    "unique values, NOT NULL), which are the rules MySQL enforces even with FOREIGN_KEY_CHECKS=0",
    "table and column names are not reserved words (known findings reserved-*)",
]
MINIMUM = {"quick": {"statements": 4000, "foreign_key_pairs_checked": 10000, "plans_with_fk_statements": 400}, "thorough": {"statements": 30000}}
FK_EDITS = ["add_fk", "drop_fk", "change_fk", "rename_fk", "fk_type", "fk_type", "drop_idx", "drop_col", "drop_table", "add_table", "change_idx", "rename_idx", "pk"]


def monitor(c, ctx, state):
    def watch(srv, sql, exc):
        k = server.kind_of(sql)
        if exc is not None:
            return
        c.count("statements_sent")
        if k == "set":
            state["sets"].append((sql, state["changes"]))
        if k in ("ddl", "dml"):
            state["changes"] += 1
            c.count("statements")
            if not state["sets"]:
                state["bare"].append(sql)
        if k == "ddl":
            # the whole database must be consistent after any statement
            for t, f in srv.all_fks():
                p = srv.tables.get(f.ref_table)
                c.count("foreign_key_pairs_checked")
                if f.col not in t.cols or not t.indexed(f.col):
                    state["bad"].append((sql, "foreign key %s has no column or index" % f.name))
                elif p is None:
                    continue  # a parent created later in the plan
                elif f.ref_col not in p.t.cols or not p.t.indexed(f.ref_col):
                    state["bad"].append((sql, "foreign key %s refers to no indexed column" % f.name))
                elif srv.fk_family(t, t.cols[f.col]) != srv.fk_family(p.t, p.t.cols[f.ref_col]):
                    state["bad"].append((sql, "foreign key %s connects different types" % f.name))

    return watch


def case(c):
    rng = c.rng
    g = gen.Gen(rng)
    r = rng.random()
    if r < 0.5:
        # many foreign keys, edits around them
        g.EDITS = FK_EDITS
        g.rows = rng.random() < 0.4
        n = rng.randint(3, 8)
        old = g.schema
        g.schema = lambda *a, **k: old(ntables=rng.randint(2, 5), nfks=n)
        s = world.build(c, "edits", g, nedits=rng.randint(2, 8))
    else:
        s = world.build(c, rng.choices(["edits", "unrelated", "create", "dropall"], [5, 4, 1, 1])[0], g)
    ctx = world.context(s)
    state = {"sets": [], "changes": 0, "bare": [], "bad": []}
    srv = s.server
    conn = server.Connection(srv)
    srv.monitor = monitor(c, ctx, state)
    run = tool.run("apply", srv, s.files, connection=conn)
    srv.monitor = None
    if run.exc is not None:
        refused = [x for x in run.log if x[2].startswith("refused")]
        c.violation("the server refuses %r: %r" % (refused[:1], run.exc), sent=run.sent, **ctx)
        return
    if not run.ok:
        c.violation("apply of a valid declaration was refused: %s" % run.err, **ctx)
        return
    if state["bad"]:
        c.violation("after %r: %s" % state["bad"][0], sent=run.sent, **ctx)
    seq = [x for x in run.log if x[0] != "read"]
    changes = [i for i, x in enumerate(seq) if x[0] in ("ddl", "dml")]
    if changes:
        off = [i for i, x in enumerate(seq) if x[0] == "set" and _sets(x[1]) is False]
        on = [i for i, x in enumerate(seq) if x[0] == "set" and _sets(x[1]) is True]
        if not off or off[0] > changes[0]:
            c.violation("foreign key checks are not off before the first change", sent=run.sent, **ctx)
        elif [i for i in on if i < changes[-1]] and not [i for i in off if i > [i for i in on if i < changes[-1]][-1]]:
            c.violation("foreign key checks are on before the last change", sent=run.sent, **ctx)
        elif not on or on[-1] < changes[-1]:
            c.violation("foreign key checks are not switched on again after the last change", sent=run.sent, **ctx)
    if not conn.session["fk_checks"]:
        c.violation("the session ends with foreign key checks off", sent=run.sent, **ctx)
    for n in srv.notes:
        if "late_charset" in str(n):
            c.violation("a statement names the charset after NOT NULL or DEFAULT, which MySQL refuses", key="late-charset", sent=run.sent, **ctx)
            c.count("late_charset_statements")
            break
    # nothing dangling at the end
    for t, f in srv.all_fks():
        if f.ref_table not in srv.tables:
            c.violation("foreign key %s is left referring to a missing table" % f.name, sent=run.sent, **ctx)
    if run.writes:
        c.nontrivial = True
        c.fingerprint = world.digest(*run.writes)
        c.sample = {"edits": s.log, "sent": run.sent[-6:]}
        if any("FOREIGN KEY" in w.upper() for w in run.writes):
            c.count("plans_with_fk_statements")
        for a in srv.actions:
            c.seen("statement_kinds", (a[0],) + (tuple(sorted({x[0] for x in a[2]})) if a[0] == "alter" else ()))


def _sets(sql):
    s = sql.lower().replace(" ", "").rstrip(";")
    if "foreign_key_checks" not in s:
        return None
    return s.endswith("=1") or s.endswith("=on")


def late_charset():
    srv = server.Server("mysql80")
    tool.run("apply", srv, "CREATE TABLE t (id INT NOT NULL, n VARCHAR(5) CHARACTER SET utf8 NOT NULL DEFAULT 'a', PRIMARY KEY (id));")
    return any("late_charset" in str(n) for n in srv.notes)


def _refused(have, want):
    srv = server.Server("mysql80")
    ses = {"fk_checks": True, "autocommit": True}
    for q in have:
        srv.execute(q, ses)
    r = tool.run("apply", srv, want)
    return r.exc is not None and "1064" in str(r.exc)


def reserved_column():
    return _refused(["CREATE TABLE t (id INT NOT NULL, `key` INT, PRIMARY KEY (id))"], "CREATE TABLE t (id INT NOT NULL, PRIMARY KEY (id));")


def reserved_table():
    return _refused(["CREATE TABLE `order` (id INT NOT NULL, PRIMARY KEY (id))"], "CREATE TABLE t (id INT NOT NULL, PRIMARY KEY (id));")


def swap_unique():
    srv = server.Server("mysql80")
    t = "CREATE TABLE t (id INT NOT NULL, n VARCHAR(5), PRIMARY KEY (id), UNIQUE KEY n (n));"
    tool.run("apply", srv, t + "INSERT INTO t (id,n) VALUES (1,'a'),(2,'b');")
    r = tool.run("apply", srv, t + "INSERT INTO t (id,n) VALUES (1,'b'),(2,'a');")
    return r.exc is not None and "1062" in str(r.exc)


FINDINGS = {"late-charset": late_charset, "reserved-column": reserved_column, "reserved-table": reserved_table, "swap-unique": swap_unique}
