"""C05: a migration touches nothing that does not differ."""
from mv.harness import Skip
from mv import gen, model as M, render, server, tool, world

# refusals of an ALTER that only the stored rows cause
DATA = ["refused:%d" % x for x in (1062, 1138, 1264, 1265, 1292, 1366, 1406)]

PROPERTY = "C05"
LEVEL = "exploration"
CASES = {"quick": 5000, "thorough": 60000}
RULE = ("one evaluation = one apply whose accepted statements are compared, object by object and row by row, with the difference between live "
        "and declared schema; non-trivial = something was changed while something else had to be left alone; distinct = different statement list")
ASSUMPTIONS = [
    "the difference is computed on the abstract model, with the equivalences of C01/C02",
    "a foreign key may be dropped and re-created when a column at one of its ends changes its type or an index it needs is replaced",
]
MINIMUM = {"quick": {"applied": 1200, "untracked_rows_watched": 400, "row_statements": 300}, "thorough": {"applied": 8000}}


def allowed(have, want):
    """What a plan may name, per table."""
    out = {}
    for n in set(have.tables) | set(want.tables):
        h, w = have.tables.get(n), want.tables.get(n)
        if h is None or w is None:
            out[n] = "all"
            continue
        a = {"add_col": {x for x in w.cols if x not in h.cols}, "drop_col": {x for x in h.cols if x not in w.cols},
             "change": {x for x in w.cols if x in h.cols and M.cols_differ(h.cols[x], w.cols[x])}}
        fk_names = {f for s in (have, want) for t in s.tables.values() for f in t.fks}
        twins = set()  # indexes that differ only by carrying a constraint's name: not a difference, may also be renamed with it
        a["add_idx"] = {k for k, i in w.idxs.items() if k not in h.idxs or (h.idxs[k].kind, h.idxs[k].cols) != (i.kind, i.cols)}
        a["drop_idx"] = {k for k, i in h.idxs.items() if k not in w.idxs or (w.idxs[k].kind, w.idxs[k].cols) != (i.kind, i.cols)}
        a["add_fk"] = set()
        a["drop_fk"] = set()
        for k, f in h.fks.items():
            if k not in w.fks or M.norm_fk(w.fks[k]) != M.norm_fk(f):
                a["drop_fk"].add(k)
        for k, f in w.fks.items():
            if k not in h.fks or M.norm_fk(h.fks[k]) != M.norm_fk(f):
                a["add_fk"].add(k)
        for k, f in h.fks.items():
            if k in w.fks and end_changes(have, want, n, f):
                a["drop_fk"].add(k)
                a["add_fk"].add(k)
        out[n] = a
    return out


def end_changes(have, want, n, f):
    for tn, cn in ((n, f.col), (f.ref_table, f.ref_col)):
        a = have.tables[tn].cols.get(cn) if tn in have.tables else None
        b = want.tables[tn].cols.get(cn) if tn in want.tables else None
        if a is None or b is None or M.norm_col(a) != M.norm_col(b):
            return True
        ia = sorted((i.kind, i.name, i.cols) for i in have.tables[tn].idxs.values() if i.cols[0] == cn)
        ib = sorted((i.kind, i.name, i.cols) for i in want.tables[tn].idxs.values() if i.cols[0] == cn)
        if ia != ib:
            return True
    return False


def case(c):
    rng = c.rng
    g = gen.Gen(rng)
    s = world.build(c, rng.choices(["edits", "unrelated", "create", "same"], [10, 2, 1, 1])[0], g)
    have, want, srv = s.have, s.want, s.server
    # rows in tables whose rows are nobody's business
    for n, st in srv.tables.items():
        w = want.tables.get(n)
        if (w is None or w.rows is None) and not st.rows and g.trackable(have.tables[n]) and rng.random() < 0.8:
            have.tables[n].rows = None
            g.fill_rows(have.tables[n])
    g.fit_rows(have, want)
    ses = {"fk_checks": False, "autocommit": True}
    for n, t in have.tables.items():
        if not srv.tables[n].rows and t.rows:
            for q in render.inserts(t):
                srv.execute(q, ses)
    srv.commit()
    tool.reset(srv)
    ctx = world.context(s, live=render.schema_sql(have))
    before = {n: [dict(r) for r in st.rows] for n, st in srv.tables.items()}
    before_next = {n: st.next_auto for n, st in srv.tables.items()}
    live = srv.schema().copy()
    r = tool.run("apply", srv, s.files)
    if r.exc is not None and r.log and r.log[-1][2] in DATA and r.log[-1][0] == "ddl":
        raise Skip("the live rows do not fit the declared columns or keys")
    if r.exc is not None or not r.ok:
        c.violation("apply fails: %r %s" % (r.exc, r.err), sent=r.sent, **ctx)
        return
    c.count("applied")
    ctx["sent"] = r.sent
    ok = allowed(live, want)
    tracked = {n for n, w in want.tables.items() if w.rows is not None}
    # reading
    for x in r.log:
        if x[0] == "read" and x[1].strip().lower().startswith("select"):
            name = x[1].split()[-1].strip("`;")
            c.count("row_reads")
            if name not in tracked:
                c.violation("rows of %s are read although the files declare none" % name, **ctx)
    # structure
    left = 0
    for a in srv.actions:
        if a[0] == "alter":
            al = ok.get(a[1])
            c.count("alter_statements")
            for x in a[2]:
                name = x[1] if x[0] in ("drop_col", "drop_idx", "drop_fk") else (x[2].name if x[0] == "change" else (x[1].name if x[0] != "add_idx" else (x[1].name or "PRIMARY")))
                if x[0] == "add_idx" and x[1].kind == "PRIMARY":
                    name = "PRIMARY"
                if x[0] == "change" and x[1] != x[2].name:
                    c.violation("column %s.%s is renamed" % (a[1], x[1]), **ctx)
                c.count("actions_" + x[0])
                if al is None:
                    c.violation("%s on unknown table %s" % (x[0], a[1]), **ctx)
                elif al != "all" and name not in al[x[0]]:
                    c.violation("%s of %s.%s, which does not differ" % (x[0], a[1], name), **ctx)
        elif a[0] == "create":
            if a[1] in live.tables:
                c.violation("existing table %s is created again" % a[1], **ctx)
        elif a[0] == "drop":
            if a[1] in want.tables:
                c.violation("declared table %s is dropped" % a[1], **ctx)
        elif a[0] in ("insert", "update", "delete"):
            c.count("row_statements")
            if a[1] not in tracked:
                c.violation("%s on %s, which has no declared rows" % (a[0], a[1]), **ctx)
    for n, al in ok.items():
        if al != "all" and not any(al.values()):
            left += 1
    c.count("tables_left_alone", left)
    # rows
    for n, w in want.tables.items():
        st = srv.tables.get(n)
        if st is None:
            continue
        old = before.get(n, [])
        if w.rows is None:
            c.count("untracked_rows_watched", len(old))
            if n in before:
                same_rows(c, n, live.tables[n], w, old, st.rows, ctx)
            elif st.rows:
                c.violation("new table %s without declared rows has rows" % n, **ctx)
            continue
        acts = [a for a in srv.actions if a[0] in ("insert", "update", "delete") and a[1] == n]
        tracked_rows(c, n, live.tables.get(n), w, old, st, acts, ctx)
    for n in before:
        if n not in srv.tables and n in want.tables:
            c.violation("table %s is gone" % n, **ctx)
    if r.writes:
        c.nontrivial = left > 0 or any(before.values())
        c.fingerprint = world.digest(*r.writes)
        c.sample = {"edits": s.log, "sent": r.sent}


def unchanged_cols(h, w):
    return [k for k in h.cols if k in w.cols and not M.cols_differ(h.cols[k], w.cols[k])]


def same_rows(c, n, h, w, old, new, ctx):
    if len(old) != len(new):
        c.violation("table %s had %d rows and has %d, without declared rows" % (n, len(old), len(new)), **ctx)
        return
    keep = unchanged_cols(h, w)
    c.count("surviving_values", len(keep) * len(old))
    for a, b in zip(old, new):
        for k in keep:
            if a[k] != b.get(k) or type(a[k]) != type(b.get(k)):
                c.violation("table %s: value %r of the unchanged column %s became %r" % (n, a[k], k, b.get(k)), **ctx)
                return


def tracked_rows(c, n, h, w, old, st, acts, ctx):
    exp = world.expected_rows(st, w)
    live = {str(r["id"]): r for r in old} if h is not None and "id" in h.cols else {}
    new = {str(r["id"]): r for r in st.rows}
    ins = [str(r["id"]) for a in acts if a[0] == "insert" for r in a[3]]
    dele = [str(r["id"]) for a in acts if a[0] == "delete" for r in a[2]]
    upd = {}
    for a in acts:
        if a[0] == "update":
            if len(a[3]) != 1:
                c.violation("an UPDATE of %s hits %d rows" % (n, len(a[3])), **ctx)
            for r in a[3]:
                upd.setdefault(str(r["id"]), []).append(a[2])
    missing, extra = sorted(set(exp) - set(live)), sorted(set(live) - set(exp))
    c.count("rows_to_insert", len(missing))
    c.count("rows_to_delete", len(extra))
    if sorted(ins) != missing:
        c.violation("table %s: rows %s inserted instead of %s" % (n, sorted(ins), missing), **ctx)
    if sorted(dele) != extra:
        c.violation("table %s: rows %s deleted instead of %s" % (n, sorted(dele), extra), **ctx)
    # rows on both sides: updated exactly when a declared value differs from what is stored
    must, may = set(), set()
    for rid in set(exp) & set(live):
        for k, v in exp[rid].items():
            if k not in h.cols:
                must_or_may = not _same_as_default(st.t.cols[k], v)
                (must if must_or_may else may).add(rid)
            elif M.cols_differ(h.cols[k], w.cols[k]):
                may.add(rid)
                if live[rid][k] is None and v is not None:
                    must.add(rid)
            elif live[rid][k] != v:
                must.add(rid)
    c.count("rows_to_update", len(must))
    done = set(upd)
    if not must <= done:
        c.violation("table %s: rows %s differ but are not updated" % (n, sorted(must - done)), **ctx)
    if not done <= must | may:
        c.violation("table %s: rows %s are updated although they do not differ" % (n, sorted(done - must - may)), **ctx)
    for rid, v in upd.items():
        if len(v) != 1:
            c.violation("table %s: row %s is updated %d times" % (n, rid, len(v)), **ctx)
    # what is stored in the end
    d = world.check_rows_of(st, w)
    if d:
        c.violation("; ".join(d[:3]), **ctx)
    keep = unchanged_cols(h, w) if h is not None else []
    for rid in set(exp) & set(live):
        for k in keep:
            if k not in exp[rid] and live[rid][k] != new[rid][k]:
                c.violation("table %s row %s: the undeclared value of %s changed from %r to %r" % (n, rid, k, live[rid][k], new[rid][k]), **ctx)
                return
            c.count("undeclared_values_kept")


def _same_as_default(col, v):
    try:
        return server.default_value(col) == v
    except server.Rejected:
        return False
