"""C02: a database that already is what the files declare gets an empty plan, however it prints itself."""
from mv import gen, model as M, render, server, tool, world

PROPERTY = "C02"
LEVEL = "exploration"
CASES = {"quick": 5000, "thorough": 60000}
RULE = ("one evaluation = one plan (or apply) over a server state that equals the declaration up to representation; non-trivial = the "
        "declaration has at least one default, foreign key, row, charset or enum; distinct = different declared text and different printed definitions")
ASSUMPTIONS = [
    "the printing rules are those of lib/mv/server.py for MySQL 5.7, MySQL 8.0 and MariaDB (integer widths, quoted or bare numeric defaults, "
    "implied or hidden charset/collation, DEFAULT NULL on text, current_timestamp(), NO ACTION, AUTO_INCREMENT and charset options)",
    "tracked BIT columns are excluded (known finding bit-rows)",
]
MINIMUM = {"quick": {"plans": 1500, "rows_tracked": 500}, "thorough": {"plans": 8000}}


def vary_numbers(rng, t):
    """Row values in other spellings of the same number."""
    for r in t.rows or ():
        for k, v in list(r.items()):
            c = t.cols[k]
            if v is None or k == "id":
                continue
            if c.type == "decimal" and rng.random() < 0.3:
                r[k] = v + "0" if "." in v else v + ".0"
            elif c.type in M.FLOAT_TYPES and "e" not in v.lower() and rng.random() < 0.3:
                r[k] = v + "0" if "." in v else v + ".0"


def fk_named_indexes(rng, s):
    """The server names the index it makes for a foreign key after the constraint."""
    n = 0
    for t in s.tables.values():
        for f in t.fks.values():
            i = t.idxs.get(f.col)
            if i is not None and i.kind == "INDEX" and i.cols == (f.col,) and f.name not in t.idxs and rng.random() < 0.5:
                t.idxs = {(f.name if k == f.col else k): (v.copy(name=f.name) if k == f.col else v) for k, v in t.idxs.items()}
                n += 1
    return n


def judge(c, srv, files, ctx, label, command="plan"):
    before = {n: [dict(r) for r in st.rows] for n, st in srv.tables.items()}
    r = tool.run(command, srv, files)
    c.evals += 1
    c.count("plans")
    if r.exc is not None or not r.ok:
        c.violation("%s: %s failed: %r %s" % (label, command, r.exc, r.err), **ctx)
        return False
    if r.cmds or r.writes:
        c.violation("%s: %s gives %s" % (label, command, r.cmds or r.writes), **ctx)
        return False
    if before != {n: st.rows for n, st in srv.tables.items()}:
        c.violation("%s: %s changed rows" % (label, command), **ctx)
        return False
    return True


def case(c):
    rng = c.rng
    c.evals = 0
    c.fingerprint = set()
    g = gen.Gen(rng)
    want = g.schema()
    if rng.random() < 0.004:
        c.count("bulk_" + world.bulk(rng, M.Schema(), want))
    have = want.copy()
    for t in want.tables.values():
        vary_numbers(rng, t)
    named = fk_named_indexes(rng, have) if rng.random() < 0.3 else 0
    c.count("server_named_fk_indexes", named)
    flavour = rng.choice(world.FLAVOURS)
    style = world.pick_server_style(rng)
    srv = tool.live(have, flavour, style, table_order=world.shuffled(rng))
    c.seen("server_flavours", "%s %s" % (flavour, sorted(style)))
    stm, how = world.text_of(rng, want, 0.3)
    ctx = {"flavour": flavour, "style": style, "declared": stm, "server": [srv.show_create(n) for n in srv.tables]}
    c.count("text_" + how)
    c.count("rows_tracked", sum(len(t.rows or ()) for t in want.tables.values()))
    c.count("foreign_keys", sum(len(t.fks) for t in want.tables.values()))
    c.count("columns", sum(len(t.cols) for t in want.tables.values()))
    for t in want.tables.values():
        for col in t.cols.values():
            c.seen("column_kinds", (col.type, bool(col.default), bool(col.charset or col.collate)))
    files = world.as_files(rng, stm)
    if not judge(c, srv, files, ctx, "server equal to the declaration", rng.choice(["plan", "apply"])):
        return
    # the same server read again, with the declaration written differently
    if rng.random() < 0.25:
        stm2, how2 = world.text_of(rng, want, 0.0)
        if not judge(c, srv, stm2, dict(ctx, declared=stm2), "declaration written differently"):
            return
    # what the tool's own CREATE and INSERT statements made
    if rng.random() < 0.25:
        own = server.Server(flavour, style=style, table_order=world.shuffled(rng))
        r = tool.run("apply", own, files)
        if r.exc is None and r.ok:
            tool.reset(own)
            if not judge(c, own, files, dict(ctx, server=[own.show_create(n) for n in own.tables]), "server built by apply", rng.choice(["plan", "apply"])):
                return
    if any(t.fks or t.rows or any(x.default or x.charset or x.values for x in t.cols.values()) for t in want.tables.values()):
        c.nontrivial = True
        c.fingerprint.add(world.digest(*(ctx["declared"] + ctx["server"])))
    c.sample = {"declared": stm[:1], "server": ctx["server"][:1]}


def bit_rows():
    srv = server.Server("mysql80")
    sql = "CREATE TABLE t (id INT NOT NULL, f BIT(1) DEFAULT NULL, PRIMARY KEY (id));"
    tool.run("apply", srv, sql)
    srv.execute("INSERT INTO t (id,f) VALUES (1,1)", {"fk_checks": False, "autocommit": True})
    return bool(tool.run("plan", srv, sql + "INSERT INTO t (id,f) VALUES (1,1);").cmds)


FINDINGS = {"bit-rows": bit_rows}
