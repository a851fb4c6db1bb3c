"""Scenarios shared by the checks: a live server and declared files."""
from . import gen, model as M, render, server, tool
from .harness import Skip

FLAVOURS = ("mysql57", "mysql80", "mariadb")


class Scenario:
    pass


def pick_server_style(rng):
    style = {}
    if rng.random() < 0.3:
        style["implied_charset"] = True
    elif rng.random() < 0.3:
        style["hide_charset"] = True
    if rng.random() < 0.3:
        style["mb3"] = rng.choice(["charsets", "collations"])
    return style


def hides_a_difference(have, want):
    """Whether a server that does not print charsets that equal the table's default would hide a declared difference."""
    for n, w in want.tables.items():
        h = have.tables.get(n)
        for cn, b in w.cols.items():
            a = h.cols.get(cn) if h else None
            if a is not None and a.charset and b.charset and M.norm_charset(a.charset) != M.norm_charset(b.charset):
                return True
    return False


def shuffled(rng):
    seed = rng.random()

    def order(names):
        import random

        names = list(names)
        random.Random(seed).shuffle(names)
        return names

    return order


def text_of(rng, schema, plain=0.55):
    """Declared text for a schema; mostly canonical, sometimes written in another way."""
    if rng.random() < plain:
        stm = render.schema_sql(schema)
        return stm, "plain"
    level = rng.choice([0, 1, 2])
    style = {k: True for k in ("synonyms", "widths", "default_null", "numbers", "shuffle") if rng.random() < 0.4}
    return render.schema_sql(schema, rng, level, style), "varied%d" % level


def as_files(rng, stm):
    """Statements as the sql_files argument: one string, or a list of strings in any order of tables."""
    r = rng.random()
    if r < 0.6:
        return "\n".join(stm)
    k = rng.randint(1, 3)
    parts = [[] for _ in range(k)]
    for s in stm:
        parts[rng.randrange(k)].append(s)
    return ["\n".join(p) for p in parts if p]


def bulk(rng, have, want, rows=True):
    """Adds more of one kind of thing to both sides than any round number: tables, columns, keys, foreign keys or rows."""
    size = rng.choice([65, 101, 129, 257])
    kind = rng.choice(["tables", "columns", "indexes", "foreign_keys"] + ["rows"] * 3 * rows)
    key = M.Idx("", "PRIMARY", ("id",))
    id_ = M.Col("id", "int", None, null=False)
    fate = lambda: rng.choices(["same", "new", "gone", "other"], [5, 2, 2, 2])[0]
    if kind == "tables":
        for k in range(size):
            f = fate()
            t = M.Table("bulk_%d" % k, [id_, M.Col("a", "int")], [key])
            if f != "gone":
                want.tables[t.name] = t
            if f != "new":
                have.tables[t.name] = t.copy()
                if f == "other":
                    have.tables[t.name].cols["a"] = M.Col("a", "bigint")
        return kind
    h, w = M.Table("bulk", [id_], [key]), M.Table("bulk", [id_], [key])
    have.tables["bulk"], want.tables["bulk"] = h, w
    if kind == "columns":
        for k in range(size):
            f, n = fate(), "c%d" % k
            if f != "new":
                h.cols[n] = M.Col(n, "bigint" if f == "other" else "int")
            if f != "gone":
                w.cols[n] = M.Col(n, "int")
    elif kind == "indexes":
        for t in (h, w):
            for n in ("a", "b"):
                t.cols[n] = M.Col(n, "int")
        for k in range(60):  # MySQL allows 64
            f, n = fate(), "k%d" % k
            if f != "new":
                h.idxs[n] = M.Idx(n, "INDEX", ("b", "a") if f == "other" else ("a", "b"))
            if f != "gone":
                w.idxs[n] = M.Idx(n, "INDEX", ("a", "b"))
    elif kind == "foreign_keys":
        size = min(size, 129)
        retyped = rng.random() < 0.5
        if retyped:
            h.cols["id"] = M.Col("id", "bigint", None, null=False)
        for k in range(size):
            f, n = fate(), "bulk_%d" % k
            for side, t, skip in ((have, h, "new"), (want, w, "gone")):
                if f == skip and rng.random() < 0.5:
                    continue
                c = M.Table(n, [id_, M.Col("a", t.cols["id"].type)], [key, M.Idx("a", "INDEX", ("a",))])
                if f != skip:
                    c.fks["%s_fk" % n] = M.FK("%s_fk" % n, "a", "bulk", "id", "CASCADE" if f == "other" and side is have else None)
                side.tables[n] = c
    else:
        size = rng.choice([size, 501, 1001, 1025])
        for t in (h, w):
            t.cols["n"] = M.Col("n", "varchar", ("40",), null=False)
            t.rows = []
        for k in range(1, size + 1):
            f = rng.choice(["same", "same", "same", fate()])
            if f != "new":
                h.rows.append({"id": str(k), "n": "%s %d" % ("was" if f == "other" else "is", k)})
            if f != "gone":
                w.rows.append({"id": str(k), "n": "is %d" % k})
    return kind


def build(c, kind=None, g=None, flavour=None, style=None, nedits=None, bulky=0.004, **gen_opts):
    rng = c.rng
    g = g or gen.Gen(rng, **gen_opts)
    s = Scenario()
    s.gen = g
    s.kind = kind or rng.choices(["edits", "unrelated", "create", "same", "dropall"], [70, 14, 8, 5, 3])[0]
    s.log = []
    if s.kind == "edits":
        s.have, s.want, s.log = g.pair(nedits)
    elif s.kind == "unrelated":
        # two schemas made independently over a few common table names
        names = rng.sample(gen.TABLE_NAMES, rng.randint(2, 6))
        s.want = g.schema(names=rng.sample(names, rng.randint(1, len(names))))
        s.have = g.schema(names=rng.sample(names, rng.randint(1, len(names))))
        for n, t in s.have.tables.items():
            if n in s.want.tables:
                t.rows = None
        clash_free(s.have, s.want)
        g.settle_options(s.have, s.want)
    elif s.kind == "create":
        s.have, s.want = M.Schema(), g.schema()
    elif s.kind == "dropall":
        s.have, s.want = g.schema(), g.schema(ntables=1)
        for t in s.have.tables.values():
            if t.name in s.want.tables:
                t.rows = None
        clash_free(s.have, s.want)
        g.settle_options(s.have, s.want)
    else:
        s.want = g.schema()
        s.have = s.want.copy()
    if rng.random() < bulky:
        c.count("bulk_" + bulk(rng, s.have, s.want, g.rows))
    if not gen.fk_charsets_agree(s.have, s.want):
        raise Skip("charset of a foreign key column named on one side only")
    s.flavour = flavour or rng.choice(FLAVOURS)
    s.style = pick_server_style(rng) if style is None else style
    if s.style.get("hide_charset") and hides_a_difference(s.have, s.want):
        s.style.pop("hide_charset")
    s.server = tool.live(s.have, s.flavour, s.style, table_order=shuffled(rng))
    s.stm, s.how = text_of(rng, s.want)
    s.files = as_files(rng, s.stm)
    c.seen("server_flavours", s.flavour + ("+implied_charset" if s.style.get("implied_charset") else ""))
    c.count("scenario_" + s.kind)
    for d in s.log:
        c.count("edit_" + d.split()[0])
    return s


def clash_free(have, want):
    """The same constraint name on different tables on both sides is legal but order dependent; keep them apart."""
    for t in have.tables.values():
        for f in list(t.fks.values()):
            for w in want.tables.values():
                if w.name != t.name and f.name in w.fks:
                    del t.fks[f.name]
                    break


def fk_names(*schemas):
    return [f for s in schemas for t in s.tables.values() for f in t.fks]


def kept_order(have, want):
    """Tables whose common columns already stand in the declared order."""

    def order(name):
        if name not in have.tables:
            return True
        h, w = have.tables[name], want.tables[name]
        return [x for x in h.cols if x in w.cols] == [x for x in w.cols if x in h.cols]

    return order


def rows_of(srv, name):
    return {str(r.get("id")): dict(r) for r in srv.tables[name].rows}


def id_text(c, v):
    if isinstance(v, bytes):
        v = v.decode("utf8", "replace")
    return M.row_id(c, str(v))


def expected_rows(srv_table, want):
    """Stored form of the declared rows: id -> {column: value} over the specified columns."""
    out = {}
    for r in want.rows:
        out[r["id"]] = {k: server.store(srv_table.t.cols[k], ("null",) if v is None else ("str", v)) for k, v in r.items()}
    return out


def check_rows_of(st, want):
    """Differences of the rows of one server table from the declared ones."""
    out = []
    exp = expected_rows(st, want)
    got = {id_text(st.t.cols.get("id"), r.get("id")): r for r in st.rows}
    if set(exp) != set(got) or len(got) != len(st.rows):
        return ["table %s has rows %s instead of %s" % (want.name, sorted(got), sorted(exp))]
    for rid, vals in exp.items():
        for k, v in vals.items():
            g = got[rid][k]
            if g != v or type(g) != type(v):
                out.append("table %s row %s: column %s holds %r instead of %r" % (want.name, rid, k, g, v))
    return out


def check_rows(srv, want, tables=None):
    """Differences of the tracked rows on the server from the declared ones."""
    out = []
    for n, w in want.tables.items():
        if w.rows is not None and n in srv.tables and (tables is None or n in tables):
            out += check_rows_of(srv.tables[n], w)
    return out


def context(s, **extra):
    """Data for a replay file."""
    d = {"edits": s.log, "kind": s.kind, "flavour": s.flavour, "style": s.style, "live": render.schema_sql(s.have), "declared": s.stm}
    d.update(extra)
    return d


def digest(*xs):
    return hash(tuple(str(x) for x in xs))


def options_agree(srv, want):
    """String foreign keys that take charset or collation from the table need tables with equal options; the tool
    does not manage table options of existing tables."""
    risky = False
    for t in want.tables.values():
        for f in t.fks.values():
            for tn, cn in ((t.name, f.col), (f.ref_table, f.ref_col)):
                c = want.tables[tn].cols[cn]
                if c.type in M.CHAR_TYPES and not (c.charset and c.collate):
                    risky = True
    return not risky or not any(x.options for x in list(want.tables.values()) + [st.t for st in srv.tables.values()])
