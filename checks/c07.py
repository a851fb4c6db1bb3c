"""C07: what the files declare does not depend on how they are written or laid out."""
import os
import shutil
import tempfile

from mv import gen, model as M, render, server, tool, world

PROPERTY = "C07"
LEVEL = "exploration"
CASES = {"quick": 5000, "thorough": 60000}
RULE = ("one evaluation = one text or file layout of a declaration, read by the tool and compared with the declaration; non-trivial = the text "
        "differs from the plain text of the same declaration; distinct = different text")
ASSUMPTIONS = [
    "equivalent spellings are those of lib/mv/render.py (keyword case, backticks, white space, three comment styles, integer/boolean/decimal "
    "synonyms, display widths, KEY/INDEX, inline PRIMARY KEY, bare FOREIGN KEY with the derived name, optional NULL/DEFAULT NULL, quoted numbers, "
    "quoting styles of strings, order of keys, grouping and column order of INSERT)",
    "statement order: CREATE TABLE and INSERT of one table may stand in different files and in any order",
]
MINIMUM = {"quick": {"texts": 3000, "layout_dir": 150, "layout_files": 150, "comments_between_statements": 500}, "thorough": {"texts": 10000}}

SYN = {"decimal": ["NUMERIC", "DEC", "FIXED"], "int": ["INTEGER"]}
GAPS = ["\n", "", " ", "\n\n", "\r\n", "\n-- next table\n", "\n/* a; b */\n", "\n# it's here\n", "\n--\n", "\n-- CREATE TABLE no (id int);\n",
        "\n/* INSERT INTO x (a) VALUES ('b'); */", "\n/* \"open ' */\n", "\n-- `x\n", "\t", "\n/**/\n", "\n/* multi\nline * / */\n", "\n#\n", "\n-- (\n", "\n-- )\n"]
ENDS = ["", "\n", "\n-- end", "\n# end", "\n/* end */", "  ", "\r\n\r\n", "\n--"]
DIRS = ["sql", "my schema", "v1.0", "a[1]", "x*y", "q?", "d'quote", "été", "a;b", "[ab]", "-- x", "CREATE TABLE"]


def typed(rng, schema):
    """Texts for the statements of a schema in varied styles; the newline, comment and spelling choices are drawn anew for each."""
    level = rng.choice([0, 1, 2, 2])
    style = {k: True for k in ("synonyms", "widths", "default_null", "numbers", "shuffle") if rng.random() < 0.6}
    for k in ("synonyms", "widths", "default_null", "numbers", "shuffle"):
        style.setdefault(k, False)
    style["upper"] = rng.random() < 0.5
    return render.schema_sql(schema, rng, level, style), level


def join(c, rng, stm):
    out = rng.choice(["", "", "\n", "-- start\n", "/* start */", "# start\n", "\n\n", "/* CREATE TABLE a (b int); */\n"])
    for n, s in enumerate(stm):
        if n:
            g = rng.choice(GAPS) if rng.random() < 0.7 else "\n"
            if "-" in g or "#" in g or "*" in g:
                c.count("comments_between_statements")
            out += g
        out += s
    return out + rng.choice(ENDS)


def spread(c, rng, stm, root):
    """The statements over strings, files and directories."""
    kind = rng.choice(["string", "list", "files", "dir", "dirs", "mixed", "slash", "single"])
    c.count("layout_" + kind)
    stm = list(stm)
    if kind == "string":
        return join(c, rng, stm), kind
    k = rng.randint(1, 4)
    parts = [[] for _ in range(k)]
    for s in stm:
        parts[rng.randrange(k)].append(s)
    texts = [join(c, rng, p) for p in parts if p]
    if kind == "list":
        return texts, kind
    base = os.path.join(root, rng.choice(DIRS))
    os.makedirs(base, exist_ok=True)

    def put(d, n, t):
        p = os.path.join(d, "%s%d.sql" % (rng.choice(["a", "M", "z_", "1 ", "[x]", "é", "a.b"]), n))
        with open(p, "w", encoding="utf8", newline="") as f:
            f.write(t)
        return p

    if kind == "single":
        return put(base, 0, join(c, rng, stm)), kind
    if kind == "files":
        return [put(base, n, t) for n, t in enumerate(texts)], kind
    if kind in ("dir", "slash"):
        for n, t in enumerate(texts):
            put(base, n, t)
        if rng.random() < 0.5:
            with open(os.path.join(base, rng.choice(["README.md", "x.sql.bak", "notes.txt"])), "w") as f:
                f.write("CREATE TABLE stray (id int);")
        return base + ("/" if kind == "slash" else ""), kind
    out = []
    for n, t in enumerate(texts):
        if kind == "mixed" and rng.random() < 0.5:
            out.append(t if rng.random() < 0.5 else put(base, n, t))
            continue
        d = os.path.join(root, "%s%d" % (rng.choice(DIRS), n))
        os.makedirs(d, exist_ok=True)
        put(d, n, t)
        out.append(d)
    return out, kind


def read_and_compare(c, s, files, how, data, canonical=None):
    db = tool.read(files)
    c.evals += 1
    c.count("texts")
    errs = [str(e) for e in db.errors]
    if errs:
        c.violation("%s: a correct declaration is reported: %s" % (how, errs[:3]), **data)
        return None
    d = tool.exact_diff(tool.schema_of(db), s)
    if d:
        c.violation("%s: read as something else: %s" % (how, "; ".join(d[:3])), **data)
        return None
    if canonical is not None:
        for a, b in ((db, canonical), (canonical, db)):
            ops = [str(x) for x in tool.Mygration(a, b, False).operations or []] + [str(x) for x in tool.RowMygration(a, b).operations or []]
            if ops:
                c.violation("%s: differs from the plain text: %s" % (how, ops[:3]), **data)
                return None
    return db


def options_of(srv):
    return {n: sorted((k.upper(), str(v).lower()) for k, v in st.t.options) for n, st in srv.tables.items()}


def many(c):
    """More rows in one INSERT, more columns and indexes in one table, than any round number of them."""
    rng = c.rng
    c.evals = 0
    c.nontrivial = True
    id_ = M.Col("id", "int", None, unsigned=True, null=False, auto=True)
    if rng.random() < 0.7:
        n = rng.choice([999, 1000, 1001, 1024, rng.randint(1001, 1300)])
        t = M.Table("many", [id_, M.Col("name", "varchar", ("40",), null=False)], [M.Idx("", "PRIMARY", ("id",))],
                    rows=[{"id": str(k + 1), "name": rng.choice(["x", "it's", "a,b", "(1);"]) + str(k)} for k in range(n)])
        c.count("long_inserts")
        cut = rng.randint(1, n - 1)
        one = [render.create(t, rng, rng.choice([0, 1]))] + [render.text(render.insert_tokens(t, ("id", "name"), t.rows, rng), rng, 1)]
        two = [render.create(t)] + [render.text(render.insert_tokens(t, ("id", "name"), x)) for x in (t.rows[:cut], t.rows[cut:])]
    else:
        n = rng.choice([999, 1000, 1001, 1016])
        k = rng.choice([1, 2, 40, 63])
        cols = [id_] + [M.Col("c%d" % x, rng.choice(["tinyint", "int", "date"])) for x in range(n)]
        idxs = [M.Idx("", "PRIMARY", ("id",))] + [M.Idx("i%d" % x, "INDEX", ("c%d" % (x * 7),)) for x in range(k)]
        t = M.Table("many", cols, idxs)
        c.count("wide_tables")
        one, two = [render.create(t, rng, rng.choice([0, 1]))], [render.create(t)]
    s = M.Schema([t])
    first = read_and_compare(c, s, "\n".join(two), "%d rows or columns, plainly" % n, {"declared": two})
    if first is not None:
        read_and_compare(c, s, "\n".join(one), "%d rows or columns at once" % n, {"declared": two, "written": one}, first)
    c.fingerprint = {world.digest(*one)}
    c.sample = {"rows_or_columns": n}


def case(c):
    rng = c.rng
    c.evals = 0
    c.fingerprint = set()
    if rng.random() < 0.002:
        return many(c)
    g = gen.Gen(rng)
    s = g.schema(ntables=rng.choice([1, 1, 2, 3, 4]))
    for t in s.tables.values():
        if t.rows:
            hostile_rows(rng, g, t)
    plain = render.schema_sql(s)
    canonical = read_and_compare(c, s, "\n".join(plain), "plain text", {"declared": plain})
    if canonical is None:
        return
    c.count("tables", len(s.tables))
    c.count("rows", sum(len(t.rows or ()) for t in s.tables.values()))
    root = None
    try:
        for k in range(rng.randint(2, 4)):
            stm, level = typed(rng, s)
            if rng.random() < 0.5:
                rng.shuffle(stm)
                c.count("statements_shuffled")
            root = tempfile.mkdtemp(prefix="mv07")
            files, kind = spread(c, rng, stm, root)
            c.count("level_%d" % level)
            data = {"declared": plain, "written": stm, "layout": kind, "files": files}
            db = read_and_compare(c, s, files, "written differently (%s)" % kind, data, canonical)
            if db is None:
                return
            c.fingerprint.add(world.digest(*stm))
            c.nontrivial = True
            c.sample = {"declared": plain[:1], "written": stm[:1], "layout": kind}
            if rng.random() < 0.25:
                # the same through the commands: what reaches a server
                r1, r2 = server.Server("mysql80"), server.Server("mysql80")
                a, b = tool.run("apply", r1, plain), tool.run("apply", r2, files)
                c.count("applied_pairs")
                if a.exc is not None or not a.ok:
                    shutil.rmtree(root)
                    continue  # a matter of C01/C03
                if b.exc is not None or not b.ok:
                    c.violation("apply of the text written differently fails: %r %s" % (b.exc, b.err), **data)
                    return
                # literals that the server alone could read differently
                d = M.diff_schemas(r2.schema(), r1.schema(), world.fk_names(s))
                if options_of(r1) != options_of(r2):
                    d.append("options %r instead of %r" % (options_of(r2), options_of(r1)))
                for n, st in r1.tables.items():
                    if n in r2.tables and sorted(map(repr, st.rows)) != sorted(map(repr, r2.tables[n].rows)) and s.tables[n].rows is not None:
                        x = {repr(q.get("id")): q for q in st.rows}
                        y = {repr(q.get("id")): q for q in r2.tables[n].rows}
                        if x != y:
                            d.append("rows of %s: %r instead of %r" % (n, y, x))
                if d:
                    c.violation("apply of the text written differently gives: %s" % "; ".join(map(str, d[:3])), **data)
                    return
            shutil.rmtree(root)
            root = None
    finally:
        if root and os.path.isdir(root):
            shutil.rmtree(root)


def hostile_rows(rng, g, t):
    """Strings that look like SQL, in columns wide enough for them."""
    u = g.unique_cols(t)
    wide = [x for x in t.cols.values() if x.name not in u and not (x.charset or x.collate or "").startswith("latin1")
            and (x.type in ("text", "mediumtext", "longtext") or (x.type == "varchar" and int(x.args[0]) >= 40))]
    ends = {f.col for f in t.fks.values()}
    for r in t.rows:
        for x in wide:
            if x.name in r and x.name not in ends and rng.random() < 0.6:
                v = gen.hostile(rng, 40)
                r[x.name] = v.rstrip(" ") if x.type == "char" else v
