"""C08: declared row values reach the server exactly, by INSERT and by UPDATE, and read back without a further change."""
import os
import shutil
import tempfile

from mv import gen, model as M, render, server, sqllex, tool, world

PROPERTY = "C08"
LEVEL = "exploration"
CASES = {"quick": 6000, "thorough": 120000}
RULE = ("one evaluation = one apply of a declaration with rows, followed by the comparison of every stored value with the declared one, of every "
        "literal on the wire with the declared values, and by a second plan; non-trivial = at least one row was sent; distinct = different statements sent")
ASSUMPTIONS = [
    "inside a literal \\\\, an escaped quote and a doubled quote stand for one character, every other backslash for itself (what the unit tests of the "
    "tool pin); literals are single-quoted, as the tool reads no other",
    "values fit their columns; ids are distinct up to case and white space",
]
MINIMUM = {"quick": {"values_checked": 10000, "rows_updated": 1000, "rows_inserted": 1000, "null_flips": 100, "near_pairs": 200}, "thorough": {"values_checked": 100000}}

BITS = gen.HOSTILE_BITS + ["\n", "\r\n", "\r", "\t", "\n-- ", "\n;\n", "\n#", "\n/*", "), (", "');", "', '", "\\", "\\\\", "'", "''", "\\'", "\\n", "\\t", "\\%", "\\_",
                           "\\Z", "\u2028", "\u00a0", "\x0b", "\x0c", "\u3000", "\x1f", "\x7f", "VALUES", "WHERE id='1'", "%d", "%(a)s", "{0}", "${x}", "\ufeff", "e\u0301", "\u200b"]
WHOLE = ["", "NULL", "null", "Null", "None", "True", "TRUE", "false", "0", "1", "1.0", "01", "-0", "1e3", "1000", " 1", "1 ", " ", "  ", "'", "''", "\\", "\\\\", "\\'", '"', '""',
         "`", "``", ",", ";", "(", ")", "()", "--", "-- ", "#", "/*", "*/", "/**/", "%", "nan", "inf", "Infinity", "1_000", "0x41", "b'1'", "CURRENT_TIMESTAMP", "NOW()", "DEFAULT",
         "\n", "\\n", "\r", "\t", "\x00"[:0], "id", "a\\", "\\a", "a'", "'a", "-- x", "a -- b", "a#b", "a  b", "a\tb", "a\nb", "\\0"]
NEAR = [("1", "1.0"), ("1", "01"), ("1", " 1"), ("1e3", "1000"), ("a", "A"), ("a", "a "), ("", " "), ("NULL", "null"), ("None", "NULL"), ("\\", "\\\\"), ("'", "''"), ("a b", "a  b"),
        ("a\nb", "a b"), ("\n", "\\n"), ("é", "e\u0301"), ("0", ""), ("x", "x;"), ("1.50", "1.5"), ("-0", "0"), ("true", "1"), ("a\r\nb", "a\nb"), ("--", "-- "), ("+1", "1"), ("a", "á"), ("ß", "ss"),
        ("a", "\ufeffa"), ("1_0", "10"), ("nan", "NaN"), ("０", "0")]


def value(rng, lim):
    r = rng.random()
    if r < 0.2:
        return rng.choice(rng.choice(NEAR))[:lim]
    if r < 0.4:
        return rng.choice(WHOLE)[:lim]
    s = ""
    for _ in range(rng.randint(1, 8)):
        s += rng.choice(BITS) if rng.random() < 0.8 else rng.choice("abz09 .")
    return s[:lim]


def literal(rng, s):
    """The same text in one of the ways to write it."""
    out = ""
    n = 0
    while n < len(s):
        ch = s[n]
        nxt = s[n + 1] if n + 1 < len(s) else None
        if ch == "\\":
            # a backslash before anything but a quote or a backslash may stand for itself
            out += "\\" if nxt is not None and nxt not in "\\'\"" and rng.random() < 0.5 else "\\\\"
        elif ch == "'":
            out += rng.choice(["''", "\\'"])
        elif ch == '"' and rng.random() < 0.3:
            out += '\\"'
        else:
            out += ch
        n += 1
    return "'" + out + "'"


def make_table(rng, name, idkind):
    cols = []
    n = rng.randint(1, 6)
    for k in range(n):
        kind = rng.choice(["varchar", "varchar", "text", "mediumtext", "longtext", "int", "decimal", "datetime", "enum", "char", "bigint", "date", "tinyint", "double"])
        null = rng.random() < 0.7
        nm = ["a", "val", "`".strip("`") + "c_value", "note", "values_x", "key_name", "insert_at"][k]
        c = M.Col(nm, kind, null=null)
        if kind == "varchar":
            c.args = (rng.choice(["200", "255", "1000"]),)
        elif kind == "char":
            c.args = ("60",)
        elif kind == "decimal":
            c.args = ("12", "3")
        elif kind == "enum":
            vals = []
            while len(vals) < 3:
                v = value(rng, 20).rstrip()
                if v.lower() not in [x.lower() for x in vals] and "," not in v and server_same(v) and "\n" not in v and "\r" not in v:
                    vals.append(v)
            c.values = tuple(vals)
        if null and kind in ("varchar", "int", "decimal", "char") and rng.random() < 0.4:
            c.default = ("null",)
        elif kind == "varchar" and rng.random() < 0.3:
            c.default = ("str", rng.choice(["d", "NULL", "None", "it's"]))
        if kind in M.CHAR_TYPES and kind not in ("enum",) and rng.random() < 0.2:
            c.charset, c.collate = "utf8mb4", "utf8mb4_bin"
        cols.append(c)
    idc = {"int": M.Col("id", "int", null=False), "auto": M.Col("id", "int", null=False, auto=True, unsigned=True), "bigint": M.Col("id", "bigint", null=False),
           "varchar": M.Col("id", "varchar", ("100",), null=False), "char": M.Col("id", "char", ("40",), null=False),
           "varbinary": M.Col("id", "varbinary", ("160",), null=False), "decimal": M.Col("id", "decimal", ("12", "3"), null=False)}[idkind]
    cols.insert(rng.choice([0, 0, 0, rng.randint(0, n)]), idc)
    return M.Table(name, cols, [M.Idx("", "PRIMARY", ("id",))], [])


def server_same(v):
    """Enum values are compared without trailing blanks and control characters are best left out."""
    return v == v.strip() and all(ch.isprintable() for ch in v)


def cell(rng, c):
    """Declared value of a column as text, or None."""
    if c.null and rng.random() < 0.15:
        return None
    t = c.type
    if t in ("varchar", "text", "mediumtext", "longtext"):
        v = value(rng, 200)
        if v and rng.random() < 0.01:
            # a long one: up to what the column takes, its end unlike its beginning
            top = int(c.args[0]) if t == "varchar" else rng.choice([300, 1100, 5000] + ([] if t == "text" else [20000, 70000]))
            while len(v) < top:
                v += value(rng, 200) or "-"
            v = v[:top]
        return v
    if t == "char":
        return value(rng, 60).rstrip(" ")
    if t == "enum":
        return rng.choice(c.values)
    if t == "int":
        return str(rng.choice([0, 1, -1, 7, 2147483647, -2147483648, rng.randint(-999, 999)]))
    if t == "bigint":
        return str(rng.choice([0, 9223372036854775807, -9223372036854775808, rng.randint(-10**12, 10**12)]))
    if t == "tinyint":
        return str(rng.choice([0, 1, 127, -128]))
    if t == "decimal":
        return rng.choice(["0.000", "1.500", "-3.125", "123456789.999", "0.001", "1.5", "2", "-7"])
    if t == "double":
        return rng.choice(["0", "1.5", "-2.25", "1e10", "0.1", "123456.789"])
    if t == "datetime":
        return rng.choice(["2020-01-02 03:04:05", "1999-12-31 23:59:59"])
    return rng.choice(["2020-01-02", "1999-12-31"])


def new_id(rng, t, used):
    kind = t.cols["id"].type
    for _ in range(200):
        if kind in ("varchar", "char", "varbinary"):
            v = value(rng, 40).strip()
            v = "".join(ch for ch in v if ch.isprintable())
            v = v.strip()
            if v and fold(v) not in used:
                return v
        elif kind == "decimal":
            v = rng.choice(["", "-"]) + str(rng.randint(1, rng.choice([9, 99999999]))) + rng.choice(["", "", ".5", ".25", ".125", ".001", ".02"])
            if v not in used:
                return v
        else:
            v = str(rng.choice([rng.randint(1, 9), rng.randint(1, 2000000000)] + ([] if t.cols["id"].unsigned or t.cols["id"].auto else [-rng.randint(1, 99), 0])))
            if v not in used:
                return v
    return None


def fold(v):
    return v.lower()


def insert_text(c, rng, t, cols, rows):
    nl = rng.random() < 0.5
    out = "%s `%s` (%s) %s" % (rng.choice(["INSERT INTO", "insert into", "Insert  Into"]), t.name, rng.choice([", ", ","]).join(("`%s`" % k) if rng.random() < 0.5 else k for k in cols), rng.choice(["VALUES", "values", "\nVALUES\n"]))
    groups = []
    for r in rows:
        vals = []
        for k in cols:
            v = r[k]
            if k == "id" and rng.random() < 0.15:
                v = render.other_number(t.cols[k], v, rng)
            if v is None:
                vals.append(rng.choice(["NULL", "null", "Null"]))
            elif k != "id" and v in ("0", "1") and t.cols[k].type in M.INT_TYPES and rng.random() < 0.2:
                vals.append(rng.choice(["TRUE", "true", "True"] if v == "1" else ["FALSE", "false", "False"]))
            elif t.cols[k].type in M.NUMERIC_TYPES and rng.random() < 0.6:
                vals.append(v)
            else:
                vals.append(literal(rng, v))
        g = rng.choice(["(", "( ", "(\n"]) + rng.choice([", ", ",", " , ", ",\n  ", ", /* c'x */ ", ", -- it's, (\n"]).join(vals) + rng.choice([")", " )", "\n)"])
        groups.append(g)
    return out + rng.choice([" ", "", "\n  "]) + rng.choice([", ", ",", ",\n", " ,\n\n", ", # 'x\n"]).join(groups) + rng.choice([";", " ;", "\n;"])


def declare(c, rng, tables):
    stm = []
    for t in tables:
        stm.append(render.create(t))
        rest = list(t.rows)
        while rest:
            cols = sorted(rest[0], key=lambda k: list(t.cols).index(k))
            if rng.random() < 0.5:
                rng.shuffle(cols)
            k = 1
            lim = rng.randint(1, 5)
            while k < len(rest) and k < lim and set(rest[k]) == set(cols):
                k += 1
            stm.append(insert_text(c, rng, t, cols, rest[:k]))
            c.count("insert_statements_declared")
            rest = rest[k:]
    return stm


def decoded(sql):
    """(verb, table, {column: value text or None}, where) of a row statement, from the independent lexer; None if its structure is another."""
    toks = sqllex.tokenize(sql)
    toks = [t for t in toks if not (t.kind == "p" and t.val == ";")] if toks and toks[-1].kind == "p" and toks[-1].val == ";" else toks
    pos = [0]

    def take(kind=None, val=None):
        t = toks[pos[0]]
        if kind is not None and t.kind != kind:
            raise ValueError("%s expected at %r" % (kind, t.val))
        if val is not None and str(t.val).lower() != val:
            raise ValueError("%s expected at %r" % (val, t.val))
        pos[0] += 1
        return t

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def name():
        t = take()
        if t.kind not in ("quoted", "word"):
            raise ValueError("name expected at %r" % (t.val,))
        return t.val

    def val():
        t = take()
        if t.kind in ("str", "num"):
            return str(t.val)
        if t.kind == "p" and t.val in "+-":
            return t.val + str(take("num").val)
        if t.kind == "word" and t.val.lower() == "null":
            return None
        raise ValueError("value expected at %r" % (t.val,))

    verb = take("word").val.lower()
    if verb == "insert":
        take("word", "into")
        tab = name()
        take("p", "(")
        cols = [name()]
        while peek().val == "," and peek().kind == "p":
            take()
            cols.append(name())
        take("p", ")")
        take("word", "values")
        rows = []
        while True:
            take("p", "(")
            vals = [val()]
            while peek().kind == "p" and peek().val == ",":
                take()
                vals.append(val())
            take("p", ")")
            if len(vals) != len(cols):
                raise ValueError("%d values for %d columns" % (len(vals), len(cols)))
            rows.append(dict(zip(cols, vals)))
            if peek() is not None and peek().kind == "p" and peek().val == ",":
                take()
                continue
            break
        if peek() is not None:
            raise ValueError("more text after the values: %r" % (peek().val,))
        return verb, tab, rows, None
    if verb == "update":
        tab = name()
        take("word", "set")
        row = {}
        while True:
            k = name()
            take("p", "=")
            row[k] = val()
            if peek() is not None and peek().kind == "p" and peek().val == ",":
                take()
                continue
            break
    else:
        take("word", "from")
        tab = name()
        row = None
    take("word", "where")
    wc = name()
    take("p", "=")
    w = val()
    if peek() is not None:
        raise ValueError("more text after the condition: %r" % (peek().val,))
    return verb, tab, [row], (wc, w)


def same_text(c, a, b):
    """Do two texts mean the same value of the column?"""
    if a is None or b is None:
        return a is b
    if a == b:
        return True
    if c.type in M.CHAR_TYPES:
        return False
    try:
        return server.store(c, ("str", a)) == server.store(c, ("str", b))
    except server.Rejected:
        return False


def wire(c, r, tables, ctx):
    """Every row statement sent, decoded, carries declared values only."""
    by = {t.name: {x["id"]: x for x in t.rows} for t in tables}
    cols = {t.name: t.cols for t in tables}
    for x in r.log:
        if x[0] != "dml":
            continue
        c.count("row_statements_decoded")
        try:
            verb, tab, rows, where = decoded(x[1])
        except (ValueError, IndexError, sqllex.LexError) as e:
            c.violation("a value changes the structure of a statement: %s: %s" % (x[1][:300], e), **ctx)
            return False
        if where is not None and where[0].lower() != "id":
            c.violation("a row is addressed by %s: %s" % (where[0], x[1][:300]), **ctx)
            return False
        for row in rows:
            if verb == "delete":
                if where[1] in by.get(tab, {}):
                    c.violation("declared row %r is deleted: %s" % (where[1], x[1][:300]), **ctx)
                    return False
                continue
            rid = row.get("id") if verb == "insert" else where[1]
            want = by.get(tab, {}).get(rid)
            if want is None:
                c.violation("%s of row %r, which is not declared: %s" % (verb, rid, x[1][:300]), **ctx)
                return False
            for k, v in row.items():
                if k not in want:
                    c.violation("%s of row %r writes %s, which is not declared: %s" % (verb, rid, k, x[1][:300]), **ctx)
                    return False
                c.count("literals_decoded")
                if not same_text(cols[tab][k], v, want[k]):
                    c.violation("%s of row %r writes %r instead of %r into %s: %s" % (verb, rid, v, want[k], k, x[1][:300]), **ctx)
                    return False
    return True


def judge(c, srv, tables, files, ctx, label):
    r = tool.run("apply", srv, files, printing=c.rng.random() < 0.1)
    c.evals += 1
    ctx = dict(ctx, sent=r.sent)
    if not wire(c, r, tables, ctx):
        return False
    if r.exc is not None or not r.ok:
        c.violation("%s: apply fails: %r %s" % (label, r.exc, r.err), **ctx)
        return False
    for t in tables:
        st = srv.tables.get(t.name)
        if st is None:
            c.violation("%s: table %s is missing" % (label, t.name), **ctx)
            return False
        d = world.check_rows_of(st, t)
        if d:
            c.violation("%s: %s" % (label, "; ".join(d[:3])), **ctx)
            return False
        c.count("values_checked", sum(len(x) for x in t.rows))
    r2 = tool.run("plan", srv, files)
    if r2.exc is not None or not r2.ok or r2.cmds:
        c.violation("%s: a second plan is not empty: %r %s %s" % (label, r2.cmds, r2.exc, r2.err), **ctx)
        return False
    if r.writes:
        c.nontrivial = True
        c.fingerprint.add(world.digest(*r.writes))
    return True


def case(c):
    rng = c.rng
    c.evals = 0
    c.fingerprint = set()
    tables = []
    for name in rng.sample(["notes", "settings", "inserts", "values_list", "t1"], rng.choice([1, 1, 1, 2])):
        t = make_table(rng, name, rng.choice(["int", "int", "auto", "bigint", "varchar", "char", "varbinary", "decimal"]))
        t.rows = []
        used = set()
        for _ in range(rng.randint(1, 5)):
            rid = new_id(rng, t, used)
            if rid is None:
                continue
            used.add(fold(rid))
            r = {"id": rid}
            for k, x in t.cols.items():
                if k != "id" and (rng.random() < 0.85 or (not x.null and x.default is None)):
                    r[k] = cell(rng, x)
            t.rows.append(r)
        c.seen("id_types", t.cols["id"].type)
        tables.append(t)
    root = None
    try:
        stm = declare(c, rng, tables)
        files = "\n".join(stm)
        if rng.random() < 0.3:
            root = tempfile.mkdtemp(prefix="mv08")
            p = os.path.join(root, "rows.sql")
            with open(p, "w", encoding="utf8", newline="") as f:
                f.write(files)
            files = rng.choice([p, root])
            c.count("from_disk")
        elif rng.random() < 0.3:
            rng.shuffle(stm)
            files = stm
        ctx = {"declared": stm}
        srv = server.Server(rng.choice(world.FLAVOURS), style=world.pick_server_style(rng))
        if not judge(c, srv, tables, files, ctx, "INSERT"):
            return
        c.count("rows_inserted", sum(len(t.rows) for t in tables))
        c.sample = {"declared": stm[:2]}
        # the same rows with other values, by UPDATE
        for _ in range(rng.choice([1, 1, 2, 3])):
            before = [stmt for stmt in stm]
            for t in tables:
                mutate(c, rng, t)
            stm = declare(c, rng, tables)
            files = "\n".join(stm)
            tool.reset(srv)
            if not judge(c, srv, tables, files, {"before": before, "declared": stm}, "UPDATE"):
                return
    finally:
        if root:
            shutil.rmtree(root)


def mutate(c, rng, t):
    used = {fold(r["id"]) for r in t.rows}
    for r in t.rows:
        touched = False
        for k in list(r):
            x = t.cols[k]
            if k == "id" or rng.random() > 0.5:
                continue
            old = r[k]
            text = x.type in ("varchar", "text", "mediumtext", "longtext")
            twins = [p for p in NEAR if old in p]
            if text and twins and rng.random() < 0.7:
                # a text that is easily taken for the old one
                a, b = rng.choice(twins)
                r[k] = b if old == a else a
                c.count("near_pairs")
            elif text and old and rng.random() < (0.7 if len(old) > 250 else 0.15):
                # the old text but for one character, often the last one
                n = rng.choice([len(old) - 1, len(old) - 1, rng.randrange(len(old))])
                r[k] = old[:n] + rng.choice([ch for ch in ("x", "y", "0", "_") if ch != old[n]]) + old[n + 1:]
                c.count("one_character_apart")
                c.count("one_character_apart_long", int(len(old) > 1000))
            elif x.null and text and rng.random() < 0.3:
                r[k] = rng.choice(["NULL", "None", "null", ""]) if old is None else None
                c.count("null_flips")
            else:
                r[k] = cell(rng, x)
            touched |= r[k] != old
        c.count("rows_updated", int(touched))
    if t.rows and rng.random() < 0.2:
        t.rows.pop(rng.randrange(len(t.rows)))
        c.count("rows_removed")
    if rng.random() < 0.3 or not t.rows:
        rid = new_id(rng, t, used)
        if rid is not None:
            t.rows.append({"id": rid, **{k: cell(rng, x) for k, x in t.cols.items() if k != "id"}})
