"""C06: definitions that cannot be understood in full, or are invalid, are reported and nothing is changed."""
import re

from mv import gen, model as M, render, server, sqllex, tool, valid, world
from mv.harness import Skip, probe

PROPERTY = "C06"
LEVEL = "exploration"
LOOP_BUDGET = True
CASES = {"quick": 8000, "thorough": 150000}
RULE = ("one evaluation = one text (valid text with one to three random damages, valid text with one invalid definition injected, or "
        "garbage) or one live table printed in an unusual way, read by check and in part by plan/apply against the server; "
        "non-trivial = the text is not a valid declaration unchanged; distinct = different text")
ASSUMPTIONS = [
    "a text is understood in full when an independent reader gets the same definitions from it; where the tool is more lenient than SQL "
    "(missing or trailing commas are pinned by unit tests), when every name, number and literal of the text is found in what was read",
    "loop iterations inside the code under test are limited to 20 million plus 3000 per character (measured use on the unchanged tree is far lower)",
]
MINIMUM = {"quick": {"damaged_reported": 300, "damaged_read_in_full": 30, "injections": 300, "refused_runs": 150, "odd_live_tables": 80, "garbage": 80},
           "thorough": {"injections": 3000}}

# words that carry no content of their own
SYNTAX = set("""create table if not exists insert into values null default auto_increment primary key unique index constraint foreign
references on delete update cascade restrict no action set unsigned character collate engine charset true false current_timestamp
now localtime localtimestamp binary b x bool boolean integer zerofill
tinyint smallint mediumint int bigint float double decimal bit char varchar varbinary tinytext text mediumtext longtext tinyblob blob
mediumblob longblob date datetime timestamp time year enum json innodb utf8 utf8mb4 latin1 default value""".split())


class Unreadable(Exception):
    pass


def statement_texts(text):
    """[(text of one statement, ended by a semicolon)] by MySQL's lexical rules."""
    try:
        toks = sqllex.tokenize(text)
    except sqllex.LexError as e:
        raise Unreadable(e)
    out, start = [], None
    for t in toks:
        if start is None:
            if t.kind == "p" and t.val == ";":
                raise Unreadable("stray semicolon")
            start = t.pos
        if t.kind == "p" and t.val == ";":
            out.append((text[start : t.pos + 1], True))
            start = None
    if start is not None:
        out.append((text[start:], False))
    return out


def read_insert(sql):
    p = server.P(sql)
    p.need("insert")
    p.need("into")
    name = p.ident()
    p.need_p("(")
    cols = [p.ident()]
    while p.p(","):
        cols.append(p.ident())
    p.need_p(")")
    p.need("values")
    rows = []
    while True:
        p.need_p("(")
        vals = [p.literal()]
        while p.p(","):
            vals.append(p.literal())
        p.need_p(")")
        rows.append([None if v[0] == "null" else v[1] for v in vals])
        if not p.p(","):
            break
    p.end()
    return name, cols, rows


def declared(text):
    """What an independent reader gets from the text: a Schema (Unreadable if it is not valid SQL)."""
    s = M.Schema()
    rows = []
    for sql, ended in statement_texts(text):
        try:
            if sql[:6].lower() == "create":
                if not ended:
                    raise Unreadable("no semicolon")
                ine, name, els, opts = server.parse_create(sql)
                if name in s.tables:
                    raise Unreadable("two definitions")
                t = M.Table(name)
                for e in els:
                    if e[0] == "col":
                        if e[1].name in t.cols:
                            raise Unreadable("two columns")
                        if e[2]["null_conflict"]:
                            raise Unreadable("NULL and NOT NULL")
                        t.cols[e[1].name] = e[1]
                        if e[2]["pk"]:
                            t.idxs["PRIMARY"] = M.Idx("", "PRIMARY", (e[1].name,))
                    elif e[0] == "idx":
                        k = "PRIMARY" if e[1].kind == "PRIMARY" else e[1].name
                        if not k or k in t.idxs:
                            raise Unreadable("index without a name or twice")
                        t.idxs[k] = e[1]
                    else:
                        f = e[1]
                        if not f.name:
                            f.name = ("%s_%s_%s_fk" % (t.name, f.col, f.ref_table))[:64]
                            if f.col not in t.idxs:
                                t.idxs[f.col] = M.Idx(f.col, "INDEX", (f.col,))
                        if f.name in t.fks:
                            raise Unreadable("two constraints")
                        t.fks[f.name] = f
                s.tables[name] = t
            elif sql[:6].lower() == "insert":
                rows.append(read_insert(sql))
            else:
                raise Unreadable("unknown statement")
        except server.Rejected as e:
            raise Unreadable(e)
    for name, cols, vals in rows:
        if name not in s.tables or len(set(cols)) != len(cols) or set(cols) - set(s.tables[name].cols):
            raise Unreadable("rows for a missing table or column")
        t = s.tables[name]
        t.rows = t.rows or []
        for v in vals:
            if len(v) != len(cols):
                raise Unreadable("value count")
            row = dict(zip(cols, v))
            if "id" in row:
                row["id"] = M.row_id(t.cols.get("id"), row["id"])
            t.rows.append(row)
    for t in s.tables.values():
        pk = t.primary
        if pk is not None:
            for c in pk.cols:
                if c in t.cols:
                    t.cols[c].null = False
        if t.rows is not None:
            ids = [r.get("id") for r in t.rows]
            if None in ids or len(set(ids)) != len(ids):
                raise Unreadable("row ids")
    return s


def words_of(text):
    """Every name, number and literal in the text (not its syntax)."""
    out = []
    for t in sqllex.tokenize(text):
        if t.kind == "p":
            continue
        if t.kind == "word" and t.val.lower() in SYNTAX:
            continue
        out.append(t)
    return out


def words_read(db):
    """Everything the tool's definitions hold, as a set of texts."""
    out = set()

    def add(*xs):
        for x in xs:
            if x is None:
                continue
            x = str(x)
            out.add(x)
            out.add(x.lower())
            if re.match(r"^-?[\d.]+$", x):
                try:
                    from decimal import Decimal

                    out.add(("n", Decimal(x)))
                    out.add(("n", abs(Decimal(x))))
                except Exception:
                    pass

    for n, t in db.tables.items():
        add(n, t.name)
        for c in t.columns.values():
            add(c.name, c.column_type, c.default if c.default is not True and c.default is not False else int(c.default), c.character_set, c.collate)
            add(*str(c.length or "").replace(" ", "").split(","))
            for v in c.enum_values or ():
                add(v)
        for i in t.indexes.values():
            add(i.name, *i.columns)
        for f in t.constraints.values():
            add(f.name, f.column_name, f.foreign_table_name, f.foreign_column_name, f.on_delete, f.on_update)
        for o in t.options or ():
            add(*re.findall(r"\w+", "%s %s" % (o.name, o.value)))
            add(str(o.value), str(o.value).strip("'\""))
        for r in (t.rows or {}).values():
            add(*[v for v in r.values() if v is not None])
    return out


def lost_words(text, db):
    from decimal import Decimal

    have = words_read(db)
    out = []
    for t in words_of(text):
        if t.val in have or t.val.lower() in have:
            continue
        if t.kind in ("num", "str"):
            try:
                if ("n", Decimal(t.val)) in have:
                    continue
            except Exception:
                pass
        if t.kind == "str" and as_written(text, t.pos) in have:
            continue  # a backslash before any other character stands for itself
        if re.search(r"auto_increment[\s=]*$", text[: t.pos], re.I):
            continue  # the value of an option that is left out on purpose
        if t.kind != "str" and (chunk(text, t.pos) in have or chunk(text, t.pos, "") in have):
            continue  # something like NUL\\L or NU=LL kept as one word
        out.append(t)
    return out


def as_written(text, pos):
    quote = text[pos]
    m = re.compile(r"%s((?:[^\\%s]|\\.|%s%s)*)%s" % ((quote,) * 5), re.S).match(text, pos)
    return m and re.sub(r"\\([\\'\"])|" + quote + quote, lambda x: x.group(1) or quote, m.group(1))


def chunk(text, pos, more="="):
    stop = " \t\r\n(),;'\"`" + more
    a = b = pos
    while a > 0 and text[a - 1] not in stop:
        a -= 1
    while b < len(text) and text[b] not in stop:
        b += 1
    return text[a:b]


def budget(text):
    probe.budget(20000000 + 3000 * len(text))


def spent(c, text):
    c.seen("loops_per_char_up_to", 10 ** len(str(int(probe.jumps / (len(text) + 50)))))


def bare_fk_index_ok(have, want):
    """An index named after the column of an unnamed foreign key is the tool's, unless the text has one that will do."""
    for n, w in want.tables.items():
        h = have.tables.get(n)
        if h is None:
            continue
        for f in w.fks.values():
            i = w.idxs.get(f.col)
            if i is not None and i.cols == (f.col,) and f.col not in h.idxs and h.indexed(f.col):
                del w.idxs[f.col]
            elif i is None and f.col in h.idxs and h.idxs[f.col].cols == (f.col,):
                del h.idxs[f.col]


def case(c):
    r = c.rng.random()
    if r < 0.45:
        damaged(c)
    elif r < 0.78:
        injected(c)
    elif r < 0.88:
        odd_live(c)
    else:
        garbage(c)


# ---------------------------------------------------------------------------------------------


UNSUPPORTED = ["DROP TABLE logs;", "ALTER TABLE logs ADD COLUMN x INT;", "UPDATE logs SET a=1;", "SET NAMES utf8;", "CREATE VIEW v AS SELECT 1;",
               "CREATE INDEX i ON logs (a);", "DELETE FROM logs;", "USE db;", "REPLACE INTO logs (id) VALUES (1);", "garbage", "CREATE DATABASE x;",
               "INSERT IGNORE INTO logs (id) VALUES (1);", "INSERT INTO logs SELECT 1;", "LOCK TABLES `logs` WRITE;", "CREATE TABLE x LIKE y;",
               "CREATE TEMPORARY TABLE x (id INT);", "START TRANSACTION;", "DELIMITER //", ")", ";;", "é", "CREATE", "INSERT", "CREATE TABLE", "0"]
BITS = ["'", "`", "DEFAULT ` ", '"', "`", "(", ")", ",", ";", "--", "-- ", "#", "/*", "*/", "\\", "x", "0", "NULL", "NOT", "DEFAULT", "KEY", "''", "=", ".", " ", "\n",
        "PRIMARY", "UNIQUE", "INSERT INTO", "CREATE TABLE", "(5)", "CHECK (a > 1)", "COMMENT 'x'", "VALUES", "ON DELETE CASCADE", "UNSIGNED", "@", "\x00"]


def damage(rng, text):
    """(text, how)"""
    try:
        toks = sqllex.tokenize(text)
    except sqllex.LexError:
        toks = []
    k = rng.choice(["truncate", "token_delete", "token_dup", "token_swap", "char_delete", "char_insert", "bit", "statement", "statement_dup",
                    "statement_drop", "splice", "semicolon", "comma", "unsupported_glued"])
    spots = [t.pos for t in toks] + [len(text)]
    if len(toks) < 4:
        k = "char_insert"
    if k == "comma":
        i = rng.choice([t.pos for t in toks if t.kind == "p" and t.val == ","] or [0])
        return text[:i] + rng.choice([" ", "\n"]) + text[i + 1 :], k
    if k == "truncate":
        return text[: rng.choice(spots) if rng.random() < 0.6 else rng.randint(0, len(text))], k
    if k in ("token_delete", "token_dup", "token_swap"):
        i = rng.randrange(len(toks) - 1)
        a, b = toks[i].pos, toks[i + 1].pos
        if k == "token_delete":
            return text[:a] + text[b:], k
        if k == "token_dup":
            return text[:b] + " " + text[a:], k
        e = toks[i + 2].pos if i + 2 < len(toks) else len(text)
        return text[:a] + text[b:e] + " " + text[a:b] + text[e:], k
    if k == "char_delete":
        i = rng.randrange(len(text))
        return text[:i] + text[i + 1 :], k
    if k == "char_insert":
        i = rng.randint(0, len(text))
        return text[:i] + rng.choice("'\"`(),;\\-# x0.=/*\n") + text[i:], k
    if k == "bit":
        i = rng.choice(spots)
        return text[:i] + " " + rng.choice(BITS) + " " + text[i:], k
    ends = [t.pos + 1 for t in toks if t.kind == "p" and t.val == ";"]
    if k == "semicolon" and ends:
        i = rng.choice(ends)
        return text[: i - 1] + " " + text[i:], k
    if k == "splice":
        a, b = sorted([rng.choice(spots), rng.choice(spots)])
        return text[:a] + text[b:], k
    bounds = [0] + ends
    if k == "statement":
        i = rng.choice(bounds)
        return text[:i] + "\n" + rng.choice(UNSUPPORTED) + "\n" + text[i:], k
    if k == "unsupported_glued":
        i = rng.choice(bounds)
        return text[:i] + rng.choice(UNSUPPORTED).rstrip(";") + text[i:], k
    if len(bounds) < 2:
        return text + "x", "char_insert"
    i = rng.randrange(len(bounds) - 1)
    part = text[bounds[i] : bounds[i + 1]]
    if k == "statement_dup":
        j = rng.choice(bounds)
        return text[:j] + part + text[j:], k
    return text[: bounds[i]] + text[bounds[i + 1] :], k


def small_schema(c, **kw):
    g = gen.Gen(c.rng, **kw)
    return g, g.schema(ntables=c.rng.choice([1, 1, 2, 3]), nfks=c.rng.choice([0, 1, 2]))


def damaged(c):
    rng = c.rng
    g, s = small_schema(c)
    stm, how = world.text_of(rng, s, 0.6)
    text = "\n".join(stm)
    hows = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        text, k = damage(rng, text)
        hows.append(k)
    # the file may be one of several
    files = text
    if rng.random() < 0.2:
        files = [text, "CREATE TABLE other_file_table (id INT NOT NULL, PRIMARY KEY (id));"]
    judge(c, text, files, hows)


def odd_names(text):
    try:
        return any(t.kind == "quoted" and re.search(r"[\s`]", t.val) for t in sqllex.tokenize(text))
    except sqllex.LexError:
        return False


def judge(c, text, files, hows, must_fail=None):
    """must_fail: reason why the text has to be reported."""
    rng = c.rng
    c.context = {"text": text, "damage": hows}
    if odd_names(text):
        # a missing comma between two quoted names is one name with a backtick in it to MySQL; such names are not supported
        raise Skip("backtick or white space inside a name")
    c.fingerprint = world.digest(text)
    c.nontrivial = True
    budget(text)
    r = tool.run("check", files=files)
    spent(c, text)
    if r.exc is not None:
        c.violation("check raises %r instead of reporting" % r.exc, **c.context)
        return
    c.seen("damages", hows[0])
    want = why = None
    try:
        want = declared(text)
    except Unreadable as e:
        why = str(e)
    broken = valid.problems(want) if want is not None else []
    if r.ok:
        if must_fail:
            c.violation("%s, but check reports no error" % must_fail, **c.context)
            return
        c.count("damaged_read_in_full")
        budget(text)
        db = tool.read(text)
        if want is not None and re.search(r"\\[^\\'\"]", text.replace("\\\\", "")):
            c.count("odd_escapes")  # which characters a backslash escapes is C08's matter
        elif want is not None:
            have = tool.schema_of(db)
            bare_fk_index_ok(have, want)
            d = tool.exact_diff(have, want)
            if d:
                c.violation("no error reported, but the text is not read as what it says: %s" % d[0], diff=d[:5], **c.context)
                return
            if broken:
                c.violation("no error reported, but the definitions are invalid: %r" % (broken[:3],), **c.context)
                return
        else:
            c.count("lenient")
            c.seen("lenient_reasons", why[:60])
            lenient(c, text, db, why)
        c.sample = {"damage": hows, "reported": False, "text": text[-200:]}
    else:
        c.count("damaged_reported" if not must_fail else "injections_reported")
        c.sample = {"damage": hows, "reported": r.cmds[:2]}
        if want is not None and not broken:
            c.count("valid_but_reported")
            c.seen("valid_but_reported_examples", hows)
        if not r.err and not r.out and not r.cmds:
            c.violation("check fails without saying why", **c.context)
    if rng.random() < 0.5:
        refused(c, files, r)


def lenient(c, text, db, why):
    """Not SQL, yet accepted: nothing in it may have been dropped."""
    if re.search(r"--\S", text):
        c.count("comment_without_space")  # a comment to the tool, not one to MySQL
        return
    try:
        lost = lost_words(text, db)
    except sqllex.LexError:
        c.violation("no error reported, but the text ends inside quotes or a comment", **c.context)
        return
    if lost and all(is_prefix_length(text, w) for w in lost):
        c.violation("the prefix length %r of a key is dropped" % lost[0].val, key="index-prefix", **c.context)
        return
    if lost:
        c.violation("no error reported, but %r at %d is not found in what was read (the text is not valid: %s)" % (
            lost[0].val, lost[0].pos, why), **c.context)
        return
    toks = sqllex.tokenize(text)
    creates = 0
    for k in range(len(toks) - 1):
        if toks[k].kind == toks[k + 1].kind == "word" and (toks[k].val.lower(), toks[k + 1].val.lower()) == ("create", "table") and (k == 0 or toks[k - 1].val != "="):
            n = k + 2
            if [t.val.lower() for t in toks[n : n + 3]] == ["if", "not", "exists"]:
                n += 3
            # `CREATE TABLE ENGINE=InnoDB` behind a table is read as an option with that name, and so is CREATE TABLE DEFAULT CHARSET=utf8 or DEFAULT CHARSET CREATE TABLE =utf8
            while n + 1 < len(toks) and toks[n].kind == toks[n + 1].kind == "word":
                n += 1
            creates += (n + 1 >= len(toks) or toks[n + 1].val != "=") and (n >= len(toks) or toks[n].val != "=")
    if creates != len(db.tables):
        c.violation("no error reported, but %d CREATE TABLE in the text give %d tables" % (creates, len(db.tables)), **c.context)


def is_prefix_length(text, w):
    """A number in brackets after a column of a key, all inside the brackets of the key."""
    if w.kind != "num" or not w.val.isdigit():
        return False
    toks = sqllex.tokenize(text)
    k = [n for n, t in enumerate(toks) if t.pos == w.pos][0]
    if k < 3 or toks[k - 1].val != "(" or k + 2 >= len(toks) or toks[k + 1].val != ")" or toks[k + 2].val not in (",", ")"):
        return False
    n = k - 2
    while n > 0 and (toks[n].kind in ("word", "quoted", "num") or toks[n].val == ","):
        n -= 1
    return toks[n].val == "(" and any(t.kind == "word" and t.val.lower() in ("key", "index", "unique") for t in toks[max(0, n - 2) : n])


def refused(c, files, checked, server_=None):
    """plan and apply of a text with errors send no change; of one without errors they go ahead."""
    rng = c.rng
    srv = server_ or tool.live(M.Schema([M.Table("logs", [M.Col("id", "int", null=False), M.Col("a", "int")], [M.Idx("", "PRIMARY", ["id"])])]))
    cmd = rng.choice(["plan", "apply", "apply", "plan_export"])
    before = {n: srv.show_create(n) for n in srv.tables}
    text = files if isinstance(files, str) else "".join(files)
    budget(text)
    r = tool.run(cmd, srv, files)
    if checked.ok:
        if cmd == "plan" and r.writes:
            c.violation("plan changes the server: %r" % r.writes, **c.context)
        return
    c.count("refused_runs")
    if r.writes:
        c.violation("check reports %r, yet %s sends %r" % (checked.cmds[:1], cmd, r.writes[0]), sent=r.sent, **c.context)
        return
    if {n: srv.show_create(n) for n in srv.tables} != before:
        c.violation("the server has changed", **c.context)
    if r.exc is not None:
        c.count("refused_by_exception")
    elif cmd == "plan_export":
        pass  # shows the live database; only has to change nothing
    elif r.ok:
        c.violation("check reports %r, yet %s claims success" % (checked.cmds[:1], cmd), sent=r.sent, **c.context)
    elif not r.err and not r.out:
        c.violation("%s is refused without a message" % cmd, **c.context)


# ---------------------------------------------------------------------------------------------


def injected(c):
    rng = c.rng
    g, s = small_schema(c)
    stm = render.schema_sql(s)
    tabs = list(s.tables.values())
    t = rng.choice(tabs)
    # the kinds with many variants come more often
    kinds = sorted(INJECT, key=lambda k: rng.random() / {"malformed_column": 3, "malformed_constraint": 4, "unsupported_column_attribute": 2}.get(k, 1))
    for k in kinds:
        got = INJECT[k](rng, g, s, t, list(stm))
        if got is not None:
            break
    else:
        raise Skip("no injection applies")
    c.count("injections")
    c.count("injected_" + k)
    c.evals = 1
    if isinstance(got, tuple):
        files, text = got
    else:
        got = got if isinstance(got, list) else [got]
        text = "\n".join(got)
        files = text
        if rng.random() < 0.4:
            n = rng.randint(1, len(got))
            files = ["\n".join(got[:n]), "\n".join(got[n:])] if n < len(got) else [text]
            if rng.random() < 0.5:
                files.reverse()
    judge(c, text, files, [k], must_fail=k.replace("_", " "))


def at(stm, t):
    for n, q in enumerate(stm):
        if q.startswith("CREATE TABLE `%s`" % t.name) or q.startswith("CREATE TABLE %s" % t.name):
            return n
    raise KeyError(t.name)


def put(stm, t, new):
    stm[at(stm, t)] = new
    return stm


def with_element(rng, t, el, where="end"):
    q = render.create(t)
    i = q.rindex(")", 0, q.rindex(";")) if not t.options else None
    # elements are inserted after the last column or at the end, found through the lexer
    toks = sqllex.tokenize(q)
    depth = 0
    close = None
    for x in toks:
        if x.kind == "p" and x.val == "(":
            depth += 1
        elif x.kind == "p" and x.val == ")":
            depth -= 1
            if depth == 0:
                close = x.pos
                break
    if where == "start":
        o = q.index("(") + 1
        return q[:o] + el + ", " + q[o:]
    return q[:close] + ", " + el + q[close:]


def inj_duplicate_table(rng, g, s, t, stm):
    other = M.Table(t.name, [M.Col("id", "int", null=False), M.Col("zz", "int")], [M.Idx("", "PRIMARY", ["id"])])
    q = render.create(rng.choice([t, other]))
    stm.insert(rng.randint(0, len(stm)), q)
    return stm


def inj_duplicate_column(rng, g, s, t, stm):
    c = rng.choice(list(t.cols.values()))
    el = "`%s` %s" % (c.name, rng.choice(["INT", "VARCHAR(7)", "TEXT", "DATE"]))
    return put(stm, t, with_element(rng, t, el, rng.choice(["start", "end"])))


def inj_duplicate_key(rng, g, s, t, stm):
    idx = [i for i in t.idxs.values() if i.kind != "PRIMARY"]
    if not idx:
        return None
    i = rng.choice(idx)
    el = "%s `%s` (`%s`)" % (rng.choice(["KEY", "UNIQUE KEY"]), i.name, rng.choice(list(t.cols)))
    return put(stm, t, with_element(rng, t, el))


def inj_second_primary_key(rng, g, s, t, stm):
    if t.primary is None:
        return None
    return put(stm, t, with_element(rng, t, "PRIMARY KEY (`%s`)" % rng.choice(list(t.cols))))


def inj_duplicate_constraint(rng, g, s, t, stm):
    if not t.fks:
        return None
    f = rng.choice(list(t.fks.values()))
    r = render.R()
    render.fk_tokens(r, f.copy(on_delete=rng.choice([None, "CASCADE"])))
    return put(stm, t, with_element(rng, t, render.text(r)))


def inj_constraint_name_of_another_table(rng, g, s, t, stm):
    if not t.fks:
        return None
    f = rng.choice(list(t.fks.values()))
    x = M.Table("zz_copy", [M.Col("id", "int", null=False), t.cols[f.col].copy(auto=False, default=None)],
                [M.Idx("", "PRIMARY", ["id"]), M.Idx("zz", "INDEX", [f.col])], [f.copy()])
    if f.col == "id":
        return None
    stm.insert(rng.randint(0, len(stm)), render.create(x))
    return stm


def rowed(s):
    return [t for t in s.tables.values() if t.rows]


def inj_duplicate_row_id(rng, g, s, t, stm):
    ts = rowed(s)
    if not ts:
        return None
    t = rng.choice(ts)
    row = dict(rng.choice(t.rows))
    if rng.random() < 0.4:
        row["id"] = render.other_number(t.cols["id"], row["id"], rng)
    q = render.text(render.insert_tokens(t, tuple(row), [row]))
    stm.insert(rng.randint(0, len(stm)), q)
    return stm


def inj_rows_for_missing_table(rng, g, s, t, stm):
    stm.insert(rng.randint(0, len(stm)), "INSERT INTO `no_such_table` (`id`, `a`) VALUES (%d, 'x');" % rng.randint(1, 9))
    return stm


def inj_rows_for_missing_column(rng, g, s, t, stm):
    if "id" not in t.cols:
        return None
    stm.insert(rng.randint(0, len(stm)), rng.choice([
        "INSERT INTO `%s` (`id`, `no_such_column`) VALUES (99, 'x');", "INSERT INTO `%s` (`no_such_column`, `id`) VALUES (1, 99), (2, 98);"]) % t.name)
    return stm


def inj_wrong_value_count(rng, g, s, t, stm):
    if "id" not in t.cols or len(t.cols) < 2:
        return None
    x = [n for n in t.cols if n != "id"][0]
    bad = rng.choice(["(97)", "(97, NULL, 1)", "(97, 'a', 'b')"])
    rows = ["(98, NULL)", bad, "(99, NULL)"] if t.cols[x].null else [bad]
    rng.shuffle(rows)
    stm.insert(rng.randint(0, len(stm)), "INSERT INTO `%s` (`id`, `%s`) VALUES %s;" % (t.name, x, ", ".join(rows)))
    return stm


def inj_row_without_id(rng, g, s, t, stm):
    n = [x for x in t.cols if x != "id"]
    if not n:
        return None
    stm.append("INSERT INTO `%s` (`%s`) VALUES (NULL);" % (t.name, n[0]))
    return stm


def inj_row_with_null_id(rng, g, s, t, stm):
    if "id" not in t.cols:
        return None
    stm.append("INSERT INTO `%s` (`id`) VALUES (NULL);" % t.name)
    return stm


def fk_el(rng, col, table, ref):
    return "CONSTRAINT `zz_bad_fk` FOREIGN KEY (`%s`) REFERENCES `%s` (`%s`)" % (col, table, ref)


def inj_constraint_to_missing_table(rng, g, s, t, stm):
    return put(stm, t, with_element(rng, t, fk_el(rng, rng.choice(list(t.cols)), "no_such_table", "id")))


def inj_constraint_to_missing_column(rng, g, s, t, stm):
    return put(stm, t, with_element(rng, t, fk_el(rng, rng.choice(list(t.cols)), rng.choice(list(s.tables)), "no_such_column")))


def inj_constraint_on_missing_column(rng, g, s, t, stm):
    ft = rng.choice(list(s.tables.values()))
    return put(stm, t, with_element(rng, t, fk_el(rng, "no_such_column", ft.name, list(ft.cols)[0])))


def inj_constraint_between_types(rng, g, s, t, stm):
    cols = [(a.name, x.name, b.name) for a in t.cols.values() for x in s.tables.values() for b in x.cols.values() if a.type != b.type]
    if not cols:
        return None
    a, x, b = rng.choice(cols)
    q = with_element(rng, t, fk_el(rng, a, x, b))
    return put(stm, t, q)


def inj_key_on_missing_column(rng, g, s, t, stm):
    el = "%s `zz_bad` (%s)" % (rng.choice(["KEY", "UNIQUE KEY", "INDEX"]), rng.choice(["`no_such_column`", "`%s`, `no_such_column`" % list(t.cols)[0]]))
    return put(stm, t, with_element(rng, t, el))


def inj_missing_semicolon(rng, g, s, t, stm):
    n = at(stm, t)
    stm[n] = stm[n].rstrip().rstrip(";") + rng.choice(["", " ", "\n"])
    if rng.random() < 0.4:
        stm.append(stm.pop(n))
    return stm


def inj_text_with_default(rng, g, s, t, stm):
    return put(stm, t, with_element(rng, t, "`zz_text` %s DEFAULT 'x'" % rng.choice(["TEXT", "MEDIUMTEXT", "LONGTEXT"]), "start"))


def inj_unsupported_statement(rng, g, s, t, stm):
    stm.insert(rng.randint(0, len(stm)), rng.choice(UNSUPPORTED))
    return stm


def inj_unclosed_quote(rng, g, s, t, stm):
    stm.append("INSERT INTO `%s` (`id`) VALUES ('%s);" % (t.name, rng.choice(["1", "abc\\'", "''"])))
    return stm


def inj_unclosed_table(rng, g, s, t, stm):
    n = at(stm, t)
    toks = sqllex.tokenize(stm[n])
    last = [x for x in toks if x.kind == "p" and x.val == ")"][-1]
    if t.options:
        return None
    stm[n] = stm[n][: last.pos] + stm[n][last.pos + 1 :]
    return stm


def inj_enum_default_not_among_values(rng, g, s, t, stm):
    return put(stm, t, with_element(rng, t, "`zz_enum` ENUM('a','b') DEFAULT '%s'" % rng.choice(["c", "", "A,b", "ab"]), "start"))


def inj_two_auto_increments(rng, g, s, t, stm):
    if not any(c.auto for c in t.cols.values()):
        return None
    return put(stm, t, with_element(rng, t, "`zz_auto` INT NOT NULL AUTO_INCREMENT", rng.choice(["start", "end"])))


def inj_unsupported_column_attribute(rng, g, s, t, stm):
    el = rng.choice(["`zz` INT GENERATED ALWAYS AS (1) VIRTUAL", "`zz` INT CHECK (zz > 0)", "`zz` GEOMETRY SRID 4326", "`zz` INT NOT NULL DEFAULT (1+1)",
                     "`zz` VARCHAR(5) INVISIBLE", "`zz` INT AS (a+1) STORED", "FULLTEXT KEY `zz` (`%s`)" % list(t.cols)[0],
                     "SPATIAL INDEX `zz` (`%s`)" % list(t.cols)[0], "CHECK (1 > 0)", "CONSTRAINT `zz` CHECK (1 > 0)", "KEY ((1+1))",
                     "KEY `zz` (`%s`) USING" % list(t.cols)[0], "`zz` INT REFERENCES `%s` (`id`)" % t.name])
    return put(stm, t, with_element(rng, t, el, rng.choice(["start", "end"])))


def inj_malformed_column(rng, g, s, t, stm):
    """Attributes which are unfinished, contradictory or of another type: MySQL refuses all of these."""
    el = rng.choice(["INT DEFAULT 1 DEFAULT 2", "INT DEFAULT NULL DEFAULT 1", "VARCHAR(5) UNSIGNED", "DATETIME UNSIGNED", "INT(abc)", "INT(-1)", "INT(1,2)", "VARCHAR()",
                     "ENUM()", "DECIMAL(10,)", "DECIMAL(,2)", "INT DEFAULT", "INT NOT", "INT AUTO", "VARCHAR(5) CHARACTER SET", "VARCHAR(5) COLLATE",
                     "VARCHAR(5) CHARACTER SET utf8 CHARACTER SET latin1", "ENUM('a') CHARACTER SET utf8 CHARACTER SET latin1", "INT AUTO_INCREMENT DEFAULT 5",
                     "VARCHAR(5) AUTO_INCREMENT", "FOO", "INT5", "INT DEFAULT 'abc'", "INT DEFAULT NOW()", "INT DEFAULT CURRENT_TIMESTAMP", "DATETIME ON UPDATE", "INT COMMENT",
                     "FLOAT(5", "INT DEFAULT -", "INT DEFAULT 1-1", "BLOB DEFAULT 'x'", "DECIMAL(10,2", "VARCHAR(5", "ENUM('a','b'", "INT NOT NULL DEFAULT 1 DEFAULT 1.5"])
    return put(stm, t, with_element(rng, t, "`zz` " + el, rng.choice(["start", "end"])))


def inj_null_and_not_null(rng, g, s, t, stm):
    """The last one counts for MySQL."""
    el = rng.choice(["INT NOT NULL NULL", "INT NOT NULL DEFAULT 1 NULL", "VARCHAR(5) NOT NULL DEFAULT 'x' NULL", "DATETIME NOT NULL NULL", "DECIMAL(5,2) NOT NULL DEFAULT 1 NULL",
                     "ENUM('a','b') NOT NULL DEFAULT 'a' NULL", "TEXT NOT NULL NULL", "DATE NOT NULL NULL"])
    return put(stm, t, with_element(rng, t, "`zz` " + el, rng.choice(["start", "end"])))


def inj_malformed_key(rng, g, s, t, stm):
    n = rng.choice(list(t.cols))
    el = rng.choice(["KEY `zz` ()", "KEY `zz`", "UNIQUE KEY `zz` (`%s`) foo" % n, "UNIQUE `zz`", "KEY `zz` (`%s`" % n, "KEY `zz` `%s`" % n])
    return put(stm, t, with_element(rng, t, el))


def inj_malformed_constraint(rng, g, s, t, stm):
    """A foreign key whose actions contradict each other, or which is unfinished."""
    fks = [(x, f) for x in s.tables.values() for f in x.fks.values()]
    if not fks:
        return None
    x, f = rng.choice(fks)
    acts = ["CASCADE", "NO ACTION", "RESTRICT"] + ["SET NULL"] * bool(x.cols[f.col].null)
    on = rng.choice(["DELETE", "UPDATE"])
    a, b = rng.sample(acts, 2)
    full = "FOREIGN KEY (`%s`) REFERENCES `%s` (`%s`)" % (f.col, f.ref_table, f.ref_col)
    name = rng.choice(["CONSTRAINT `%s` " % f.name, "CONSTRAINT `%s` " % f.name, ""])
    el = rng.choice([name + full + " ON %s %s ON %s %s" % (on, a, on, b)] * 4 + [name + full + " ON " + on, name + full + " ON %s FOO" % on, name + full + " ON " + a, name + full + " " + on + " " + a,
                    name + full.rsplit(" ", 1)[0], name + full.rsplit(" ", 2)[0], name + "FOREIGN KEY REFERENCES `%s` (`%s`)" % (f.ref_table, f.ref_col), name + "FOREIGN KEY (`%s`)" % f.col,
                    name + full + " ON %s %s ON" % (on, a), name + full[:-1], name + full.replace("(`%s`)" % f.ref_col, "(`%s`,`%s`)" % (f.ref_col, f.ref_col))])
    bare = x.copy()
    bare.fks.pop(f.name)
    return put(stm, x, with_element(rng, bare, el))


INJECT = {k[4:]: v for k, v in list(globals().items()) if k.startswith("inj_")}


# ---------------------------------------------------------------------------------------------


class OddServer(server.Server):
    """A server that prints one table in an unusual way."""

    odd = None

    def show_create(self, name):
        text = super().show_create(name)
        if self.odd and name == self.odd[0]:
            return self.odd[1](text)
        return text


def lines_edit(fn):
    def edit(text):
        lines = text.split("\n")
        return "\n".join(fn(lines))

    return edit


def odd_edits(rng):
    """[(name, text -> text)]"""
    def after_first(s):
        return lines_edit(lambda x: x[:2] + ["  " + s + ","] + x[2:] if len(x) > 3 else x[:1] + ["  " + s + ","] + x[1:])

    def before_last(s):
        return lines_edit(lambda x: x[:-2] + [x[-2] + ",", "  " + s] + x[-1:])

    cut = rng.random()
    return [
        ("generated column", after_first("`zz_gen` int(11) GENERATED ALWAYS AS (`id` + 1) VIRTUAL")),
        ("fulltext key", before_last("FULLTEXT KEY `zz_ft` (`id`)")),
        ("spatial key", before_last("SPATIAL KEY `zz_sp` (`id`)")),
        ("check constraint", before_last("CONSTRAINT `zz_check` CHECK ((`id` > 0))")),
        ("expression default", after_first("`zz_expr` varchar(36) NOT NULL DEFAULT (uuid())")),
        ("geometry with srid", after_first("`zz_geo` point NOT NULL /*!80003 SRID 0 */")),
        ("functional key", before_last("KEY `zz_fn` ((lower(`id`)))")),
        ("prefix key", before_last("KEY `zz_pre` (`id`(10))")),
        ("descending key", before_last("KEY `zz_desc` (`id` DESC)")),
        ("comment on a column", after_first("`zz_c` int(11) DEFAULT NULL COMMENT 'what, (it) is; `x`'")),
        ("two column foreign key", before_last("CONSTRAINT `zz_two` FOREIGN KEY (`id`, `zz`) REFERENCES `zz_t` (`a`, `b`)")),
        ("invisible column", after_first("`zz_inv` int DEFAULT NULL /*!80023 INVISIBLE */")),
        ("column named like a keyword", after_first("`key` int(11) DEFAULT NULL")),
        ("on update column", after_first("`zz_ts` timestamp NOT NULL DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP")),
        ("cut off", lambda t: t[: max(1, int(cut * (len(t) - 1)))]),
        ("empty", lambda t: ""),
        ("a view", lambda t: "CREATE ALGORITHM=UNDEFINED DEFINER=`root`@`localhost` SQL SECURITY DEFINER VIEW `x` AS select 1 AS `1`"),
        ("fractional time", after_first("`zz_frac` datetime(6) DEFAULT NULL")),
        ("nonsense", after_first("`zz_bad nonsense")),
        ("zero fill", after_first("`zz_zf` int(5) unsigned zerofill DEFAULT NULL")),
        ("double with scale", after_first("`zz_d` double(10,2) DEFAULT NULL")),
        ("named primary key with using", before_last("KEY `zz_btree` (`id`) USING BTREE")),
        ("key comment", before_last("KEY `zz_kc` (`id`) COMMENT 'zz; (x)'")),
    ]


def odd_live(c):
    rng = c.rng
    g = gen.Gen(rng, rows=False)
    want = g.schema(ntables=rng.randint(1, 3), nfks=rng.choice([0, 1]))
    srv = tool.live(want, rng.choice(world.FLAVOURS))
    srv.__class__ = OddServer
    name = rng.choice(list(want.tables))
    what, edit = rng.choice(odd_edits(rng))
    if "id" not in want.tables[name].cols and "`id`" in edit("CREATE TABLE `x` (\n  `a` int,\n  `b` int,\n  `c` int\n)"):
        raise Skip("no id column")
    srv.odd = (name, edit)
    printed = srv.show_create(name)
    c.count("odd_live_tables")
    c.count("odd_" + what.replace(" ", "_"))
    c.context = {"printed": printed, "oddity": what, "table": name}
    c.fingerprint = world.digest(printed)
    c.nontrivial = True
    declared_has = rng.random() < 0.7
    files = render.schema_sql(want if declared_has else M.Schema([t for t in want.tables.values() if t.name != name and not any(
        f.ref_table == name for f in t.fks.values())]))
    files = "\n".join(files)
    for cmd in ("plan", "apply"):
        budget(files + printed)
        r = tool.run(cmd, srv, files)
        if r.exc is not None:
            if isinstance(r.exc, server.Rejected):
                # the text read from the server was changed, the plan made from it may not fit
                c.count("plan_does_not_fit")
                break
            if r.writes:
                c.violation("%s breaks off with %r after changing the server" % (cmd, r.exc), sent=r.sent, **c.context)
            c.count("odd_exception")
            continue
        if r.ok is False:
            c.count("odd_refused")
            if r.writes:
                c.violation("%s is refused but has sent %r" % (cmd, r.writes[0]), sent=r.sent, **c.context)
                return
            continue
        if cmd == "plan":
            c.count("odd_understood")
            c.seen("odd_understood_kinds", what)
            db = tool.read_live(srv)
            lost = [w for w in lost_words(printed, db) if w.kind == "quoted" or w.kind == "str" or w.kind == "word"]
            lost = [w for w in lost if w.val not in ("CHARSET", "ENGINE")]
            if name not in db.tables:
                c.violation("the live table %s is treated as absent" % name, **c.context)
                return
            if lost:
                c.violation("the live table is accepted, but %r is not found in what was read" % lost[0].val, **c.context)
                return
            for w in r.cmds:
                if w.upper().startswith("CREATE TABLE `%s`" % name.upper()):
                    c.violation("the plan creates the live table %s" % name, **c.context)
            break  # applying would run statements made for the changed text


# ---------------------------------------------------------------------------------------------


def garbage(c):
    rng = c.rng
    k = rng.randrange(7)
    if k == 0:
        text = "".join(rng.choice(BITS + ["CREATE TABLE t (", "INSERT INTO t (", "VALUES (", "'a'", "id", "INT"]) + rng.choice(["", " "]) for _ in range(rng.randint(1, 80)))
    elif k == 1:
        text = "".join(chr(rng.choice([rng.randint(32, 126), rng.randint(9, 13), rng.randint(128, 0x2FFF)])) for _ in range(rng.randint(1, 200)))
    elif k == 2:
        n = rng.randint(1, 300)
        text = rng.choice(["(", "CREATE TABLE t (", "/*", "-- x\n", "'", "INSERT INTO t (a) VALUES (1);", ";", "\\'", "`", "CREATE TABLE ", "--", "#\n"]) * n
    elif k == 3:
        text = "CREATE TABLE t (id INT NOT NULL, PRIMARY KEY (id));INSERT INTO t (id) VALUES " + ",".join("(%d)" % i for i in range(rng.choice([10, 300, 1100]))) + ";"
    elif k == 4:
        text = "CREATE TABLE t (id INT NOT NULL, %s, PRIMARY KEY (id));" % ", ".join("c%d INT" % i for i in range(rng.choice([5, 100, 400])))
    elif k == 5:
        text = "INSERT INTO t (a) VALUES ('%s');" % (rng.choice(["\\", "\\'", "''", "'", ",", ")", "x"]) * rng.randint(1, 400))
    else:
        g, s = small_schema(c)
        toks = [x for q in render.schema_sql(s) for x in q.replace("(", " ( ").split(" ")]
        rng.shuffle(toks)
        text = " ".join(toks[:150])
    c.count("garbage")
    judge(c, text, text, ["garbage%d" % k])


def index_prefix():
    db = tool.read("CREATE TABLE t (id INT NOT NULL, n VARCHAR(50), PRIMARY KEY (id), KEY p (n(10)));")
    return not db.errors and "10" not in db.tables["t"].nice()


FINDINGS = {"index-prefix": index_prefix}
