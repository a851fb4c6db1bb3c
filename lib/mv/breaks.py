"""Ways to break (or almost break) a valid schema, on the model.  What is broken in the end is decided by valid.problems."""
from . import gen, model as M

TEXT = ("tinytext", "text", "mediumtext", "longtext", "tinyblob", "blob", "mediumblob", "longblob", "json")


def pick_col(rng, s, pred):
    xs = [(t, c) for t in s.tables.values() for c in t.cols.values() if pred(t, c)]
    return rng.choice(xs) if xs else (None, None)


def is_end(s, t, c):
    return any((t.name == x.name and f.col == c.name) or (f.ref_table == t.name and f.ref_col == c.name) for x in s.tables.values() for f in x.fks.values())


def free(s):
    return lambda t, c: not is_end(s, t, c) and not any(c.name in i.cols for i in t.idxs.values())


def new_type(rng, c, t, **kw):
    """A column of another type, otherwise valid."""
    return M.Col(c.name, t, null=c.null, **kw)


def b_numeric_default(rng, g, s):
    t, c = pick_col(rng, s, lambda t, c: c.type in M.NUMERIC_TYPES and not c.auto)
    if c is None:
        return
    c.default = ("num", rng.choice(["abc", "1x", "", "1.5", "2.0", "1e2", "0x1"]))
    return "default %r of %s" % (c.default[1], c.type)


def b_bit(rng, g, s):
    t, c = pick_col(rng, s, free(s))
    if c is None:
        return
    t.cols[c.name] = new_type(rng, c, "bit", args=rng.choice([None, ("1",), ("8",), ("2",)]), default=("num", rng.choice(["0", "1", "2", "5"])), unsigned=rng.random() < 0.15)
    return "bit column"


def b_float_length(rng, g, s):
    t, c = pick_col(rng, s, lambda t, c: c.type in M.FLOAT_TYPES) if rng.random() < 0.3 else pick_col(rng, s, free(s))
    if c is None:
        return
    t.cols[c.name] = new_type(rng, c, rng.choice(M.FLOAT_TYPES), args=rng.choice([("10",), ("10", "2")]))
    return "float length"


def b_int_length(rng, g, s):
    t, c = pick_col(rng, s, lambda t, c: c.type in M.INT_TYPES)
    if c is None:
        return
    c.args = ("5", "2")
    return "integer length with fraction"


def b_charset(rng, g, s):
    t, c = pick_col(rng, s, lambda t, c: True)
    if c is None:
        return
    cs, co = rng.choice(gen.CHARSETS)
    k = rng.randrange(3)
    if k != 0:
        c.charset = cs if c.type not in M.BIN_TYPES or rng.random() < 0.5 else "binary"
    if k != 1:
        c.collate = co if c.type not in M.BIN_TYPES or rng.random() < 0.5 else "binary"
    return "charset or collation on %s" % c.type


def b_auto(rng, g, s):
    t, c = pick_col(rng, s, lambda t, c: not c.auto)
    if c is None:
        return
    c.auto = True
    c.default = None
    return "auto increment on %s" % c.type


def b_not_auto(rng, g, s):
    t, c = pick_col(rng, s, lambda t, c: c.auto)
    if c is None:
        return
    c.auto = False
    return "no auto increment"


def b_values(rng, g, s):
    t, c = pick_col(rng, s, lambda t, c: c.type not in M.ENUM_TYPES)
    if c is None:
        return
    c.values = ("a", "b")
    c.args = None
    return "values on %s" % c.type


def b_text_default(rng, g, s):
    t, c = pick_col(rng, s, free(s))
    if c is None:
        return
    t.cols[c.name] = new_type(rng, c, rng.choice(TEXT), default=rng.choice([("str", "x"), ("str", ""), ("str", "0")]))
    return "default on text"


def b_text_length(rng, g, s):
    t, c = pick_col(rng, s, free(s))
    if c is None:
        return
    t.cols[c.name] = new_type(rng, c, rng.choice(TEXT), args=("10",))
    return "length on text"


def b_date_length(rng, g, s):
    t, c = pick_col(rng, s, free(s))
    if c is None:
        return
    t.cols[c.name] = new_type(rng, c, rng.choice(["date", "datetime", "timestamp", "time", "year"]), args=("4",))
    return "length on date"


def b_unsigned(rng, g, s):
    t, c = pick_col(rng, s, lambda t, c: True)
    if c is None:
        return
    c.unsigned = not c.unsigned
    return "sign of %s" % c.type


def b_enum_default(rng, g, s):
    t, c = pick_col(rng, s, lambda t, c: c.type in M.ENUM_TYPES) if rng.random() < 0.5 else (None, None)
    if c is None:
        t, c = pick_col(rng, s, free(s))
        if c is None:
            return
        c = t.cols[c.name] = new_type(rng, c, rng.choice(M.ENUM_TYPES), values=("a", "b", "c d"))
    c.default = ("str", rng.choice(list(c.values or []) + ["zz", "", "a,b", "b,a", "a,zz", "a,", " a", "c d,b", ","]))
    return "enum default %r" % c.default[1]


def b_enum_values(rng, g, s):
    t, c = pick_col(rng, s, free(s))
    if c is None:
        return
    t.cols[c.name] = new_type(rng, c, rng.choice(M.ENUM_TYPES), values=rng.choice([None, ("x",), ()]))
    return "enum without values"


def b_index_column(rng, g, s):
    xs = [(t, i) for t in s.tables.values() for i in t.idxs.values()]
    if not xs:
        return
    t, i = rng.choice(xs)
    cols = list(i.cols)
    if rng.random() < 0.5:
        cols[rng.randrange(len(cols))] = "nowhere"
    else:
        cols.insert(rng.randint(0, len(cols)), "nowhere_%d" % rng.randint(1, 3))
    i.cols = tuple(cols)
    return "index on a missing column"


def b_drop_column(rng, g, s):
    t, c = pick_col(rng, s, lambda t, c: len(t.cols) > 1)
    if c is None:
        return
    del t.cols[c.name]
    return "column dropped"


def b_drop_index(rng, g, s):
    xs = [(t, k) for t in s.tables.values() for k in t.idxs]
    if not xs:
        return
    t, k = rng.choice(xs)
    del t.idxs[k]
    return "index dropped"


def b_index_order(rng, g, s):
    xs = [(t, i) for t in s.tables.values() for i in t.idxs.values() if len(i.cols) > 1]
    if not xs:
        return
    t, i = rng.choice(xs)
    i.cols = tuple(reversed(i.cols))
    return "index columns reversed"


def b_long_name(rng, g, s):
    n = rng.choice([63, 64, 65, 66, 80])
    if rng.random() < 0.5:
        xs = [(t, i) for t in s.tables.values() for i in t.idxs.values() if i.kind != "PRIMARY"]
        if not xs:
            return
        t, i = rng.choice(xs)
        new = ("i" + i.name * 30)[:n]
        if new in t.idxs:
            return
        t.idxs = {(new if k == i.name else k): v for k, v in t.idxs.items()}
        i.name = new
    else:
        xs = [(t, f) for t in s.tables.values() for f in t.fks.values()]
        if not xs:
            return
        t, f = rng.choice(xs)
        new = ("f" + f.name * 30)[:n]
        if new in t.fks:
            return
        t.fks = {(new if k == f.name else k): v for k, v in t.fks.items()}
        f.name = new
    return "name of %d characters" % n


def fk(rng, s):
    xs = [(t, f) for t in s.tables.values() for f in t.fks.values()]
    return rng.choice(xs) if xs else (None, None)


def b_fk_target(rng, g, s):
    t, f = fk(rng, s)
    if f is None:
        return
    k = rng.randrange(4)
    if k == 0:
        f.ref_table = rng.choice(["no_table", f.ref_table + "x"])
    elif k == 1:
        f.ref_col = rng.choice(["no_column"] + [c for x in s.tables.values() for c in x.cols])
    elif k == 2:
        f.col = rng.choice(["no_column"] + list(t.cols))
    else:
        f.ref_table = rng.choice(list(s.tables))
    return "foreign key target"


def b_fk_end(rng, g, s):
    t, f = fk(rng, s)
    if f is None:
        return
    tn, cn = rng.choice([(t.name, f.col), (f.ref_table, f.ref_col)])
    c = s.tables.get(tn) and s.tables[tn].cols.get(cn)
    if c is None:
        return
    k = rng.randrange(4)
    if k == 0:
        c.type, c.args = rng.choice([("int", None), ("bigint", None), ("varchar", ("20",)), ("char", ("20",)), ("smallint", None)])
        c.default, c.unsigned, c.values, c.charset, c.collate = None, False, None, None, None
        if c.type in M.CHAR_TYPES:
            c.auto = False
    elif k == 1 and c.type in M.INT_TYPES + M.CHAR_TYPES:
        c.args = rng.choice([("7",), ("11",), ("30",)])
    elif k == 2 and c.type in M.INT_TYPES:
        c.unsigned = not c.unsigned
        if c.unsigned and c.default and c.default[0] == "num":
            c.default = ("num", "0")
    elif k == 3 and c.type in M.CHAR_TYPES:
        c.charset, c.collate = rng.choice(gen.CHARSETS + [(None, None), ("utf8", None), (None, "utf8_bin")])
    return "type of one end of a foreign key"


def b_fk_action(rng, g, s):
    t, f = fk(rng, s)
    if f is None:
        return
    a = rng.choice(["SET NULL", "SET DEFAULT", "CASCADE", "SET NOTHING", "DELETE", "NO ACTION", "RESTRICT"])
    if rng.random() < 0.5:
        f.on_delete = a
    else:
        f.on_update = a
    if rng.random() < 0.4 and f.col in t.cols and not t.cols[f.col].auto and not (t.primary and f.col in t.primary.cols):
        c = t.cols[f.col]
        c.null = not c.null
        if not c.null and c.default and c.default[0] == "null":
            c.default = None
    return "action"


def b_fk_name(rng, g, s):
    xs = [(t, f) for t in s.tables.values() for f in t.fks.values()]
    if len(xs) < 2:
        return
    (a, f), (b, h) = rng.sample(xs, 2)
    if a is b:
        return
    if f.name in b.fks:
        return
    b.fks = {(f.name if k == h.name else k): v for k, v in b.fks.items()}
    h.name = f.name
    return "constraint name used twice"


def b_fk_sidx(rng, g, s):
    """Takes the index at one end of a foreign key away, or only its first place."""
    t, f = fk(rng, s)
    if f is None:
        return
    tn, cn = rng.choice([(t.name, f.col), (f.ref_table, f.ref_col)])
    x = s.tables.get(tn)
    if x is None:
        return
    for k, i in list(x.idxs.items()):
        if i.cols[0] == cn:
            others = [o for o in x.cols if o not in i.cols]
            if rng.random() < 0.5 or not others:
                del x.idxs[k]
            else:
                i.cols = (rng.choice(others),) + i.cols
    return "index of a foreign key"


def b_no_columns(rng, g, s):
    if rng.random() < 0.7:
        return
    t = rng.choice(list(s.tables.values()))
    t.cols.clear()
    t.rows = None
    return "no columns"


def b_drop_table(rng, g, s):
    if len(s.tables) < 2:
        return
    del s.tables[rng.choice(list(s.tables))]
    return "table dropped"


ALL = [v for k, v in sorted(globals().items()) if k.startswith("b_")]
# rules whose violation can be written down in SQL that the tool reads word by word
