"""Reference validator: the rules of C09 over the abstract model, independent of mygrations."""
import re

from . import model as M

ACTIONS = ("CASCADE", "NO ACTION", "RESTRICT", "SET DEFAULT", "SET NULL")
NUM = re.compile(r"^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")
INT = re.compile(r"^[+-]?\d+$")


def col_problems(c):
    """[rule] broken by one column on its own."""
    out = []
    t = c.type
    d = c.default
    has_val = d is not None and d[0] != "null"
    if t in M.NUMERIC_TYPES:
        if has_val:
            if not NUM.match(d[1]):
                out.append("numeric-default-string")
            else:
                if t in M.INT_TYPES + ("bit",) and not INT.match(d[1]):
                    out.append("integer-default-fraction")
                if t == "bit" and (not c.args or int(c.args[0]) == 1) and float(d[1]) not in (0, 1):
                    out.append("bit-default-range")
        if c.args:
            if t in M.FLOAT_TYPES:
                out.append("float-length")
            elif len(c.args) > 1 and t != "decimal":
                out.append("integer-length-fraction")
        if c.charset or c.collate:
            out.append("charset-on-number")
        if c.auto and t in M.FLOAT_TYPES + ("bit", "decimal"):
            out.append("auto-increment-type")
        if c.unsigned and t == "bit":
            out.append("unsigned-type")
        if c.values:
            out.append("values-on-other-type")
    elif t in M.DATE_TYPES:
        if c.args and t != "year":
            out.append("date-length")
        if c.charset or c.collate:
            out.append("charset-on-date")
        if c.auto:
            out.append("auto-increment-type")
        if c.values:
            out.append("values-on-other-type")
        if c.unsigned:
            out.append("unsigned-type")
    else:
        if d is not None and t in M.NO_DEFAULT_TYPES:
            out.append("default-on-text")
        if c.auto:
            out.append("auto-increment-type")
        if c.charset or c.collate:
            if t not in M.CHAR_TYPES + M.BIN_TYPES + M.ENUM_TYPES:
                out.append("charset-on-text")
            elif t in M.BIN_TYPES and {(c.charset or "binary").lower(), (c.collate or "binary").lower()} != {"binary"}:
                out.append("charset-on-binary")
        if c.args and t not in M.CHAR_TYPES + M.BIN_TYPES:
            out.append("length-on-text")
        if c.values and t not in M.ENUM_TYPES:
            out.append("values-on-other-type")
        if c.unsigned:
            out.append("unsigned-type")
        if t in M.ENUM_TYPES:
            if not c.values:
                out.append("enum-without-values")
            if has_val:
                vals = [d[1]] if t == "enum" else ([v for v in d[1].split(",")] if d[1] else [])
                if set(vals) - set(c.values or ()):
                    out.append("enum-default")
    return out


def raw_length(c):
    if c.type in M.ENUM_TYPES:
        return ()
    return tuple(c.args or ())


def effective(t, c, attr):
    """Charset or collation of a column, which it may have from its table."""
    v = getattr(c, attr)
    if v is None and not (attr == "collate" and c.charset):
        v = {k.upper().replace("DEFAULT ", "").replace("CHARACTER SET", "CHARSET"): x for k, x in t.options or ()}.get(attr.upper())
    return M.norm_charset(v)


def fk_problem(schema, t, f):
    """First rule broken by a foreign key, or None (the tool names each broken key once)."""
    ft = schema.tables.get(f.ref_table)
    if ft is None:
        return "fk-no-table"
    fc = ft.cols.get(f.ref_col)
    if fc is None:
        return "fk-no-foreign-column"
    c = t.cols.get(f.col)
    if c is None:
        return "fk-no-column"
    if not t.indexed(f.col):
        return "fk-no-index"
    if c.type != fc.type:
        return "fk-type"
    if raw_length(c) != raw_length(fc):
        return "fk-length"
    for attr, rule in (("charset", "fk-charset"), ("collate", "fk-collate")):
        if M.norm_charset(getattr(c, attr)) != M.norm_charset(getattr(fc, attr)) and effective(t, c, attr) != effective(ft, fc, attr):
            return rule
    if bool(c.unsigned) != bool(fc.unsigned):
        return "fk-sign"
    if "SET NULL" in (f.on_delete, f.on_update) and not c.null:
        return "fk-set-null"
    if not ft.indexed(f.ref_col):
        return "fk-no-foreign-index"
    return None


def problems(schema):
    """[(rule, table, object name)]"""
    out = []
    fk_seen = {}
    for t in schema.tables.values():
        if not t.cols:
            out.append(("no-columns", t.name, t.name))
        for c in t.cols.values():
            for r in col_problems(c):
                out.append((r, t.name, c.name))
        for i in t.idxs.values():
            if len(i.name) > 64:
                out.append(("name-length", t.name, i.name))
            for c in i.cols:
                if c not in t.cols:
                    out.append(("index-column", t.name, i.name if i.kind != "PRIMARY" else c))
        autos = [c for c in t.cols.values() if c.auto]
        pk = t.primary
        if len(autos) > 1:
            out.append(("two-auto-increments", t.name, t.name))
        elif autos and pk is None:
            out.append(("auto-increment-no-primary", t.name, t.name))
        elif autos and pk.cols[0] != autos[0].name:
            out.append(("auto-increment-not-primary", t.name, autos[0].name))
        for f in t.fks.values():
            if len(f.name) > 64:
                out.append(("name-length", t.name, f.name))
            r = fk_problem(schema, t, f)
            if r:
                out.append((r, t.name, f.name))
            for a in (f.on_delete, f.on_update):
                if a and a not in ACTIONS:
                    out.append(("fk-action", t.name, f.name))
            if f.name in fk_seen:
                out.append(("fk-duplicate-name", t.name, f.name))
            fk_seen[f.name] = t.name
    return out
