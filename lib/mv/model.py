"""Abstract schema model shared by the generators, the server model and the oracles.

Nothing here is imported from mygrations.
"""
import re
from decimal import Decimal, InvalidOperation, ROUND_HALF_UP

INT_TYPES = ("tinyint", "smallint", "mediumint", "int", "bigint")
FLOAT_TYPES = ("float", "double")
CHAR_TYPES = ("char", "varchar")
BIN_TYPES = ("binary", "varbinary")
TEXT_TYPES = ("tinytext", "text", "mediumtext", "longtext")
BLOB_TYPES = ("tinyblob", "blob", "mediumblob", "longblob")
DATE_TYPES = ("date", "datetime", "timestamp", "time", "year")
ENUM_TYPES = ("enum", "set")
NO_DEFAULT_TYPES = TEXT_TYPES + BLOB_TYPES + ("json",)
NUMERIC_TYPES = INT_TYPES + FLOAT_TYPES + ("decimal", "bit")
STRINGY = CHAR_TYPES + TEXT_TYPES + ENUM_TYPES

SYNONYMS = {
    "integer": "int", "int4": "int", "int8": "bigint", "int2": "smallint", "int1": "tinyint", "middleint": "mediumint",
    "numeric": "decimal", "dec": "decimal", "fixed": "decimal", "real": "double", "character": "char",
    "float8": "double", "float4": "float",
}


class Col:
    __slots__ = ("name", "type", "args", "unsigned", "null", "default", "auto", "charset", "collate", "values",
                 "on_update", "comment")

    def __init__(self, name, type, args=None, unsigned=False, null=True, default=None, auto=False, charset=None,
                 collate=None, values=None, on_update=False, comment=None):
        self.name = name
        self.type = type
        self.args = tuple(args) if args is not None else None
        self.unsigned = unsigned
        self.null = null
        self.default = default  # None | ("null",) | ("str", text) | ("num", text) | ("kw", text)
        self.auto = auto
        self.charset = charset
        self.collate = collate
        self.values = tuple(values) if values is not None else None
        self.on_update = on_update
        self.comment = comment

    def copy(self, **kw):
        d = {k: getattr(self, k) for k in Col.__slots__}
        d.update(kw)
        return Col(**d)

    def key(self):
        return tuple(getattr(self, k) for k in Col.__slots__)

    def __repr__(self):
        return "Col(%s)" % ", ".join("%s=%r" % (k, getattr(self, k)) for k in Col.__slots__ if getattr(self, k) not in (None, False))


class Idx:
    __slots__ = ("name", "kind", "cols", "auto")

    def __init__(self, name, kind, cols, auto=False):
        self.name = name  # "" for PRIMARY
        self.kind = kind  # PRIMARY | UNIQUE | INDEX
        self.cols = tuple(cols)
        self.auto = auto  # created by the server for a foreign key

    def copy(self, **kw):
        d = {k: getattr(self, k) for k in Idx.__slots__}
        d.update(kw)
        return Idx(**d)

    def __repr__(self):
        return "Idx(%s %s%s)" % (self.kind, self.name, list(self.cols))


class FK:
    __slots__ = ("name", "col", "ref_table", "ref_col", "on_delete", "on_update")

    def __init__(self, name, col, ref_table, ref_col, on_delete=None, on_update=None):
        self.name = name
        self.col = col
        self.ref_table = ref_table
        self.ref_col = ref_col
        self.on_delete = on_delete  # None | CASCADE | RESTRICT | NO ACTION | SET NULL
        self.on_update = on_update

    def copy(self, **kw):
        d = {k: getattr(self, k) for k in FK.__slots__}
        d.update(kw)
        return FK(**d)

    def __repr__(self):
        return "FK(%s: %s -> %s.%s %s/%s)" % (self.name, self.col, self.ref_table, self.ref_col, self.on_delete, self.on_update)


class Table:
    def __init__(self, name, cols=(), idxs=(), fks=(), options=(), rows=None, explicit=None):
        self.name = name
        self.cols = {c.name: c for c in cols}
        self.idxs = {(i.name if i.kind != "PRIMARY" else "PRIMARY"): i for i in idxs}
        self.fks = {f.name: f for f in fks}
        self.options = list(options)  # [(name, value)]
        self.rows = rows  # None (untracked) or list of dict colname -> text | None   (declared side)
        self.explicit = explicit

    @property
    def primary(self):
        return self.idxs.get("PRIMARY")

    def copy(self):
        t = Table(self.name)
        t.cols = {k: v.copy() for k, v in self.cols.items()}
        t.idxs = {k: v.copy() for k, v in self.idxs.items()}
        t.fks = {k: v.copy() for k, v in self.fks.items()}
        t.options = list(self.options)
        t.rows = None if self.rows is None else [dict(r) for r in self.rows]
        t.explicit = self.explicit
        return t

    def indexed(self, col):
        return any(i.cols[0] == col for i in self.idxs.values())

    def __repr__(self):
        return "Table(%s, %r, %r, %r, rows=%r)" % (
            self.name, list(self.cols.values()), list(self.idxs.values()), list(self.fks.values()), self.rows)


class Schema:
    def __init__(self, tables=()):
        self.tables = {t.name: t for t in tables}

    def copy(self):
        return Schema([t.copy() for t in self.tables.values()])

    def __repr__(self):
        return "Schema(%r)" % list(self.tables.values())


# ---------------------------------------------------------------------------------------------
# normal forms (what counts as the same)


def norm_type(c):
    t = c.type
    if t in INT_TYPES:
        return (t, bool(c.unsigned))
    if t == "decimal":
        a = c.args or ("10", "0")
        if len(a) == 1:
            a = (a[0], "0")
        return (t, tuple(str(int(x)) for x in a), bool(c.unsigned))
    if t in FLOAT_TYPES:
        return (t, tuple(str(int(x)) for x in (c.args or ())), bool(c.unsigned))
    if t == "bit":
        return (t, tuple(c.args or ("1",)))
    if t in ("char", "binary"):
        return (t, tuple(c.args or ("1",)))
    if t in ("varchar", "varbinary"):
        return (t, tuple(c.args or ()))
    if t in ENUM_TYPES:
        return (t, c.values or None)
    return (t,)


def norm_default(c):
    """Observable default: None when there is none (or NULL)."""
    d = c.default
    if d is None or d[0] == "null" or c.type in NO_DEFAULT_TYPES:
        return None
    if d[0] == "kw":
        return ("kw", d[1].upper())
    if c.type in NUMERIC_TYPES:
        try:
            v = Decimal(d[1])
        except InvalidOperation:
            return ("bad", d[1])
        if c.type == "decimal":
            a = c.args or ("10", "0")
            scale = int(a[1]) if len(a) > 1 else 0
            v = v.quantize(Decimal(1).scaleb(-scale), rounding=ROUND_HALF_UP)
        elif c.type in INT_TYPES:
            v = v.quantize(Decimal(1), rounding=ROUND_HALF_UP)
        return ("num", v.normalize() + 0)
    return ("str", d[1])


def norm_action(a):
    return "RESTRICT" if a in (None, "", "RESTRICT", "NO ACTION") else a


def norm_charset(x):
    return None if x is None else x.lower().replace("utf8mb3", "utf8")


def norm_col(c, charset=True):
    n = (c.name, norm_type(c), bool(c.null), norm_default(c), bool(c.auto), bool(c.on_update))
    if charset:
        n += (norm_charset(c.charset), norm_charset(c.collate))
    return n


def cols_differ(a, b):
    """True when two columns are different in a way the tool promises to reconcile."""
    if norm_col(a, False) != norm_col(b, False):
        return True
    for attr in ("charset", "collate"):
        x, y = norm_charset(getattr(a, attr)), norm_charset(getattr(b, attr))
        if x and y and x != y:
            return True
    return False


def norm_fk(f):
    return (f.col, f.ref_table, f.ref_col, norm_action(f.on_delete), norm_action(f.on_update))


def index_multiset(t):
    return sorted((i.kind, i.cols) for i in t.idxs.values())


def diff_tables(have, want, fk_names=(), order=True):
    """List of human-readable differences of `have` from `want` (both model Tables)."""
    out = []
    if list(have.cols) != list(want.cols):
        if set(have.cols) != set(want.cols):
            out.append("columns %s instead of %s" % (list(have.cols), list(want.cols)))
        elif order:
            out.append("column order %s instead of %s" % (list(have.cols), list(want.cols)))
    for name, w in want.cols.items():
        h = have.cols.get(name)
        if h is not None and cols_differ(h, w):
            out.append("column %s is %r instead of %r" % (name, h, w))
    if index_multiset(have) != index_multiset(want):
        out.append("indexes %s instead of %s" % (index_multiset(have), index_multiset(want)))
    else:
        names = set(fk_names) | set(have.fks) | set(want.fks)
        for name, w in want.idxs.items():
            h = have.idxs.get(name)
            if h is None:
                # allowed only when the index that stands in for it differs by a constraint's name
                twins = [x for n, x in have.idxs.items() if n not in want.idxs and (x.kind, x.cols) == (w.kind, w.cols)]
                if not any(x.name in names or name in names for x in twins):
                    out.append("index %s missing (have %s)" % (name, sorted(have.idxs)))
            elif (h.kind, h.cols) != (w.kind, w.cols):
                out.append("index %s is %r instead of %r" % (name, h, w))
    hf = {n: norm_fk(f) for n, f in have.fks.items()}
    wf = {n: norm_fk(f) for n, f in want.fks.items()}
    if hf != wf:
        out.append("foreign keys %s instead of %s" % (hf, wf))
    return out


def diff_schemas(have, want, fk_names=(), order=None):
    out = []
    if set(have.tables) != set(want.tables):
        out.append("tables %s instead of %s" % (sorted(have.tables), sorted(want.tables)))
    for name, w in want.tables.items():
        h = have.tables.get(name)
        if h is None:
            continue
        o = True if order is None else order(name)
        out.extend("table %s: %s" % (name, d) for d in diff_tables(h, w, fk_names, o))
    return out


def row_id(c, v):
    """The id of a row as text: of a numeric column, however the number is written."""
    from fractions import Fraction

    if v is None or c is None or c.type not in NUMERIC_TYPES:
        return v
    m = re.fullmatch(r"\s*([+-]?)([0-9]*)\.?([0-9]*)(?:[eE]([+-]?[0-9]{1,2}))?\s*", v)
    if not m or not (m[2] or m[3]):
        return v
    x = Fraction(int(m[2] + m[3] or "0"), 10 ** len(m[3])) * Fraction(10) ** int(m[4] or 0)
    if m[1] == "-":
        x = -x
    if x.denominator == 1:
        return str(x.numerator)
    k = 0
    while (x * 10**k).denominator != 1:
        k += 1
    digits = str(abs(x * 10**k).numerator).rjust(k + 1, "0")
    return ("-" if x < 0 else "") + digits[:-k] + "." + digits[-k:]
