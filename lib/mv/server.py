"""A model of the MySQL server side: enough of the real one to run every statement a migration
sends, with the rules the server enforces even when FOREIGN_KEY_CHECKS=0, an event log at the
connection boundary, transactions for row changes, and fault injection.

Independent of mygrations: own lexer, parser, state and SHOW CREATE TABLE printer.
"""
import datetime
import re
from decimal import Decimal, InvalidOperation, ROUND_HALF_UP

import pymysql.err

from . import model as M
from .sqllex import LexError, RESERVED, tokenize

FLAVOURS = {
    # how SHOW CREATE TABLE prints things
    "mysql57": dict(int_width=True, quote_num=True, text_default_null=False, ts="CURRENT_TIMESTAMP", noaction="NO ACTION",
                    restrict=None, year="year(4)"),
    "mysql80": dict(int_width=False, quote_num=True, text_default_null=False, ts="CURRENT_TIMESTAMP", noaction=None,
                    restrict="RESTRICT", year="year"),
    "mariadb": dict(int_width=True, quote_num=False, text_default_null=True, ts="current_timestamp()",
                    noaction="NO ACTION", restrict=None, year="year(4)"),
}

INT_WIDTH = {"tinyint": (4, 3), "smallint": (6, 5), "mediumint": (9, 8), "int": (11, 10), "bigint": (20, 20)}
INT_BITS = {"tinyint": 8, "smallint": 16, "mediumint": 24, "int": 32, "bigint": 64}


class Rejected(Exception):
    """The server refuses the statement (internal form; the connection raises pymysql errors)."""

    def __init__(self, code, msg):
        super().__init__("(%s) %s" % (code, msg))
        self.code = code
        self.msg = msg


def err(code, msg):
    raise Rejected(code, msg)


# ---------------------------------------------------------------------------------------------
# parser


class P:
    def __init__(self, sql):
        self.sql = sql
        try:
            self.toks = tokenize(sql)
        except LexError as e:
            err(1064, "syntax error: %s" % e)
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.toks[j] if j < len(self.toks) else None

    def fail(self):
        t = self.peek()
        near = self.sql[t.pos : t.pos + 40] if t else "<end>"
        err(1064, "You have an error in your SQL syntax near %r" % near)

    def next(self):
        t = self.peek()
        if t is None:
            self.fail()
        self.i += 1
        return t

    def is_kw(self, *words, k=0):
        for n, w in enumerate(words):
            t = self.peek(k + n)
            if t is None or t.kind != "word" or t.val.lower() != w:
                return False
        return True

    def kw(self, *words):
        if self.is_kw(*words):
            self.i += len(words)
            return True
        return False

    def need(self, *words):
        if not self.kw(*words):
            self.fail()

    def is_p(self, ch):
        t = self.peek()
        return t is not None and t.kind == "p" and t.val == ch

    def p(self, ch):
        if self.is_p(ch):
            self.i += 1
            return True
        return False

    def need_p(self, ch):
        if not self.p(ch):
            self.fail()

    def ident(self):
        t = self.peek()
        if t is None:
            self.fail()
        if t.kind == "quoted":
            if t.val == "" or t.val.endswith(" "):
                err(1102, "Incorrect name %r" % t.val)
            if len(t.val) > 64:
                err(1059, "Identifier name %r is too long" % t.val)
            self.i += 1
            return t.val
        if t.kind == "word":
            if t.val.lower() in RESERVED:
                self.fail()
            if len(t.val) > 64:
                err(1059, "Identifier name %r is too long" % t.val)
            self.i += 1
            return t.val
        self.fail()

    def end(self):
        self.p(";")
        if self.peek() is not None:
            self.fail()

    def literal(self):
        """-> ("null",) | ("str", s) | ("num", s)"""
        if self.kw("null"):
            return ("null",)
        if self.kw("true"):
            return ("num", "1")
        if self.kw("false"):
            return ("num", "0")
        sign = ""
        if self.is_p("-") or self.is_p("+"):
            sign = "-" if self.next().val == "-" else ""
            t = self.next()
            if t.kind != "num":
                self.i -= 1
                self.fail()
            return ("num", sign + t.val)
        t = self.peek()
        if t is None or t.kind not in ("str", "num"):
            self.fail()
        self.i += 1
        if t.kind == "str":
            s = t.val
            while self.peek() is not None and self.peek().kind == "str":  # adjacent strings concatenate
                s += self.next().val
            return ("str", s)
        return ("num", t.val)

    # -- column definitions -------------------------------------------------------------------
    def name_or_str(self):
        t = self.peek()
        if t is not None and t.kind == "str":
            self.i += 1
            return t.val
        if self.is_kw("binary"):
            self.i += 1
            return "binary"
        return self.ident()

    def coldef(self, notes):
        name = self.ident()
        return self.coltype(name, notes)

    def coltype(self, name, notes):
        t = self.next()
        if t.kind != "word":
            self.i -= 1
            self.fail()
        ty = t.val.lower()
        c = M.Col(name, ty)
        extra = {"pk": False, "unique": False, "explicit_null": False, "null_conflict": False}
        if ty == "double" and self.kw("precision"):
            pass
        if ty in ("bool", "boolean"):
            c.type, c.args = "tinyint", ("1",)
        else:
            c.type = M.SYNONYMS.get(ty, ty)
        known = (M.INT_TYPES + M.FLOAT_TYPES + M.CHAR_TYPES + M.BIN_TYPES + M.TEXT_TYPES + M.BLOB_TYPES + M.DATE_TYPES
                 + M.ENUM_TYPES + ("decimal", "bit", "json"))
        if c.type not in known:
            self.i -= 1
            self.fail()
        if self.p("("):
            if c.type in M.ENUM_TYPES:
                vals = []
                while True:
                    t = self.next()
                    if t.kind != "str":
                        self.i -= 1
                        self.fail()
                    vals.append(t.val.rstrip(" "))
                    if not self.p(","):
                        break
                self.need_p(")")
                c.values = tuple(vals)
                if len(set(v.lower() for v in vals)) != len(vals):
                    err(1291, "Column %r has duplicated value in %s" % (name, c.type.upper()))
            else:
                args = []
                while True:
                    t = self.next()
                    if t.kind != "num" or not t.val.isdigit():
                        self.i -= 1
                        self.fail()
                    args.append(t.val)
                    if not self.p(","):
                        break
                self.need_p(")")
                maxargs = 2 if c.type in M.FLOAT_TYPES + ("decimal",) else 1
                if len(args) > maxargs or c.type in ("date", "json") or (c.type in M.TEXT_TYPES + M.BLOB_TYPES and c.type not in ("text", "blob")):
                    self.fail()
                c.args = tuple(args)
        if c.type in M.ENUM_TYPES and c.values is None:
            self.fail()
        if c.type in ("varchar", "varbinary") and c.args is None:
            self.fail()
        # type modifiers
        while True:
            if c.type in M.NUMERIC_TYPES and c.type != "bit" and self.kw("unsigned"):
                c.unsigned = True
            elif c.type in M.NUMERIC_TYPES and self.kw("signed"):
                pass
            elif c.type in M.NUMERIC_TYPES and self.kw("zerofill"):
                c.unsigned = True
            elif c.type in M.STRINGY and (self.kw("character", "set") or self.kw("charset")):
                c.charset = self.name_or_str()
            else:
                break
        late = False
        seen = set()
        while True:
            if self.kw("not", "null"):
                extra["null_conflict"] |= extra["explicit_null"]
                c.null = False
                late = True
                seen.add("not null")
            elif self.kw("null"):
                extra["null_conflict"] |= "not null" in seen
                extra["explicit_null"] = True
                c.null = True
                late = True
            elif self.kw("default"):
                if "default" in seen:
                    self.fail()
                seen.add("default")
                if self.is_kw("current_timestamp") or self.is_kw("now") or self.is_kw("localtimestamp"):
                    self.next()
                    if self.p("("):
                        if not self.is_p(")"):
                            self.next()
                        self.need_p(")")
                    c.default = ("kw", "CURRENT_TIMESTAMP")
                else:
                    c.default = self.literal()
                late = True
            elif self.kw("on", "update"):
                if not (self.kw("current_timestamp") or self.kw("now")):
                    self.fail()
                if self.p("("):
                    if not self.is_p(")"):
                        self.next()
                    self.need_p(")")
                c.on_update = True
                late = True
            elif self.kw("auto_increment"):
                c.auto = True
                late = True
            elif self.kw("primary", "key") or self.kw("primary"):
                extra["pk"] = True
                late = True
            elif self.kw("unique"):
                self.kw("key")
                extra["unique"] = True
                late = True
            elif self.kw("key"):
                extra["pk"] = True
                late = True
            elif self.kw("comment"):
                t = self.next()
                if t.kind != "str":
                    self.i -= 1
                    self.fail()
                c.comment = t.val
                late = True
            elif self.kw("collate"):
                c.collate = self.name_or_str()
                if c.type not in M.STRINGY + M.BIN_TYPES:
                    err(1302, "conflicting declarations: COLLATE on %s" % c.type)
            elif self.is_kw("character", "set") or self.is_kw("charset"):
                # MySQL's grammar has CHARACTER SET as part of the type only: after any other
                # attribute it is a syntax error.
                if c.type not in M.STRINGY:
                    self.fail()
                if not (late or c.collate):
                    self.fail()
                if notes is None:
                    self.fail()
                notes.append("late_charset")
                self.kw("character", "set") or self.kw("charset")
                c.charset = self.name_or_str()
            elif self.is_kw("unsigned") or self.is_kw("zerofill"):
                self.fail()
            else:
                break
        return c, extra

    def key_cols(self):
        self.need_p("(")
        cols = []
        while True:
            cols.append(self.ident())
            if self.p("("):  # prefix length
                t = self.next()
                if t.kind != "num":
                    self.i -= 1
                    self.fail()
                self.need_p(")")
            self.kw("asc") or self.kw("desc")
            if not self.p(","):
                break
        self.need_p(")")
        return cols

    def maybe_index_name(self):
        if self.is_p("("):
            return ""
        if self.kw("using"):
            self.ident()
            return ""
        return self.ident()

    def fk_tail(self, name):
        cols = self.key_cols()
        self.need("references")
        rt = self.ident()
        rc = self.key_cols()
        if len(cols) != 1 or len(rc) != 1:
            err(1239, "multi-column foreign keys are not modelled")
        f = M.FK(name, cols[0], rt, rc[0])
        while self.kw("on"):
            which = "on_delete" if self.kw("delete") else "on_update" if self.kw("update") else self.fail()
            if getattr(f, which) is not None:
                self.fail()
            if self.kw("cascade"):
                a = "CASCADE"
            elif self.kw("restrict"):
                a = "RESTRICT"
            elif self.kw("no", "action"):
                a = "NO ACTION"
            elif self.kw("set", "null"):
                a = "SET NULL"
            elif self.kw("set", "default"):
                a = "SET DEFAULT"
            else:
                self.fail()
            setattr(f, which, a)
        return f

    def table_element(self, notes):
        """-> ("col", Col, extra) | ("idx", Idx) | ("fk", FK)"""
        if self.is_kw("primary", "key"):
            self.kw("primary", "key")
            if self.kw("using"):
                self.ident()
            return ("idx", M.Idx("", "PRIMARY", self.key_cols()))
        if self.is_kw("unique"):
            self.kw("unique")
            self.kw("key") or self.kw("index")
            name = self.maybe_index_name()
            return ("idx", M.Idx(name, "UNIQUE", self.key_cols()))
        if self.is_kw("key") or self.is_kw("index"):
            self.next()
            name = self.maybe_index_name()
            i = M.Idx(name, "INDEX", self.key_cols())
            if self.kw("using"):
                self.ident()
            return ("idx", i)
        if self.is_kw("constraint"):
            self.next()
            name = ""
            if not (self.is_kw("foreign") or self.is_kw("unique") or self.is_kw("primary")):
                name = self.ident()
            if self.kw("foreign", "key"):
                self.opt_fk_index_name()
                return ("fk", self.fk_tail(name))
            if self.kw("unique"):
                self.kw("key") or self.kw("index")
                n2 = self.maybe_index_name()
                return ("idx", M.Idx(n2 or name, "UNIQUE", self.key_cols()))
            if self.kw("primary", "key"):
                return ("idx", M.Idx("", "PRIMARY", self.key_cols()))
            self.fail()
        if self.is_kw("foreign", "key"):
            self.kw("foreign", "key")
            self.opt_fk_index_name()
            return ("fk", self.fk_tail(""))
        c, extra = self.coldef(notes)
        return ("col", c, extra)

    def opt_fk_index_name(self):
        if not self.is_p("("):
            self.ident()

    def table_options(self):
        opts = []
        while self.peek() is not None and not self.is_p(";"):
            self.p(",")
            self.kw("default")
            if self.kw("character", "set"):
                name = "CHARSET"
            else:
                t = self.next()
                if t.kind != "word":
                    self.i -= 1
                    self.fail()
                name = t.val.upper()
            if name not in ("ENGINE", "CHARSET", "COLLATE", "AUTO_INCREMENT", "COMMENT", "ROW_FORMAT", "MIN_ROWS", "MAX_ROWS",
                            "AVG_ROW_LENGTH", "CHECKSUM", "KEY_BLOCK_SIZE", "PACK_KEYS", "STATS_PERSISTENT"):
                self.i -= 1
                self.fail()
            self.p("=")
            t = self.next()
            if t.kind not in ("word", "str", "num"):
                self.i -= 1
                self.fail()
            opts.append((name, t.val))
        return opts


def parse_create(sql, notes=None):
    """CREATE TABLE text -> (if_not_exists, name, elements, options)"""
    p = P(sql)
    p.need("create")
    p.need("table")
    ine = p.kw("if", "not", "exists")
    name = p.ident()
    p.need_p("(")
    els = []
    while True:
        els.append(p.table_element(notes))
        if not p.p(","):
            break
    p.need_p(")")
    opts = p.table_options()
    p.end()
    return ine, name, els, opts


# ---------------------------------------------------------------------------------------------
# values


def valid_default(c):
    d = c.default
    if d is None:
        return
    if d[0] == "null":
        if not c.null:
            err(1067, "Invalid default value for %r" % c.name)
        return
    if c.auto:
        err(1067, "Invalid default value for %r" % c.name)
    if c.type in M.NO_DEFAULT_TYPES:
        err(1101, "BLOB, TEXT, GEOMETRY or JSON column %r can't have a default value" % c.name)
    if d[0] == "kw":
        if c.type not in ("datetime", "timestamp"):
            err(1067, "Invalid default value for %r" % c.name)
        return
    try:
        store(c, d, what="default")
    except Rejected as e:
        err(1067, "Invalid default value for %r: %s" % (c.name, e.msg))


def _numtext(text):
    """Canonical text of a numeric literal (what MySQL shows when it is converted to a string)."""
    try:
        v = Decimal(text)
    except InvalidOperation:
        return text
    if v == v.to_integral_value() and "." not in text and "e" not in text.lower():
        return str(int(v))
    return text


def store(c, val, what="value"):
    """Value as stored in column c.  val: ("null",) | ("str", s) | ("num", s).  Raises Rejected."""
    if val[0] == "null":
        return None
    text = val[1]
    t = c.type
    if t in M.INT_TYPES:
        try:
            v = Decimal(text.strip())
        except InvalidOperation:
            err(1366, "Incorrect integer value: %r for column %r" % (text, c.name))
        v = int(v.quantize(Decimal(1), rounding=ROUND_HALF_UP))
        bits = INT_BITS[t]
        lo, hi = (0, 2**bits - 1) if c.unsigned else (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1)
        if not lo <= v <= hi:
            err(1264, "Out of range value for column %r" % c.name)
        return v
    if t == "bit":
        if val[0] == "str":
            v = int.from_bytes(text.encode("utf8"), "big")  # a text is taken as bits, not as a number
        else:
            try:
                v = int(Decimal(text))
            except InvalidOperation:
                err(1366, "Incorrect value: %r for column %r" % (text, c.name))
        if not 0 <= v < 2 ** int((c.args or ("1",))[0]):
            err(1406, "Data too long for column %r" % c.name)
        return v
    if t == "decimal":
        try:
            v = Decimal(text.strip())
        except InvalidOperation:
            err(1366, "Incorrect decimal value: %r for column %r" % (text, c.name))
        a = c.args or ("10", "0")
        prec, scale = int(a[0]), int(a[1]) if len(a) > 1 else 0
        v = v.quantize(Decimal(1).scaleb(-scale), rounding=ROUND_HALF_UP)
        if abs(v) >= Decimal(10) ** (prec - scale) or (c.unsigned and v < 0):
            err(1264, "Out of range value for column %r" % c.name)
        return v + Decimal(0) if v != 0 else abs(v)
    if t in M.FLOAT_TYPES:
        try:
            v = float(text)
        except ValueError:
            err(1265, "Data truncated for column %r" % c.name)
        if c.args and len(c.args) > 1:
            v = round(v, int(c.args[1]))
        if c.unsigned and v < 0:
            err(1264, "Out of range value for column %r" % c.name)
        return v
    if val[0] == "num":
        text = _numtext(text)
    if t in M.CHAR_TYPES:
        n = int((c.args or ("1",))[0])
        if t == "char":
            text = text.rstrip(" ")
        if len(text) > n:
            err(1406, "Data too long for column %r" % c.name)
        return text
    if t in M.BIN_TYPES:
        n = int((c.args or ("1",))[0])
        raw = text.encode("utf8")
        if len(raw) > n:
            err(1406, "Data too long for column %r" % c.name)
        return raw
    if t in M.TEXT_TYPES:
        return text
    if t in M.BLOB_TYPES:
        return text.encode("utf8")
    if t == "enum":
        for v in c.values:
            if v.lower() == text.rstrip(" ").lower():
                return v
        err(1265, "Data truncated for column %r" % c.name)
    if t == "set":
        if text == "":
            return ""
        parts = text.split(",")
        low = {v.lower(): v for v in c.values}
        for x in parts:
            if x.lower() not in low:
                err(1265, "Data truncated for column %r" % c.name)
        chosen = set(x.lower() for x in parts)
        return ",".join(v for v in c.values if v.lower() in chosen)
    if t == "json":
        import json

        try:
            json.loads(text)
        except ValueError:
            err(3140, "Invalid JSON text")
        return text
    try:
        if t == "date":
            return datetime.date.fromisoformat(text[:10]) if re.fullmatch(r"\d{4}-\d\d-\d\d( \d\d:\d\d:\d\d)?", text) else err(1292, "Incorrect date value: %r" % text)
        if t in ("datetime", "timestamp"):
            if re.fullmatch(r"\d{4}-\d\d-\d\d", text):
                text += " 00:00:00"
            text = re.sub(r"(?<=\d)T(?=\d)", " ", text)
            if not re.fullmatch(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d", text):
                err(1292, "Incorrect datetime value: %r" % text)
            return datetime.datetime.strptime(text, "%Y-%m-%d %H:%M:%S")
    except ValueError:
        err(1292, "Incorrect %s value: %r" % (t, text))
    if t == "time":
        m = re.fullmatch(r"(-?)(\d{1,3}):([0-5]\d):([0-5]\d)", text)
        if not m or int(m[2]) > 838:
            err(1292, "Incorrect time value: %r" % text)
        v = datetime.timedelta(hours=int(m[2]), minutes=int(m[3]), seconds=int(m[4]))
        return -v if m[1] else v
    if t == "year":
        if not re.fullmatch(r"\d{4}", text):
            err(1366, "Incorrect year value: %r" % text)
        return int(text)
    err(1105, "unmodelled type %s" % t)


def to_literal(v):
    """Stored value -> literal for conversion to another column type."""
    if v is None:
        return ("null",)
    if isinstance(v, bytes):
        return ("str", v.decode("utf8", "replace"))
    if isinstance(v, bool):
        return ("num", str(int(v)))
    if isinstance(v, (int, Decimal)):
        return ("num", str(v))
    if isinstance(v, float):
        return ("num", repr(v))
    if isinstance(v, datetime.timedelta):
        s = abs(int(v.total_seconds()))
        return ("str", "%s%02d:%02d:%02d" % ("-" if v < datetime.timedelta(0) else "", s // 3600, s // 60 % 60, s % 60))
    return ("str", str(v))


def implicit_default(c):
    if c.type in M.NUMERIC_TYPES:
        return store(c, ("num", "0"))
    if c.type == "enum":
        return c.values[0]
    if c.type in M.DATE_TYPES:
        return {"date": datetime.date(1, 1, 1), "year": 0, "time": datetime.timedelta(0)}.get(c.type, datetime.datetime(1, 1, 1))
    if c.type in M.BIN_TYPES + M.BLOB_TYPES:
        return b""
    if c.type == "json":
        return "null"
    return ""


NOW = datetime.datetime(2026, 1, 2, 3, 4, 5)


def default_value(c, inserting=False):
    d = c.default
    if d is None or d[0] == "null":
        if c.null:
            return None
        if inserting:
            if c.auto:
                return None
            err(1364, "Field %r doesn't have a default value" % c.name)
        return implicit_default(c)
    if d[0] == "kw":
        return NOW
    return store(c, d)


# ---------------------------------------------------------------------------------------------
# server


class STable:
    """Server-side table: model.Table structure plus stored rows."""

    def __init__(self, name):
        self.t = M.Table(name)
        self.rows = []
        self.next_auto = 1


class Server:
    def __init__(self, flavour="mysql80", table_order="sorted", charset="utf8mb4", style=None):
        self.flavour = flavour
        self.style = dict(FLAVOURS[flavour])
        if style:
            self.style.update(style)
        self.charset = charset
        self.table_order = table_order
        self.tables = {}
        self.actions = []  # what each accepted statement did, e.g. ("alter", table, [("add_col", Col, ..), ..])
        self.notes = []  # events worth reporting that are not refusals
        self.log = []  # (kind, text, outcome)
        self.connections = 0
        self.fault = None  # dict(at=int, mode=...)
        self.counter = 0
        self.commits = 0
        self._undo = None
        self.monitor = None  # callable(server, sql, outcome)

    # -- structure helpers -----------------------------------------------------------------------
    def schema(self):
        s = M.Schema()
        for n, st in self.tables.items():
            s.tables[n] = st.t
        return s

    def clone(self):
        import copy

        s = Server(self.flavour, self.table_order, self.charset)
        s.style = dict(self.style)
        for n, st in self.tables.items():
            x = STable(n)
            x.t = st.t.copy()
            x.rows = [dict(r) for r in st.rows]
            x.next_auto = st.next_auto
            s.tables[n] = x
        return s

    def all_fks(self):
        for st in self.tables.values():
            for f in st.t.fks.values():
                yield st.t, f

    def eff_charset(self, t, c):
        opts = dict(t.options)
        cs = c.charset
        co = c.collate
        if cs is None and co is not None:
            cs = co.split("_")[0]
        if cs is None:
            cs = opts.get("CHARSET", self.charset)
            if co is None:
                co = opts.get("COLLATE")
        cs = cs.lower()
        if co is None:
            co = cs + "_default"
        return M.norm_charset(cs), M.norm_charset(co)

    def fk_family(self, t, c):
        if c.type in M.CHAR_TYPES + M.TEXT_TYPES:
            return ("string",) + self.eff_charset(t, c)
        if c.type in M.BIN_TYPES:
            return ("bin",)
        return M.norm_type(c)

    def check_fk_pair(self, t, f, code=3780):
        """Type compatibility and indexes of one FK, when both ends exist."""
        if f.col not in t.cols:
            err(1072, "Key column %r doesn't exist in table" % f.col)
        p = self.tables.get(f.ref_table)
        pt = p.t if p is not None else None
        if f.ref_table == t.name:
            pt = t
        if pt is None:
            return
        if f.ref_col not in pt.cols:
            err(3734, "Failed to add the foreign key constraint %r. Missing column %r in the referenced table %r" % (f.name, f.ref_col, f.ref_table))
        a, b = self.fk_family(t, t.cols[f.col]), self.fk_family(pt, pt.cols[f.ref_col])
        if a != b:
            err(code, "Referencing column %r in table %r and referenced column %r in %r in foreign key constraint %r are incompatible: %s / %s"
                % (f.col, t.name, f.ref_col, f.ref_table, f.name, a, b))
        if not pt.indexed(f.ref_col):
            err(1822, "Failed to add the foreign key constraint. Missing index for constraint %r in the referenced table %r" % (f.name, f.ref_table))

    def check_table(self, t):
        """Rules on a single table, after a statement."""
        if not t.cols:
            err(1113, "A table must have at least 1 column")
        pk = t.primary
        for i in t.idxs.values():
            if len(set(i.cols)) != len(i.cols):
                err(1060, "Duplicate column name in key %r" % i.name)
            for c in i.cols:
                if c not in t.cols:
                    err(1072, "Key column %r doesn't exist in table" % c)
                if t.cols[c].type in M.TEXT_TYPES + M.BLOB_TYPES:
                    err(1170, "BLOB/TEXT column %r used in key specification without a key length" % c)
                if t.cols[c].type == "json":
                    err(3152, "JSON column %r cannot be used in key" % c)
        autos = [c for c in t.cols.values() if c.auto]
        if len(autos) > 1 or (autos and not t.indexed(autos[0].name)):
            err(1075, "Incorrect table definition; there can be only one auto column and it must be defined as a key")
        for c in autos:
            if c.type not in M.INT_TYPES + M.FLOAT_TYPES:
                err(1063, "Incorrect column specifier for column %r" % c.name)
        for c in t.cols.values():
            valid_default(c)
            if c.type == "decimal" and c.args and len(c.args) > 1 and int(c.args[1]) > int(c.args[0]):
                err(1427, "For float(M,D), double(M,D) or decimal(M,D), M must be >= D (column %r)" % c.name)
        if pk:
            for c in pk.cols:
                t.cols[c].null = False
                if t.cols[c].default == ("null",):
                    t.cols[c].default = None
        for f in t.fks.values():
            if "SET NULL" in (f.on_delete, f.on_update) and f.col in t.cols and not t.cols[f.col].null:
                err(1830, "Column %r cannot be NOT NULL: needed in a foreign key constraint %r SET NULL" % (f.col, f.name))

    def fk_name_taken(self, name, but=None):
        for t, f in self.all_fks():
            if f.name.lower() == name.lower() and t.name != but:
                return t.name
        return None

    def auto_fk_name(self, t):
        n = 1
        while "%s_ibfk_%d" % (t.name, n) in t.fks:
            n += 1
        return "%s_ibfk_%d" % (t.name, n)

    def add_index(self, t, i):
        if i.kind == "PRIMARY":
            if "PRIMARY" in t.idxs:
                err(1068, "Multiple primary key defined")
            t.idxs["PRIMARY"] = i
        else:
            name = i.name
            if not name:
                name = i.cols[0]
                k = 2
                while name.lower() in (x.lower() for x in t.idxs):
                    name = "%s_%d" % (i.cols[0], k)
                    k += 1
                i.name = name
            if name.upper() == "PRIMARY":
                err(1280, "Incorrect index name 'PRIMARY'")
            if name.lower() in (x.lower() for x in t.idxs):
                err(1061, "Duplicate key name %r" % name)
            t.idxs[name] = i
        if not i.auto:
            for n, x in list(t.idxs.items()):
                if x.auto and x is not i and x.cols == i.cols[: len(x.cols)]:
                    del t.idxs[n]  # MySQL silently drops a generated FK index made redundant

    def add_fk_index(self, t, f):
        if f.col in t.cols and not t.indexed(f.col):
            name = f.name
            k = 2
            while name in t.idxs:
                name = "%s_%d" % (f.name, k)
                k += 1
            t.idxs[name] = M.Idx(name, "INDEX", (f.col,), auto=True)

    # -- statements ------------------------------------------------------------------------------
    def execute(self, sql, session):
        """Runs one statement.  Returns list of result dicts.  Raises Rejected."""
        p = P(sql)
        if p.is_kw("create"):
            return self.do_create(sql, session)
        if p.is_kw("alter"):
            return self.do_alter(p, session)
        if p.is_kw("drop"):
            return self.do_drop(p, session)
        if p.is_kw("insert"):
            return self.do_insert(p, session)
        if p.is_kw("update"):
            return self.do_update(p, session)
        if p.is_kw("delete"):
            return self.do_delete(p, session)
        if p.is_kw("set"):
            p.next()
            p.kw("session")
            t = p.next()
            if t.kind != "word":
                p.i -= 1
                p.fail()
            p.need_p("=")
            v = p.next()
            p.end()
            if t.val.lower() in ("foreign_key_checks", "@@foreign_key_checks"):
                session["fk_checks"] = v.val.lower() in ("1", "on")
            elif t.val.lower() in ("autocommit",):
                session["autocommit"] = v.val.lower() in ("1", "on")
            return []
        if p.is_kw("show", "tables"):
            p.kw("show", "tables")
            p.end()
            names = list(self.tables)
            if self.table_order == "sorted":
                names.sort()
            elif callable(self.table_order):
                names = self.table_order(sorted(names))
            return [{"Tables_in_db": n} for n in names]
        if p.is_kw("show", "create", "table"):
            p.kw("show", "create", "table")
            name = p.ident()
            p.end()
            if name not in self.tables:
                err(1146, "Table %r doesn't exist" % name)
            return [{"Table": name, "Create Table": self.show_create(name)}]
        if p.is_kw("select"):
            p.next()
            p.need_p("*")
            p.need("from")
            name = p.ident()
            p.end()
            if name not in self.tables:
                err(1146, "Table %r doesn't exist" % name)
            st = self.tables[name]
            bits = {c.name: (int((c.args or ("1",))[0]) + 7) // 8 for c in st.t.cols.values() if c.type == "bit"}
            return [{c: (r[c].to_bytes(bits[c], "big") if c in bits and r[c] is not None else r[c]) for c in st.t.cols} for r in st.rows]
        if p.is_kw("commit"):
            p.next()
            p.end()
            self.commit()
            return []
        if p.is_kw("rollback"):
            p.next()
            p.end()
            self.rollback()
            return []
        p.fail()

    # transactions: an undo snapshot of rows taken at the first row change
    def touch_rows(self):
        if self._undo is None:
            self._undo = {n: ([dict(r) for r in st.rows], st.next_auto) for n, st in self.tables.items()}

    def commit(self):
        self._undo = None

    def rollback(self):
        if self._undo is not None:
            for n, (rows, na) in self._undo.items():
                if n in self.tables:
                    self.tables[n].rows = rows
        self._undo = None

    def build_table(self, name, els, opts):
        t = M.Table(name)
        t.options = [o for o in opts]
        fks = []
        for e in els:
            if e[0] == "col":
                _, c, extra = e
                if c.name.lower() in (x.lower() for x in t.cols):
                    err(1060, "Duplicate column name %r" % c.name)
                t.cols[c.name] = c
                if extra["pk"]:
                    self.add_index(t, M.Idx("", "PRIMARY", (c.name,)))
                if extra["unique"]:
                    self.add_index(t, M.Idx("", "UNIQUE", (c.name,)))
        for e in els:
            if e[0] == "idx":
                for c in e[1].cols:
                    if c not in t.cols:
                        err(1072, "Key column %r doesn't exist in table" % c)
                if e[1].kind == "PRIMARY":
                    for e2 in els:
                        if e2[0] == "col" and e2[2]["explicit_null"] and e2[1].name in e[1].cols and e2[1].null:
                            err(1171, "All parts of a PRIMARY KEY must be NOT NULL")
                self.add_index(t, e[1])
        for e in els:
            if e[0] == "fk":
                f = e[1]
                fks.append(f)
        for f in fks:
            if not f.name:
                f.name = self.auto_fk_name(t)
            if f.name.lower() in (x.lower() for x in t.fks):
                err(1826, "Duplicate foreign key constraint name %r" % f.name)
            if f.col not in t.cols:
                err(1072, "Key column %r doesn't exist in table" % f.col)
            t.fks[f.name] = f
            self.add_fk_index(t, f)
        return t

    def do_create(self, sql, session):
        ine, name, els, opts = parse_create(sql, self.notes)
        self.commit()
        if name in self.tables:
            if ine:
                return []
            err(1050, "Table %r already exists" % name)
        t = self.build_table(name, els, opts)
        self.check_table(t)
        for f in t.fks.values():
            owner = self.fk_name_taken(f.name)
            if owner:
                err(1826, "Duplicate foreign key constraint name %r (also in %r)" % (f.name, owner))
            if session["fk_checks"] and f.ref_table not in self.tables and f.ref_table != name:
                err(1824, "Failed to open the referenced table %r" % f.ref_table)
            self.check_fk_pair(t, f)
        # children waiting for this parent
        for ct, f in self.all_fks():
            if f.ref_table == name:
                if f.ref_col not in t.cols:
                    err(3734, "Missing column %r in the referenced table %r for constraint %r" % (f.ref_col, name, f.name))
                a, b = self.fk_family(ct, ct.cols[f.col]), self.fk_family(t, t.cols[f.ref_col])
                if a != b:
                    err(3780, "Referencing column %r and referenced column %r in foreign key constraint %r are incompatible" % (f.col, f.ref_col, f.name))
                if not t.indexed(f.ref_col):
                    err(1822, "Missing index for constraint %r in the referenced table %r" % (f.name, name))
        st = STable(name)
        st.t = t
        self.tables[name] = st
        self.actions.append(("create", name))
        return []

    def do_alter(self, p, session):
        p.need("alter")
        p.need("table")
        name = p.ident()
        acts = []
        while True:
            if p.kw("add"):
                if p.kw("column"):
                    c, extra = p.coldef(self.notes)
                    acts.append(("add_col", c, extra, self.position(p)))
                else:
                    e = p.table_element(self.notes)
                    if e[0] == "col":
                        acts.append(("add_col", e[1], e[2], self.position(p)))
                    elif e[0] == "idx":
                        acts.append(("add_idx", e[1]))
                    else:
                        acts.append(("add_fk", e[1]))
            elif p.kw("change"):
                p.kw("column")
                old = p.ident()
                c, extra = p.coldef(self.notes)
                acts.append(("change", old, c, extra, self.position(p)))
            elif p.kw("modify"):
                p.kw("column")
                c, extra = p.coldef(self.notes)
                acts.append(("change", c.name, c, extra, self.position(p)))
            elif p.kw("drop"):
                if p.kw("foreign", "key"):
                    acts.append(("drop_fk", p.ident()))
                elif p.kw("primary", "key"):
                    acts.append(("drop_idx", "PRIMARY"))
                elif p.kw("key") or p.kw("index"):
                    acts.append(("drop_idx", p.ident()))
                elif p.kw("constraint"):
                    acts.append(("drop_fk", p.ident()))
                else:
                    p.kw("column")
                    acts.append(("drop_col", p.ident()))
            else:
                p.fail()
            if not p.p(","):
                break
        p.end()
        self.commit()
        if name not in self.tables:
            err(1146, "Table %r doesn't exist" % name)
        st = self.tables[name]
        old_t = st.t
        t = old_t.copy()
        dropped_cols = set()
        for a in acts:
            if a[0] == "drop_fk":
                if a[1] not in t.fks:
                    err(1091, "Can't DROP %r; check that column/key exists" % a[1])
                del t.fks[a[1]]
        for a in acts:
            if a[0] == "drop_idx":
                if a[1] not in t.idxs:
                    err(1091, "Can't DROP %r; check that column/key exists" % a[1])
                del t.idxs[a[1]]
        changed = {}
        for a in acts:
            if a[0] == "drop_col":
                if a[1] not in t.cols or a[1] in dropped_cols:
                    err(1091, "Can't DROP %r; check that column/key exists" % a[1])
                dropped_cols.add(a[1])
        for a in acts:
            if a[0] == "change":
                _, old, c, extra, pos = a
                if old not in t.cols or old in dropped_cols or old in changed:
                    err(1054, "Unknown column %r in %r" % (old, name))
                changed[old] = c
        order = []
        cols = {}
        for n, c in t.cols.items():
            if n in dropped_cols:
                continue
            nc = changed.get(n, c)
            if nc.name.lower() in (x.lower() for x in cols):
                err(1060, "Duplicate column name %r" % nc.name)
            cols[nc.name] = nc
            order.append(nc.name)

        def place(cname, pos):
            if pos is None:
                order.append(cname)
            elif pos is True:
                order.insert(0, cname)
            else:
                if pos not in order:
                    err(1054, "Unknown column %r in %r" % (pos, name))
                order.insert(order.index(pos) + 1, cname)

        for a in acts:
            if a[0] == "change" and a[4] is not None:
                order.remove(a[2].name)
                place(a[2].name, a[4])
        for a in acts:
            if a[0] == "add_col":
                _, c, extra, pos = a
                if c.name.lower() in (x.lower() for x in cols):
                    err(1060, "Duplicate column name %r" % c.name)
                cols[c.name] = c
                place(c.name, pos)
        if not order:
            err(1090, "You can't delete all columns with ALTER TABLE; use DROP TABLE instead")
        t.cols = {n: cols[n] for n in order}
        renames = {o: c.name for o, c in changed.items() if o != c.name}
        for n, i in list(t.idxs.items()):
            i.cols = tuple(renames.get(c, c) for c in i.cols if c not in dropped_cols)
            if not i.cols:
                del t.idxs[n]
        for a in acts:
            if a[0] in ("add_col", "change"):
                extra = a[2] if a[0] == "add_col" else a[3]
                c = a[1] if a[0] == "add_col" else a[2]
                if extra["pk"]:
                    self.add_index(t, M.Idx("", "PRIMARY", (c.name,)))
                if extra["unique"]:
                    self.add_index(t, M.Idx("", "UNIQUE", (c.name,)))
            elif a[0] == "add_idx":
                for c in a[1].cols:
                    if c not in t.cols:
                        err(1072, "Key column %r doesn't exist in table" % c)
                self.add_index(t, a[1])
        # columns still used by foreign keys
        for f in t.fks.values():
            if f.col in dropped_cols:
                err(1828, "Cannot drop column %r: needed in a foreign key constraint %r" % (f.col, f.name))
        for ct, f in self.all_fks():
            if f.ref_table == name and f.ref_col in dropped_cols and not (ct.name == name and f.name not in t.fks):
                err(1829, "Cannot drop column %r: needed in a foreign key constraint %r of table %r" % (f.ref_col, f.name, ct.name))
        new_fks = []
        for a in acts:
            if a[0] == "add_fk":
                f = a[1]
                if not f.name:
                    f.name = self.auto_fk_name(t)
                if f.name.lower() in (x.lower() for x in t.fks) or f.name in old_t.fks:
                    err(1826, "Duplicate foreign key constraint name %r" % f.name)
                owner = self.fk_name_taken(f.name, but=name)
                if owner:
                    err(1826, "Duplicate foreign key constraint name %r (also in %r)" % (f.name, owner))
                if f.col not in t.cols:
                    err(1072, "Key column %r doesn't exist in table" % f.col)
                if session["fk_checks"] and f.ref_table not in self.tables:
                    err(1824, "Failed to open the referenced table %r" % f.ref_table)
                t.fks[f.name] = f
                self.add_fk_index(t, f)
                new_fks.append(f)
        self.check_table(t)
        # explicit NULL or a NULL default on a primary key column is normalised in check_table
        for f in t.fks.values():
            if f in new_fks:
                self.check_fk_pair(t, f)
            else:
                if not t.indexed(f.col):
                    err(1553, "Cannot drop index: column %r needed in a foreign key constraint %r" % (f.col, f.name))
                p_t = t if f.ref_table == name else (self.tables[f.ref_table].t if f.ref_table in self.tables else None)
                if p_t is not None and f.ref_col in p_t.cols:
                    if self.fk_family(t, t.cols[f.col]) != self.fk_family(p_t, p_t.cols[f.ref_col]):
                        err(3780, "Referencing column %r and referenced column %r in foreign key constraint %r are incompatible" % (f.col, f.ref_col, f.name))
                if session["fk_checks"] and f.col in old_t.cols and self.fk_family(t, t.cols[f.col]) != self.fk_family(old_t, old_t.cols[f.col]):
                    err(1832, "Cannot change column %r: used in a foreign key constraint %r" % (f.col, f.name))
        for ct, f in list(self.all_fks()):
            if f.ref_table != name:
                continue
            if ct.name == name:
                if f.name not in t.fks:
                    continue
                ct, f = t, t.fks[f.name]
            if f.ref_col in t.cols:
                if self.fk_family(ct, ct.cols[f.col]) != self.fk_family(t, t.cols[f.ref_col]):
                    err(3780, "Referencing column %r.%r and referenced column %r in foreign key constraint %r are incompatible" % (ct.name, f.col, f.ref_col, f.name))
                if not t.indexed(f.ref_col):
                    err(1553, "Cannot drop index: column %r needed in a foreign key constraint %r of %r" % (f.ref_col, f.name, ct.name))
        # rows
        rows = []
        for r in st.rows:
            nr = {}
            for n, c in t.cols.items():
                src = n
                for o, nc in changed.items():
                    if nc.name == n:
                        src = o
                if src in r and src not in dropped_cols:
                    v = r[src]
                    if n in changed.values() or src in changed:
                        oc = old_t.cols[src]
                        if v is None:
                            if not c.null:
                                err(1138, "Invalid use of NULL value (column %r)" % n)
                        elif M.norm_type(oc) != M.norm_type(c):
                            v = store(c, to_literal(v))
                    elif v is None and not c.null:
                        err(1138, "Invalid use of NULL value (column %r)" % n)
                    nr[n] = v
                else:
                    nr[n] = default_value(c)
            rows.append(nr)
        autos = [c for c in t.cols.values() if c.auto]
        for c in autos:
            k = 1
            for nr in rows:
                if c.name not in old_t.cols:
                    nr[c.name] = k
                    k += 1
        self.check_unique(t, rows)
        st.t = t
        st.rows = rows
        self.actions.append(("alter", name, acts))
        return []

    def position(self, p):
        if p.kw("first"):
            return True
        if p.kw("after"):
            return p.ident()
        return None

    def check_unique(self, t, rows):
        for i in t.idxs.values():
            if i.kind == "INDEX":
                continue
            seen = set()
            for r in rows:
                k = tuple(r[c].lower() if isinstance(r[c], str) else r[c] for c in i.cols)
                if None in k:
                    continue
                if k in seen:
                    err(1062, "Duplicate entry %r for key %r" % (k, i.name or "PRIMARY"))
                seen.add(k)

    def do_drop(self, p, session):
        p.need("drop")
        p.need("table")
        ie = p.kw("if", "exists")
        names = [p.ident()]
        while p.p(","):
            names.append(p.ident())
        p.end()
        self.commit()
        for n in names:
            if n not in self.tables:
                if ie:
                    continue
                err(1051, "Unknown table %r" % n)
            if session["fk_checks"]:
                for ct, f in self.all_fks():
                    if f.ref_table == n and ct.name not in names:
                        err(3730, "Cannot drop table %r referenced by a foreign key constraint %r on table %r" % (n, f.name, ct.name))
        for n in names:
            self.tables.pop(n, None)
            self.actions.append(("drop", n))
        return []

    def do_insert(self, p, session):
        p.need("insert")
        p.kw("into")
        name = p.ident()
        cols = None
        if p.p("("):
            cols = [p.ident()]
            while p.p(","):
                cols.append(p.ident())
            p.need_p(")")
        p.kw("values") or p.need("value")
        groups = []
        while True:
            p.need_p("(")
            vals = [p.literal()]
            while p.p(","):
                vals.append(p.literal())
            p.need_p(")")
            groups.append(vals)
            if not p.p(","):
                break
        p.end()
        if name not in self.tables:
            err(1146, "Table %r doesn't exist" % name)
        st = self.tables[name]
        if cols is None:
            cols = list(st.t.cols)
        if len(set(c.lower() for c in cols)) != len(cols):
            err(1110, "Column specified twice")
        for c in cols:
            if c not in st.t.cols:
                err(1054, "Unknown column %r in 'field list'" % c)
        new = []
        for vals in groups:
            if len(vals) != len(cols):
                err(1136, "Column count doesn't match value count")
            r = {}
            for n, c in st.t.cols.items():
                if n in cols:
                    v = vals[cols.index(n)]
                    if v[0] == "null" and not c.null and not c.auto:
                        err(1048, "Column %r cannot be null" % n)
                    r[n] = store(c, v)
                else:
                    r[n] = default_value(c, True)
                if c.auto and (r[n] is None or r[n] == 0):
                    r[n] = st.next_auto
                if c.auto:
                    st.next_auto = max(st.next_auto, int(r[n]) + 1)
            new.append(r)
        rows = st.rows + new
        self.check_unique(st.t, rows)
        self.touch_rows()
        st.rows = rows
        self.actions.append(("insert", name, cols, new))
        return []

    def where(self, p, t):
        p.need("where")
        col = p.ident()
        p.need_p("=")
        v = p.literal()
        if col not in t.cols:
            err(1054, "Unknown column %r in 'where clause'" % col)
        c = t.cols[col]

        def match(row):
            x = row[col]
            if x is None or v[0] == "null":
                return False
            if isinstance(x, (int, Decimal, float)):
                try:
                    return Decimal(str(x)) == Decimal(v[1].strip())
                except InvalidOperation:
                    m = re.match(r"\s*-?\d+", v[1])
                    return Decimal(str(x)) == Decimal(m.group(0) if m else "0")
            return to_literal(x)[1].lower() == v[1].lower()

        return match

    def do_update(self, p, session):
        p.need("update")
        name = p.ident()
        p.need("set")
        sets = []
        while True:
            col = p.ident()
            p.need_p("=")
            sets.append((col, p.literal()))
            if not p.p(","):
                break
        if name not in self.tables:
            err(1146, "Table %r doesn't exist" % name)
        st = self.tables[name]
        m = self.where(p, st.t)
        p.end()
        for col, v in sets:
            if col not in st.t.cols:
                err(1054, "Unknown column %r in 'field list'" % col)
        rows = []
        for r in st.rows:
            if m(r):
                r = dict(r)
                for col, v in sets:
                    c = st.t.cols[col]
                    if v[0] == "null" and not c.null:
                        err(1048, "Column %r cannot be null" % col)
                    r[col] = store(c, v)
            rows.append(r)
        self.check_unique(st.t, rows)
        self.touch_rows()
        self.actions.append(("update", name, sets, [r for r in st.rows if m(r)]))
        st.rows = rows
        return []

    def do_delete(self, p, session):
        p.need("delete")
        p.need("from")
        name = p.ident()
        if name not in self.tables:
            err(1146, "Table %r doesn't exist" % name)
        st = self.tables[name]
        m = self.where(p, st.t)
        p.end()
        self.touch_rows()
        self.actions.append(("delete", name, [r for r in st.rows if m(r)]))
        st.rows = [r for r in st.rows if not m(r)]
        return []

    # -- SHOW CREATE TABLE ----------------------------------------------------------------------
    def show_create(self, name):
        st = self.tables[name]
        t = st.t
        lines = ["  " + self.show_col(t, c) for c in t.cols.values()]
        pk = t.primary
        if pk:
            lines.append("  PRIMARY KEY (%s)" % ",".join("`%s`" % c for c in pk.cols))
        for kind in ("UNIQUE", "INDEX"):
            for n, i in t.idxs.items():
                if i.kind == kind:
                    lines.append("  %sKEY `%s` (%s)" % ("UNIQUE " if kind == "UNIQUE" else "", i.name, ",".join("`%s`" % c for c in i.cols)))
        for n in sorted(t.fks):
            f = t.fks[n]
            s = "  CONSTRAINT `%s` FOREIGN KEY (`%s`) REFERENCES `%s` (`%s`)" % (f.name, f.col, f.ref_table, f.ref_col)
            for clause, a in (("ON DELETE", f.on_delete), ("ON UPDATE", f.on_update)):
                if a == "NO ACTION":
                    a = self.style["noaction"]
                elif a == "RESTRICT":
                    a = self.style["restrict"]
                if a:
                    s += " %s %s" % (clause, a)
            lines.append(s)
        opts = dict(t.options)
        tail = "ENGINE=InnoDB"
        if any(c.auto for c in t.cols.values()) and st.next_auto > 1:
            tail += " AUTO_INCREMENT=%d" % st.next_auto
        tail += " DEFAULT CHARSET=%s" % self.show_name(opts.get("CHARSET", self.charset))
        if opts.get("COLLATE"):
            tail += " COLLATE=%s" % self.show_name(opts["COLLATE"])
        return "CREATE TABLE `%s` (\n%s\n) %s" % (name, ",\n".join(lines), tail)

    def show_name(self, name):
        """Charset or collation as printed: newer servers print utf8 as utf8mb3 and then utf8_bin as utf8mb3_bin."""
        name = name.lower()
        mb3 = self.style.get("mb3")
        if mb3 and (name == "utf8" or mb3 == "collations" and name.startswith("utf8_")):
            name = "utf8mb3" + name[4:]
        return name

    def show_col(self, t, c):
        s = "`%s` " % c.name
        if c.type in M.INT_TYPES:
            s += c.type
            w = c.args[0] if c.args else str(INT_WIDTH[c.type][1 if c.unsigned else 0])
            if self.style["int_width"] or (c.type == "tinyint" and w == "1" and not c.unsigned):
                s += "(%s)" % w
        elif c.type == "decimal":
            a = c.args or ("10", "0")
            if len(a) == 1:
                a = (a[0], "0")
            s += "decimal(%s)" % ",".join(a)
        elif c.type in M.FLOAT_TYPES:
            s += c.type + ("(%s)" % ",".join(c.args) if c.args and len(c.args) > 1 else "")
        elif c.type in ("char", "binary", "bit"):
            s += "%s(%s)" % (c.type, (c.args or ("1",))[0])
        elif c.type in ("varchar", "varbinary"):
            s += "%s(%s)" % (c.type, c.args[0])
        elif c.type in M.ENUM_TYPES:
            s += "%s(%s)" % (c.type, ",".join("'%s'" % v.replace("\\", "\\\\").replace("'", "''") for v in c.values))
        elif c.type == "year":
            s += self.style["year"]
        else:
            s += c.type
        if c.unsigned:
            s += " unsigned"
        if c.type in M.STRINGY:
            show_cs, show_co = c.charset, c.collate
            if self.style.get("implied_charset"):
                cs, co = self.eff_charset(t, c)
                show_cs = cs
                show_co = co if not co.endswith("_default") else cs + "_general_ci"
            elif dict(t.options).get("COLLATE") and not show_co and not show_cs:
                show_co = dict(t.options)["COLLATE"]
            if self.style.get("hide_charset") and not self.style.get("implied_charset") and c.charset:
                # MySQL does not print what equals the default of the table
                if M.norm_charset(c.charset) == M.norm_charset(dict(t.options).get("CHARSET", self.charset)):
                    show_cs = None
            if show_cs:
                s += " CHARACTER SET %s" % self.show_name(show_cs)
            if show_co:
                s += " COLLATE %s" % self.show_name(show_co)
        if not c.null:
            s += " NOT NULL"
        elif c.type == "timestamp":
            s += " NULL"
        d = c.default
        if c.auto:
            s += " AUTO_INCREMENT"
        elif d is None or d[0] == "null":
            if c.null and (c.type not in M.NO_DEFAULT_TYPES or self.style["text_default_null"]):
                s += " DEFAULT NULL"
        elif d[0] == "kw":
            s += " DEFAULT %s" % self.style["ts"]
        else:
            v = store(c, d)
            if isinstance(v, (int, Decimal, float)):
                txt = str(v) if not isinstance(v, float) else repr(v)
                if c.type in M.FLOAT_TYPES and txt.endswith(".0"):
                    txt = txt[:-2]
                if c.type == "bit":
                    s += " DEFAULT b'%s'" % bin(v)[2:]
                elif self.style["quote_num"] or c.type == "year":
                    s += " DEFAULT '%s'" % txt
                else:
                    s += " DEFAULT %s" % txt
            else:
                txt = to_literal(v)[1]
                s += " DEFAULT '%s'" % txt.replace("'", "''") if "\\" not in txt else " DEFAULT '%s'" % txt.replace("\\", "\\\\").replace("'", "''")
        if c.on_update:
            s += " ON UPDATE %s" % self.style["ts"]
        return s


# ---------------------------------------------------------------------------------------------
# DB-API face


class Connection:
    """What pymysql.connect(cursorclass=DictCursor, autocommit=False) gives the code under test."""

    def __init__(self, server):
        self.server = server
        server.connections += 1
        self.session = {"fk_checks": True, "autocommit": False}
        self.dead = False
        self.closed = False
        server._undo = None

    def cursor(self, *a, **k):
        if self.dead or self.closed:
            raise pymysql.err.InterfaceError(0, "")
        return Cursor(self)

    def _step(self, kind, text):
        """Fault injection point; returns the mode of the fault striking here, if any."""
        s = self.server
        s.counter += 1
        f = s.fault
        if f is not None and f.get("at") == s.counter:
            return f["mode"]
        return None

    def commit(self):
        if self.dead:
            raise pymysql.err.InterfaceError(0, "")
        mode = self._step("commit", "COMMIT")
        if mode == "reject" and self.server.fault.get("error"):
            # the server refuses to commit and rolls back
            self.server.log.append(("commit", "COMMIT", "fault:" + mode))
            self.server.rollback()
            raise injected(self.server.fault)
        if mode in ("lost_before", "reject"):
            self.server.log.append(("commit", "COMMIT", "fault:" + mode))
            self._die()
            raise pymysql.err.OperationalError(2013, "Lost connection to MySQL server during query")
        self.server.commit()
        self.server.commits += 1
        self.server.log.append(("commit", "COMMIT", "ok" if mode is None else "fault:" + mode))
        if mode == "lost_after":
            self._die()
            raise pymysql.err.OperationalError(2013, "Lost connection to MySQL server during query")

    def rollback(self):
        self.server.log.append(("rollback", "ROLLBACK", "ok"))
        self.server.rollback()

    def begin(self):
        self.server.commit()

    def autocommit(self, value):
        self.session["autocommit"] = bool(value)

    def get_autocommit(self):
        return self.session["autocommit"]

    def ping(self, reconnect=True):
        pass

    def escape_string(self, s):
        return s.replace("\\", "\\\\").replace("'", "\\'")

    def select_db(self, db):
        pass

    @property
    def open(self):
        return not self.dead and not self.closed

    def close(self):
        if not self.closed:
            self.server.rollback()
        self.closed = True

    def _die(self):
        self.dead = True
        self.server.rollback()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


READS = ("show", "select", "describe", "desc", "explain")


def kind_of(sql):
    w = re.match(r"\s*([a-zA-Z]+)", sql)
    w = w.group(1).lower() if w else ""
    if w in READS:
        return "read"
    if w == "set":
        return "set"
    if w in ("insert", "update", "delete", "replace"):
        return "dml"
    return "ddl"


# what a server may answer with, as the driver reports it: (class, code, message)
REFUSALS = {
    "any": [("OperationalError", 1205, "Lock wait timeout exceeded; try restarting transaction"),
            ("OperationalError", 1213, "Deadlock found when trying to get lock; try restarting transaction"),
            ("OperationalError", 1290, "The MySQL server is running with the --read-only option so it cannot execute this statement"),
            ("OperationalError", 1142, "ALTER command denied to user"),
            ("OperationalError", 3024, "Query execution was interrupted, maximum statement execution time exceeded"),
            ("InternalError", 1180, "Got error 28 during COMMIT"),
            ("InternalError", 1030, "Got error 28 from storage engine"),
            ("OperationalError", 1317, "Query execution was interrupted")],
    "ddl": [("OperationalError", 1050, "Table already exists"), ("OperationalError", 1051, "Unknown table"), ("OperationalError", 1060, "Duplicate column name"),
            ("OperationalError", 1061, "Duplicate key name"), ("IntegrityError", 1062, "Duplicate entry"), ("OperationalError", 1091, "Can't DROP; check that it exists"),
            ("ProgrammingError", 1146, "Table doesn't exist"), ("ProgrammingError", 1064, "You have an error in your SQL syntax"), ("IntegrityError", 1452, "Cannot add or update a child row"),
            ("IntegrityError", 1215, "Cannot add foreign key constraint"), ("OperationalError", 1826, "Duplicate foreign key constraint name"), ("DataError", 1264, "Out of range value"),
            ("DataError", 1265, "Data truncated"), ("DataError", 1406, "Data too long for column"), ("OperationalError", 1118, "Row size too large"),
            ("NotSupportedError", 1235, "This version of MySQL doesn't yet support"), ("OperationalError", 1067, "Invalid default value")],
    "dml": [("IntegrityError", 1062, "Duplicate entry"), ("IntegrityError", 1452, "Cannot add or update a child row"), ("IntegrityError", 1451, "Cannot delete or update a parent row"),
            ("IntegrityError", 1048, "Column cannot be null"), ("DataError", 1264, "Out of range value"), ("DataError", 1406, "Data too long for column"), ("DataError", 1366, "Incorrect integer value"),
            ("OperationalError", 1364, "Field doesn't have a default value"), ("ProgrammingError", 1146, "Table doesn't exist"), ("OperationalError", 1054, "Unknown column"),
            ("OperationalError", 3819, "Check constraint is violated"), ("OperationalError", 1644, "Refused by a trigger")],
    "read": [("ProgrammingError", 1146, "Table doesn't exist"), ("OperationalError", 1142, "SELECT command denied to user"), ("OperationalError", 1356, "View references invalid table(s)"),
             ("InternalError", 1034, "Incorrect key file for table")],
}


def injected(fault):
    cls, code, msg = (fault or {}).get("error") or REFUSALS["any"][0]
    return getattr(pymysql.err, cls)(code, msg)


class Cursor:
    def __init__(self, conn):
        self.conn = conn
        self._rows = []
        self._pos = 0
        self.rowcount = -1
        self.description = None
        self.lastrowid = 0

    def execute(self, sql, args=None):
        conn = self.conn
        server = conn.server
        if conn.dead or conn.closed:
            server.log.append((kind_of(sql), sql, "dead"))
            raise pymysql.err.InterfaceError(0, "")
        if args:
            if isinstance(args, dict):
                sql = sql % {k: self._esc(v) for k, v in args.items()}
            else:
                if not isinstance(args, (list, tuple)):
                    args = (args,)
                sql = sql % tuple(self._esc(v) for v in args)
        kind = kind_of(sql)
        mode = conn._step(kind, sql)
        if mode == "reject":
            server.log.append((kind, sql, "fault:reject"))
            raise injected(server.fault)
        if mode == "lost_before":
            server.log.append((kind, sql, "fault:lost_before"))
            conn._die()
            raise pymysql.err.OperationalError(2013, "Lost connection to MySQL server during query")
        try:
            rows = server.execute(sql, conn.session)
        except Rejected as e:
            server.log.append((kind, sql, "refused:%d" % e.code))
            if server.monitor:
                server.monitor(server, sql, e)
            cls = pymysql.err.ProgrammingError if e.code in (1064, 1146, 1103) else (
                pymysql.err.IntegrityError if e.code in (1062, 1048, 1364) else pymysql.err.OperationalError)
            raise cls(e.code, e.msg)
        server.log.append((kind, sql, "ok" if mode is None else "fault:" + mode))
        if server.monitor:
            server.monitor(server, sql, None)
        if conn.session["autocommit"] and kind == "dml":
            server.commit()
        if mode == "lost_after":
            conn._die()
            raise pymysql.err.OperationalError(2013, "Lost connection to MySQL server during query")
        self._rows = rows
        self._pos = 0
        self.rowcount = len(rows)
        return len(rows)

    def executemany(self, sql, seq):
        n = 0
        for a in seq:
            n += self.execute(sql, a)
        return n

    def _esc(self, v):
        if v is None:
            return "NULL"
        if isinstance(v, (int, float, Decimal)):
            return str(v)
        return "'%s'" % self.conn.escape_string(str(v))

    def fetchone(self):
        if self._pos >= len(self._rows):
            return None
        self._pos += 1
        return self._rows[self._pos - 1]

    def fetchall(self):
        r = self._rows[self._pos :]
        self._pos = len(self._rows)
        return r

    def fetchmany(self, size=1):
        r = self._rows[self._pos : self._pos + size]
        self._pos += len(r)
        return r

    def __iter__(self):
        return iter(self.fetchone, None)

    def close(self):
        self._rows = []

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()
