"""SQL text of model tables and rows: one plain layout, and seeded variants of it that mean the same."""
import re

from . import model as M

SIMPLE = re.compile(r"^[A-Za-z_][A-Za-z0-9_]*$")
RESERVED_SOON = None


def lit(s, q="'", rng=None, dup=True):
    """A string literal in the syntax that the tool and the server read alike."""
    out = ""
    for ch in s:
        if ch == "\\":
            out += "\\\\"
        elif ch == q:
            out += (q + q) if (rng is None or rng.random() < 0.5) and dup else "\\" + q
        elif ch in "'\"" and rng is not None and rng.random() < 0.2:
            out += "\\" + ch
        else:
            out += ch
    return q + out + q


class R:
    """Collects tokens; `text` joins them with separators."""

    def __init__(self):
        self.toks = []

    def kw(self, s):
        for w in s.split():
            self.toks.append(("kw", w))
        return self

    def id(self, s):
        self.toks.append(("id", s))
        return self

    def p(self, s):
        self.toks.append(("p", s))
        return self

    def raw(self, s):
        self.toks.append(("raw", s))
        return self


def column_tokens(r, c, rng=None, style=None, primary=False):
    st = style or {}
    r.id(c.name)
    t = c.type
    args = c.args
    auto_bool = False
    if rng is not None:
        if t == "int" and st.get("integer", st.get("synonyms", True)) and rng.random() < 0.3:
            t = "integer"
        if t in M.INT_TYPES and st.get("widths", True) and rng.random() < 0.3:
            args = rng.choice([None, ("1",) if t == "tinyint" else None, ("6",), ("11",)])
        if t == "tinyint" and not c.unsigned and not c.auto and st.get("synonyms", True) and rng.random() < 0.3:
            auto_bool = True
            t = rng.choice(["boolean", "bool"])
            args = None
        if t == "decimal" and tuple(args or ()) == ("10", "0") and st.get("synonyms", True):
            args = rng.choice([args, None, ("10",)])
        elif t == "decimal" and len(args or ()) == 2 and args[1] == "0" and st.get("synonyms", True):
            args = rng.choice([args, args[:1]])
        if t in ("char", "binary", "bit") and tuple(args or ()) == ("1",) and t == "bit" and rng.random() < 0.5:
            args = None
        if t == "year":
            args = rng.choice([None, ("4",)]) if st.get("widths", True) else args
    r.kw(t.upper() if st.get("upper", True) else t)
    if c.values is not None:
        r.p("(")
        for n, v in enumerate(c.values):
            if n:
                r.p(",")
            r.raw(lit(v, "'", rng))
        r.p(")")
    elif args:
        r.p("(")
        for n, a in enumerate(args):
            if n:
                r.p(",")
            r.raw(a)
        r.p(")")
    if c.unsigned:
        r.kw("UNSIGNED")
    cs = []
    if c.charset:
        cs.append(("CHARACTER SET", c.charset))
    if c.collate:
        cs.append(("COLLATE", c.collate))
    if rng is not None and len(cs) == 2 and rng.random() < 0.3 and t in M.CHAR_TYPES:
        cs.reverse()
    for k, v in cs:
        r.kw(k)
        r.raw(rng.choice([v, v.upper(), "'%s'" % v]) if rng is not None else v)
    # what follows the type, in the order in which it is written
    order = ["null", "default", "auto"]
    nullness = ""
    if not c.null:
        nullness = "NOT NULL"
    elif rng is not None and rng.random() < 0.15 and not c.auto and not primary:
        nullness = "NULL"
    if primary:
        order.insert(1, "primary")
    if rng is not None and rng.random() < 0.35:
        # the null-ness and PRIMARY KEY may come after the default and after AUTO_INCREMENT, null-ness first
        order = ["default", "auto"]
        a, b = sorted((rng.randrange(3), rng.randrange(3)))
        if primary:
            order.insert(b, "primary")
        order.insert(a, "null")
    r0 = r
    part = {k: R() for k in order}
    r = part["null"]
    r.kw(nullness)
    r = part["default"]
    d = c.default
    if d is None and rng is not None and c.null and not c.auto and t not in M.NO_DEFAULT_TYPES and st.get("default_null", True) and rng.random() < 0.25:
        d = ("null",)
    elif d is not None and d[0] == "null" and rng is not None and st.get("default_null", True) and rng.random() < 0.3:
        d = None
    if d is not None:
        r.kw("DEFAULT")
        if d[0] == "null":
            r.kw("NULL")
        elif d[0] == "kw":
            w = d[1]
            if rng is not None:
                w = rng.choice(["CURRENT_TIMESTAMP", "CURRENT_TIMESTAMP()", "NOW()", "LOCALTIME", "LOCALTIMESTAMP()"])
            r.raw(w)
        elif d[0] == "num":
            v = d[1]
            if auto_bool and v in ("0", "1") and rng.random() < 0.6:
                r.kw("TRUE" if v == "1" else "FALSE")
            elif t == "bit":
                r.raw("b'%s'" % bin(int(v))[2:] if rng is not None and v.isdigit() and rng.random() < 0.5 else v)
            else:
                if rng is not None and st.get("numbers", True):
                    if t == "decimal" and rng.random() < 0.3 and "." in v and not v.startswith("."):
                        v = v + "0"
                    if rng.random() < 0.4:
                        v = rng.choice(["'%s'", '"%s"']) % v
                r.raw(v)
        else:
            q = "'"
            if rng is not None and rng.random() < 0.3:
                q = '"'
            r.raw(lit(d[1], q, rng))
    if c.auto:
        part["auto"].kw("AUTO_INCREMENT")
    if primary:
        part["primary"].kw("PRIMARY KEY")
    for k in order:
        r0.toks.extend(part[k].toks)
    return r0


def index_tokens(r, i, rng=None, named=True):
    if i.kind == "PRIMARY":
        r.kw("PRIMARY KEY")
    elif i.kind == "UNIQUE":
        r.kw(rng.choice(["UNIQUE", "UNIQUE KEY", "UNIQUE INDEX"]) if rng else "UNIQUE KEY")
        if named:
            r.id(i.name)
    else:
        r.kw(rng.choice(["KEY", "INDEX"]) if rng else "KEY").id(i.name)
    r.p("(")
    for n, c in enumerate(i.cols):
        if n:
            r.p(",")
        r.id(c)
    r.p(")")


def auto_name(i, names):
    """The name MySQL gives to an index without one, after these."""
    name, k = i.cols[0], 1
    while name.lower() in (x.lower() for x in names):
        k += 1
        name = "%s_%d" % (i.cols[0], k)
    return name


def fk_tokens(r, f, rng=None, bare=False):
    if not bare:
        r.kw("CONSTRAINT").id(f.name)
    r.kw("FOREIGN KEY").p("(").id(f.col).p(")").kw("REFERENCES").id(f.ref_table).p("(").id(f.ref_col).p(")")
    d, u = f.on_delete, f.on_update
    if rng is not None:
        if M.norm_action(d) == "RESTRICT":
            d = rng.choice([None, "RESTRICT", "NO ACTION"])
        if M.norm_action(u) == "RESTRICT":
            u = rng.choice([None, "RESTRICT", "NO ACTION"])
    if d:
        r.kw("ON DELETE " + d)
    if u:
        r.kw("ON UPDATE " + u)


def bare_ok(t, f):
    return f.name == ("%s_%s_%s_fk" % (t.name, f.col, f.ref_table))[:64]


def option_text(k, v, rng=None):
    name = "DEFAULT CHARSET" if k == "CHARSET" else k
    if rng is None or rng.random() < 0.5:
        return "%s=%s" % (name, v)
    if k == "CHARSET":
        name = rng.choice(["DEFAULT CHARSET", "CHARSET"])
    elif k == "COLLATE":
        name = rng.choice(["COLLATE", "DEFAULT COLLATE"])
    name = rng.choice([name, name, name.lower(), name.capitalize()])
    return name + rng.choice(["=", " = ", " =", "= "]) + rng.choice([v, v, v.lower()])


def table_tokens(t, rng=None, style=None):
    st = style or {}
    r = R()
    r.kw("CREATE TABLE")
    if rng is not None and rng.random() < 0.2:
        r.kw("IF NOT EXISTS")
    r.id(t.name).p("(")
    first = True
    skip = set()
    bare = set()
    inline_pk = None
    if rng is not None:
        for f in t.fks.values():
            if bare_ok(t, f) and t.indexed(f.col) and rng.random() < 0.6:
                bare.add(f.name)
                i = t.idxs.get(f.col)
                others = [x for x in t.idxs.values() if x is not i and x.cols[0] == f.col]
                if i is not None and i.kind == "INDEX" and i.cols == (f.col,) and not others and rng.random() < 0.6:
                    skip.add(f.col)
        pk = t.primary
        if pk is not None and len(pk.cols) == 1 and pk.cols[0] in t.cols and rng.random() < 0.3:
            c = t.cols[pk.cols[0]]
            if c.type in M.INT_TYPES or c.type in ("char", "varchar", "bit"):
                inline_pk = c.name
    els = []
    for c in t.cols.values():
        x = R()
        column_tokens(x, c, rng, dict(st, widths=False, synonyms=False, integer=True) if (t.name, c.name) in st.get("fixed", ()) else st, c.name == inline_pk)
        els.append(x)
    idx = [i for n, i in t.idxs.items() if not (i.kind == "PRIMARY" and inline_pk) and i.name not in skip]
    fks = list(t.fks.values())
    tail = []
    order = idx + fks
    if rng is not None and st.get("shuffle", True) and rng.random() < 0.4:
        rng.shuffle(order)
    names = []
    for i in order:
        x = R()
        if i in idx:
            named = i.kind != "UNIQUE" or rng is None or auto_name(i, names) != i.name or rng.random() < 0.5
            index_tokens(x, i, rng, named)
            names.append(i.name)
        else:
            fk_tokens(x, i, rng, i.name in bare)
        tail.append(x)
    for x in els + tail:
        if not first:
            r.p(",")
        first = False
        r.toks.extend(x.toks)
    r.p(")")
    opts = [option_text(k, v, rng) for k, v in t.options]
    if rng is not None and rng.random() < 0.15:
        # the server's counter, which a dump prints: no property of the table
        opts.insert(rng.randint(0, len(opts)), rng.choice(["AUTO_INCREMENT=%d", "auto_increment=%d", "Auto_Increment = %d"]) % rng.choice([1, 7, 20000]))
    for n, o in enumerate(opts):
        r.toks.append(("opt", o))
        if n + 1 < len(opts) and rng is not None and rng.random() < 0.3:
            r.p(",")
    r.p(";")
    return r


def row_groups(t, rng=None):
    """[(columns or None, [rows])] covering t.rows in order."""
    groups = []
    for row in t.rows:
        cols = tuple(c for c in t.cols if c in row)
        if rng is not None and rng.random() < 0.5:
            cols = list(cols)
            rng.shuffle(cols)
            cols = tuple(cols)
        if rng is None or rng.random() < 0.6:
            for g in groups[-1:]:
                if set(g[0]) == set(cols):
                    g[1].append(row)
                    break
            else:
                groups.append((cols, [row]))
        else:
            groups.append((cols, [row]))
    return groups


def other_number(c, v, rng):
    """The same number written in another way."""
    if c.type == "decimal" and "." in v:
        return v + "0" * rng.randint(0, 3)
    if c.type not in M.INT_TYPES + ("decimal",) or not v.lstrip("-").isdecimal():
        return v
    sign, digits = ("-", v[1:]) if v[0] == "-" else (rng.choice(["", "", "+"]), v)
    return sign + rng.choice([digits, "0" + digits, "000" + digits, digits + ".0", digits + "."])


def insert_tokens(t, cols, rows, rng=None):
    r = R()
    r.kw("INSERT INTO").id(t.name)
    r.p("(")
    for n, c in enumerate(cols):
        if n:
            r.p(",")
        r.id(c)
    r.p(")")
    r.kw("VALUES")
    for m, row in enumerate(rows):
        if m:
            r.p(",")
        r.p("(")
        for n, cn in enumerate(cols):
            if n:
                r.p(",")
            v = row[cn]
            if cn == "id" and v is not None and rng is not None and rng.random() < 0.1:
                v = other_number(t.cols[cn], v, rng)
            if v is None:
                r.kw("NULL")
            elif rng is not None and v in ("0", "1") and cn != "id" and t.cols[cn].type in M.INT_TYPES and rng.random() < 0.2:
                r.kw("TRUE" if v == "1" else "FALSE")
            elif t.cols[cn].type in M.INT_TYPES + M.FLOAT_TYPES + ("decimal",) and (rng is None or rng.random() < 0.6):
                r.raw(v)
            else:
                r.raw(lit(v, "'", rng))
        r.p(")")
    r.p(";")
    return r


COMMENT_BODIES = ["note", "it's a comment", 'say "hi"', "CREATE TABLE x (a int);", "a;b", "INSERT INTO t VALUES (1)", "`tick", "(", ")", ",", "",
                  "drop -- this", "# hash", "key", "'", "é ☃"]


def separator(rng, need, level):
    """White space (and comments) between two tokens."""
    if level == 0:
        return " " if need else ""
    r = rng.random()
    if not need and r < 0.35:
        return ""
    if r < 0.75 or level == 1:
        return rng.choice([" ", " ", "  ", "\n", "\n    ", "\t", "\r\n", " \n\n "])
    b = rng.choice(COMMENT_BODIES)
    k = rng.randrange(3)
    if k == 0:
        return " -- %s\n" % b
    if k == 1:
        return " # %s\n" % b
    return " /* %s */ " % b.replace("*/", "")


def word_like(tok):
    kind, s = tok
    return kind in ("kw", "opt") or (kind == "id") or (kind == "raw")


def text(r, rng=None, level=0, kwcase=None, quote_ids=True):
    """level 0: single spaces; 1: white space; 2: white space and comments."""
    out = []
    prev = None
    for tok in r.toks:
        kind, s = tok
        if kind == "kw":
            if kwcase == "lower":
                s = s.lower()
            elif kwcase == "mixed" and rng is not None:
                s = rng.choice([s.lower(), s.upper(), s.capitalize()])
        elif kind == "id":
            q = quote_ids if rng is None else (rng.random() < 0.6)
            if q or not SIMPLE.match(s) or is_reserved(s):
                s = "`%s`" % s
        if prev is not None:
            need = word_like(prev) and word_like(tok)
            if kind == "opt" and prev[0] == "p":
                need = True
            lv = level
            if rng is None:
                out.append(" " if need or prev[1] in (",", ")") or (kind == "p" and s == "(") else "")
            else:
                out.append(separator(rng, need, lv))
        out.append(s)
        prev = tok
    return "".join(out)


def is_reserved(s):
    from .sqllex import RESERVED

    return s.lower() in RESERVED


def create(t, rng=None, level=0, style=None):
    return text(table_tokens(t, rng, style), rng, level, rng and rng.choice([None, "lower", "mixed"]))


def inserts(t, rng=None, level=0):
    if t.rows is None:
        return []
    return [text(insert_tokens(t, c, rows, rng), rng, level, rng and rng.choice([None, "lower", "mixed"])) for c, rows in row_groups(t, rng)]


def fixed_widths(s):
    """Columns whose declared length matters: the tool compares it between both ends of a foreign key."""
    out = set()
    for t in s.tables.values():
        for f in t.fks.values():
            out |= {(t.name, f.col), (f.ref_table, f.ref_col)}
    return out


def schema_sql(s, rng=None, level=0, style=None):
    """List of statements declaring the schema and its rows."""
    out = []
    if rng is not None:
        style = dict(style or {}, fixed=fixed_widths(s))
    for t in s.tables.values():
        out.append(create(t, rng, level, style))
        out.extend(inserts(t, rng, level))
    return out
