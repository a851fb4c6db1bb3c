"""Generators of declared schemas, rows and live states (seeded; nothing imported from mygrations)."""
import random

from . import model as M
from . import valid

TABLE_NAMES = ["accounts", "users", "roles", "logs", "types", "unique_things", "key_store", "primary_contacts",
               "index_cards", "constraint_sets", "foreign_parts", "check_ins", "tags", "t1", "create_events", "inserts",
               "user", "users_old", "t10", "tag"]
COL_NAMES = ["name", "status", "account_id", "user_id", "created", "email", "unique_id", "key_name", "index_no",
             "primary_email", "constraint_note", "check_sum", "foreign_ref", "enum_kind", "null_ok", "default_value",
             "references_no", "comment_text", "not_null_flag", "unsigned_amount", "auto_increment_no", "set_of",
             "description", "total", "price", "flag", "parent_id", "type_id", "c1", "c2", "int_value", "varchar_value",
             "collate_x", "on_update_at", "text_body", "keyed", "indexed", "uniqueness",
             "c", "c10", "status_id", "created_at", "price_2", "type", "email_type"]
HOSTILE_BITS = ["'", '"', "\\", ",", "(", ")", ";", "--", "-- ", "#", "/*", "*/", "`", "%", "%s", "  ", " ", "NULL", "null",
                "CURRENT_TIMESTAMP", "007", "1e3", "0", "é", "日本", "\\n", "\\'", "''", "=", "KEY", "PRIMARY KEY", "DEFAULT",
                "a", "b", "Z", "x(1)", "INSERT INTO", "CREATE TABLE x (", "$1", "\\0", "{", "}", "|", "&", "😀", "ß", ":", "?"]
CHARSETS = [("utf8", "utf8_general_ci"), ("utf8", "utf8_unicode_ci"), ("utf8mb4", "utf8mb4_bin"), ("latin1", "latin1_bin"),
            ("utf8mb4", "utf8mb4_unicode_ci")]


def hostile(rng, maxlen=30, newline=False):
    r = rng.random()
    if r < 0.12:
        return ""
    if r < 0.3:
        return rng.choice(["plain", "a b", "x", "Some Text", "1", "0", "12.50", "007", "NULL", "null", "true", "it's", "a\\b"])[:maxlen]
    bits = HOSTILE_BITS + (["\n", "\n-- ", "\n;\n", "\t"] if newline else [])
    s = ""
    for _ in range(rng.randint(1, 6)):
        s += rng.choice(bits)
    return s[:maxlen]


def plain(rng):
    return rng.choice(["", "a", "abc", "pending", "x y", "0", "it is", "7"])


class Gen:
    def __init__(self, rng, hostile_defaults=True, charsets=True, options=True, blobs=True, fk_actions=True, bits=True,
                 rows=True, fks=True):
        self.rng = rng
        self.hostile_defaults = hostile_defaults
        self.charsets = charsets
        self.options = options
        self.blobs = blobs
        self.fk_actions = fk_actions
        self.bits = bits
        self.rows = rows
        self.fks = fks
        self.counter = 0

    def chance(self, p):
        return self.rng.random() < p

    # -- columns ---------------------------------------------------------------------------------
    def text_default(self, maxlen=20):
        s = hostile(self.rng, maxlen) if self.hostile_defaults else plain(self.rng)[:maxlen]
        return s

    def col(self, name, tracked=False, fkable=False):
        rng = self.rng
        fam = rng.choices(["int", "decimal", "float", "bit", "char", "bin", "text", "blob", "date", "enum", "json"],
                          [30, 8, 4, 3, 22, 3, 8, 3, 12, 9, 2])[0]
        if fkable:
            fam = rng.choices(["int", "char"], [5, 2])[0]
        if tracked and fam in ("bit", "bin", "json"):
            fam = "int"
        if not self.bits and fam == "bit":
            fam = "int"
        if not self.blobs and fam in ("blob", "bin", "json"):
            fam = "char"
        null = self.chance(0.6)
        d = None
        c = M.Col(name, "int", null=null)
        if fam == "int":
            c.type = rng.choice(M.INT_TYPES)
            c.unsigned = self.chance(0.4)
            if self.chance(0.5):
                c.args = (rng.choice(["1", "4", "5", "10", "11", "20"]),)
            if self.chance(0.5):
                d = ("num", rng.choice(["0", "1", "42", "100"] + ([] if c.unsigned else ["-1", "-7"])))
        elif fam == "decimal":
            c.type = "decimal"
            p, s = rng.choice([("10", "2"), ("20", "5"), ("7", "4"), ("8", "0"), ("10", "0"), ("3", "3")])
            c.args = (p, s)
            c.unsigned = self.chance(0.2)
            if self.chance(0.5):
                d = ("num", rng.choice(["0", "0.00", "0.5", "0.125", "0.10", "0.0004", ".25"] + (["1.5", "3"] if p != "3" else [])))
        elif fam == "float":
            c.type = rng.choice(M.FLOAT_TYPES)
            c.unsigned = self.chance(0.2)
            if self.chance(0.5):
                d = ("num", rng.choice(["0", "1.5", "0.25", "100", "2.0"]))
        elif fam == "bit":
            c.type = "bit"
            c.args = rng.choice([("1",), ("1",), ("8",), None])
            if self.chance(0.5):
                d = ("num", rng.choice(["0", "1"] + (["5"] if c.args == ("8",) else [])))
        elif fam == "char":
            c.type = rng.choice(("varchar", "varchar", "varchar", "char"))
            n = rng.choice([5, 20, 36, 64, 255])
            if c.type == "char":
                n = rng.choice([1, 2, 10, 36])
            c.args = (str(n),)
            if self.chance(0.55):
                d = ("str", self.text_default(n))
                if c.type == "char":
                    d = ("str", d[1].rstrip(" "))
            self.add_charset(c)
        elif fam == "bin":
            c.type = rng.choice(M.BIN_TYPES)
            c.args = (rng.choice(["4", "16", "64"]),)
            if c.type == "varbinary" and self.chance(0.3):
                d = ("str", rng.choice(["", "ab", "x'y"][: 3]))
        elif fam == "text":
            c.type = rng.choice(M.TEXT_TYPES)
        elif fam == "blob":
            c.type = rng.choice(M.BLOB_TYPES)
        elif fam == "json":
            c.type = "json"
        elif fam == "date":
            c.type = rng.choice(("date", "datetime", "datetime", "time", "year"))
            if c.type == "year":
                c.args = rng.choice([None, ("4",)])
            if self.chance(0.45):
                d = {"date": ("str", rng.choice(["2001-02-03", "1999-12-31"])),
                     "datetime": rng.choice([("kw", "CURRENT_TIMESTAMP"), ("str", "2001-02-03 04:05:06")]),
                     "time": ("str", rng.choice(["00:00:00", "12:30:45"])),
                     "year": ("str", rng.choice(["2001", "1999"]))}[c.type]
        else:
            c.type = rng.choice(M.ENUM_TYPES)
            pool = ["active", "inactive", "a b", "x", "0", "it's", "y\"z", "semi;colon", "b(1)", "NULL", "é", "back\\slash", "end\\"]
            if c.type == "enum":
                pool += ["a,b", ""]
            if not self.hostile_defaults:
                pool = ["active", "inactive", "pending", "x", "y"]
            c.values = tuple(rng.sample(pool, rng.randint(1, 4)))
            if self.chance(0.5):
                d = ("str", rng.choice(c.values))
                if c.type == "set":
                    k = [v for v in c.values if self.chance(0.5)]
                    d = ("str", ",".join(k))
            self.add_charset(c, 0.08)
        if d is None and null and c.type not in M.NO_DEFAULT_TYPES and self.chance(0.3):
            d = ("null",)
        c.default = d
        return c

    def add_charset(self, c, p=0.15):
        if not self.charsets:
            return
        if self.chance(p):
            cs, co = self.rng.choice(CHARSETS)
            if self.chance(0.7):
                c.charset = cs
            if self.chance(0.5) or c.charset is None:
                c.collate = co
            if cs == "latin1":
                if c.default and c.default[0] == "str":
                    c.default = ("str", c.default[1].encode("ascii", "ignore").decode())
                if c.values and any(not v.isascii() for v in c.values):
                    c.charset = c.collate = None

    # -- tables ----------------------------------------------------------------------------------
    def fresh_col_name(self, t):
        free = [n for n in COL_NAMES if n not in t.cols]
        return self.rng.choice(free)

    def table(self, name, tracked=False, wide=7):
        rng = self.rng
        t = M.Table(name)
        style = rng.choices(["auto", "plainid", "varcharpk", "composite", "none"], [60, 14, 8, 8, 10])[0]
        if tracked:
            style = rng.choice(["auto", "auto", "plainid"])
        if style in ("auto", "plainid"):
            c = M.Col("id", rng.choice(["int", "int", "bigint", "mediumint", "smallint"]), unsigned=self.chance(0.7), null=False)
            if self.chance(0.5):
                c.args = ("10",) if c.type == "int" else None
            c.auto = style == "auto"
            t.cols["id"] = c
            t.idxs["PRIMARY"] = M.Idx("", "PRIMARY", ["id"])
        elif style == "varcharpk":
            t.cols["id"] = M.Col("id", rng.choice(["varchar", "char"]), args=("36",), null=False)
            t.idxs["PRIMARY"] = M.Idx("", "PRIMARY", ["id"])
        for _ in range(rng.randint(1, wide)):
            n = self.fresh_col_name(t)
            t.cols[n] = self.col(n, tracked)
        if style == "composite":
            for n in ("left_no", "right_no"):
                t.cols[n] = M.Col(n, "int", unsigned=self.chance(0.5), null=False)
            t.idxs["PRIMARY"] = M.Idx("", "PRIMARY", ["left_no", "right_no"])
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            self.add_index(t, unique=False if tracked else None)
        if self.options and self.chance(0.3):
            self.set_options(t)
        return t

    def set_options(self, t):
        rng = self.rng
        t.options = [("ENGINE", "InnoDB")]
        if self.chance(0.7):
            t.options.append(("CHARSET", rng.choice(["utf8", "utf8mb4", "latin1"])))
            if self.chance(0.4):
                t.options.append(("COLLATE", {"utf8": "utf8_unicode_ci", "utf8mb4": "utf8mb4_bin", "latin1": "latin1_bin"}[t.options[-1][1]]))

    def indexable(self, t):
        return [c.name for c in t.cols.values() if c.type not in M.NO_DEFAULT_TYPES]

    def add_index(self, t, unique=None, cols=None, name=None):
        rng = self.rng
        if cols is None:
            cand = self.indexable(t)
            if not cand:
                return None
            cols = rng.sample(cand, min(len(cand), rng.choice([1, 1, 2, 3])))
        if name is None:
            for _ in range(20):
                name = rng.choice([cols[0], cols[0], cols[0] + "_2", "_".join(cols), cols[0] + "_idx", "idx_%d" % rng.randint(1, 9), "key_%s" % cols[0]])[:64]
                if name not in t.idxs and name.upper() != "PRIMARY":
                    break
            else:
                return None
        if name in t.idxs:
            return None
        kind = "UNIQUE" if (unique if unique is not None else self.chance(0.3)) else "INDEX"
        i = M.Idx(name, kind, cols)
        t.idxs[name] = i
        return i

    def fk_name(self, schema, t, col, ref):
        used = {f.name for x in schema.tables.values() for f in x.fks.values()}
        for _ in range(30):
            n = self.rng.choice(["%s_%s_%s_fk" % (t.name, col, ref), "%s_%s_fk" % (t.name, col), "%s_%s_ref_%s" % (t.name, col, ref),
                                 "fk_%d" % self.rng.randint(1, 30)])[:64]
            if n not in used:
                return n
        return None

    def add_fk(self, schema, t=None, initial=False):
        """Adds one valid foreign key, adjusting or adding a column; returns the FK or None."""
        rng = self.rng
        tabs = list(schema.tables.values())
        t = t or rng.choice(tabs)
        for _ in range(10):
            ft = rng.choice(tabs)
            cand = [i.cols[0] for i in ft.idxs.values()]
            cand = [c for c in cand if ft.cols[c].type in M.INT_TYPES + M.CHAR_TYPES]
            if initial and self.chance(0.15):
                cand = [c for c in cand if ft.cols[c].type in M.CHAR_TYPES] or cand
            if not cand:
                continue
            fcn = rng.choice(cand)
            fc = ft.cols[fcn]
            # an existing matching column, or a new one
            exist = [c.name for c in t.cols.values() if c is not fc and c.type == fc.type and valid.raw_length(c) == valid.raw_length(fc)
                     and bool(c.unsigned) == bool(fc.unsigned) and c.charset == fc.charset and c.collate == fc.collate and not c.auto]
            if exist and self.chance(0.5):
                cn = rng.choice(exist)
            else:
                free = [n for n in ["parent_id", "account_id", "user_id", "type_id", "foreign_ref", "c1", "c2", "status"] if n not in t.cols]
                if not free:
                    continue
                cn = rng.choice(free)
                if initial and self.charsets and fc.type in M.CHAR_TYPES and ft.rows is None and not self.used_in_fk(schema, ft.name, fcn) and self.chance(0.4):
                    cs, co = rng.choice(CHARSETS[:3])
                    fc.charset, fc.collate = cs, (co if self.chance(0.5) else None)
                if t.rows is not None:
                    c = fc.copy(name=cn, null=True, default=None, auto=False)
                else:
                    c = fc.copy(name=cn, null=self.chance(0.7), default=None, auto=False)
                t.cols[cn] = c
            c = t.cols[cn]
            name = self.fk_name(schema, t, cn, ft.name)
            if name is None:
                continue
            acts = [None, None, "CASCADE", "RESTRICT", "NO ACTION"]
            if c.null:
                acts.append("SET NULL")
            f = M.FK(name, cn, ft.name, fcn, rng.choice(acts), rng.choice(acts + [None, None]))
            if not t.indexed(cn):
                nm = rng.choice([cn, cn, name, cn + "_idx"])
                if nm in t.idxs:
                    nm = cn + "_fkidx"
                    if nm in t.idxs:
                        continue
                more = [x for x in self.indexable(t) if x != cn] if self.chance(0.3) else []
                t.idxs[nm] = M.Idx(nm, "INDEX", [cn] + ([rng.choice(more)] if more else []))
            t.fks[name] = f
            return f
        return None

    # -- rows ------------------------------------------------------------------------------------
    def value(self, c, k=0):
        """A literal text for the column which the server stores and prints unchanged."""
        rng = self.rng
        t = c.type
        if c.null and self.chance(0.15):
            return None
        if t in M.INT_TYPES:
            return str(rng.choice([0, 1, 2, 17, 100, 127] + ([] if c.unsigned else [-1, -5])))
        if t == "decimal":
            p, s = (list(c.args or ("10", "0")) + ["0"])[:2]
            v = rng.choice(["0", "1", "12"] if int(p) - int(s) >= 2 else ["0"])
            s = int(s)
            if s:
                v += "." + "".join(rng.choice("0123456789") for _ in range(s))
            return v
        if t in M.FLOAT_TYPES:
            return rng.choice(["0.5", "1.5", "2.25", "100.0", "3"])
        if t in M.CHAR_TYPES:
            n = int(c.args[0])
            s = hostile(rng, n)
            s = self.ascii_if(c, s)
            if t == "char":
                s = s.rstrip(" ")
                if self.chance(0.1):
                    # the server does not keep these
                    s += " " * rng.randint(0, n - len(s))
            return s
        if t in M.TEXT_TYPES:
            return self.ascii_if(c, hostile(rng, 60))
        if t in M.BLOB_TYPES:
            return hostile(rng, 40).encode("ascii", "ignore").decode()
        if t == "varbinary":
            return hostile(rng, int(c.args[0])).encode("ascii", "ignore").decode()
        if t == "enum":
            return rng.choice(c.values)
        if t == "set":
            return ",".join(v for v in c.values if self.chance(0.5))
        if t == "date":
            return "20%02d-0%d-1%d" % (rng.randint(0, 30), rng.randint(1, 9), rng.randint(0, 9))
        if t in ("datetime", "timestamp") and self.chance(0.15):
            return "20%02d-0%d-1%d" % (rng.randint(0, 30), rng.randint(1, 9), rng.randint(0, 9)) + rng.choice(["", "", "T0%d:1%d:00" % (rng.randint(0, 9), rng.randint(0, 9))])
        if t in ("datetime", "timestamp"):
            return "20%02d-0%d-1%d 0%d:1%d:00" % (rng.randint(0, 30), rng.randint(1, 9), rng.randint(0, 9), rng.randint(0, 9), rng.randint(0, 9))
        if t == "time":
            return rng.choice(["00:00:00", "01:02:03", "23:59:59", "-01:02:03", "123:45:06", "-00:00:07", "838:59:59"])
        if t == "year":
            return str(rng.randint(1990, 2030))
        return None if c.null else "0"

    def ascii_if(self, c, s):
        name = (c.charset or c.collate or "").lower()
        if name.startswith("latin1"):
            return s.encode("ascii", "ignore").decode()
        return s

    def trackable(self, t):
        pk = t.primary
        if pk is None or pk.cols != ("id",) or t.cols["id"].type not in M.INT_TYPES:
            return False
        if any(c.type in ("bit", "json", "binary", "timestamp") for c in t.cols.values()):
            return False
        return True

    def unique_cols(self, t):
        return {c for i in t.idxs.values() if i.kind == "UNIQUE" for c in i.cols}

    def row(self, t, rid, full=None):
        """One declared row; columns in unique keys get values determined by the id."""
        u = self.unique_cols(t)
        full = self.chance(0.6) if full is None else full
        r = {}
        for c in t.cols.values():
            if c.name == "id":
                r["id"] = str(rid)
                continue
            must = (not c.null and (c.default is None or c.default[0] == "null")) or c.name in u
            if not (full or must or self.chance(0.6)):
                continue
            r[c.name] = self.unique_value(c, rid) if c.name in u else self.value(c)
        return r

    def unique_value(self, c, rid):
        t = c.type
        if t in M.INT_TYPES:
            return str(rid % 120)
        if t == "decimal":
            p, s = (list(c.args or ("10", "0")) + ["0"])[:2]
            return None
        if t in M.CHAR_TYPES and int(c.args[0]) >= 3:
            return "u%d" % (rid % 99)
        if t in M.TEXT_TYPES + M.BLOB_TYPES:
            return "u%d" % rid
        return None

    def fill_rows(self, t, n=None):
        rng = self.rng
        if not self.trackable(t):
            return False
        u = self.unique_cols(t)
        for name in u:
            c = t.cols[name]
            if name != "id" and not (c.null or self.unique_value(c, 1) is not None):
                return False
        n = rng.choice([1, 1, 2, 3, 5]) if n is None else n
        ids = rng.sample(range(1, 40), n)
        t.rows = [self.row(t, i) for i in ids]
        return True

    # -- schemas ---------------------------------------------------------------------------------
    def schema(self, ntables=None, nfks=None, names=None):
        rng = self.rng
        for _ in range(50):
            s = M.Schema()
            n = ntables or rng.choices([1, 2, 3, 4, 5, 6], [10, 20, 25, 20, 15, 10])[0]
            for name in (names or rng.sample(TABLE_NAMES, n)):
                s.tables[name] = self.table(name, tracked=self.rows and self.chance(0.35))
            if self.fks:
                for _ in range(rng.choice([0, 1, 1, 2, 3, 5]) if nfks is None else nfks):
                    self.add_fk(s, initial=True)
            if self.rows:
                for t in s.tables.values():
                    if self.chance(0.45):
                        self.fill_rows(t)
            self.settle_options(s)
            if not valid.problems(s):
                return s
        raise RuntimeError("generator found no valid schema")

    def settle_options(self, *schemas):
        """String foreign keys without an explicit charset and collation need equal table options."""
        for s in schemas:
            for t in s.tables.values():
                for f in t.fks.values():
                    c = t.cols.get(f.col)
                    if c is not None and c.type in M.CHAR_TYPES and not (c.charset and c.collate):
                        for s2 in schemas:
                            for x in s2.tables.values():
                                x.options = []
                        return

    # -- edits -----------------------------------------------------------------------------------
    EDITS = ["add_col", "add_col", "drop_col", "change_col", "change_col", "retype", "add_idx", "drop_idx", "change_idx", "rename_idx",
             "add_fk", "add_fk", "drop_fk", "change_fk", "rename_fk", "add_table", "drop_table", "fk_type", "fk_type", "pk", "autoinc",
             "fk_index", "fk_twice"]

    def fk_group(self, s, tn, cn):
        grp = {(tn, cn)}
        while True:
            more = set(grp)
            for t in s.tables.values():
                for f in t.fks.values():
                    if (t.name, f.col) in more or (f.ref_table, f.ref_col) in more:
                        more |= {(t.name, f.col), (f.ref_table, f.ref_col)}
            if more == grp:
                return grp
            grp = more

    def used_in_fk(self, s, tn, cn):
        return any((t.name == tn and f.col == cn) or (f.ref_table == tn and f.ref_col == cn) for t in s.tables.values() for f in t.fks.values())

    def edit(self, s, kind=None):
        """One random valid edit of s, in place; returns a description or None (then s is unchanged)."""
        rng = self.rng
        for _ in range(12):
            k = kind or rng.choice(self.EDITS)
            c = s.copy()
            d = getattr(self, "e_" + k)(c)
            if d is None or valid.problems(c):
                continue
            if any(t.rows is not None and not self.trackable(t) for t in c.tables.values()):
                continue
            s.tables = c.tables
            return "%s %s" % (k, d)
        return None

    def pick(self, s, pred=lambda t: True):
        ts = [t for t in s.tables.values() if pred(t)]
        return self.rng.choice(ts) if ts else None

    def e_add_col(self, s):
        t = self.pick(s)
        n = self.fresh_col_name(t)
        c = self.col(n, tracked=t.rows is not None)
        if t.rows is not None:
            c.null = True
        items = list(t.cols.items())
        p = self.rng.randint(0, len(items))
        items.insert(p, (n, c))
        t.cols = dict(items)
        if t.rows is not None:
            for r in t.rows:
                if self.chance(0.7):
                    r[n] = self.value(c)
        return "%s.%s" % (t.name, n)

    def e_drop_col(self, s):
        t = self.pick(s, lambda t: len(t.cols) > 2)
        if t is None:
            return None
        n = self.rng.choice(list(t.cols))
        if n == "id" and t.rows is not None:
            return None
        # things hanging on the column go with it
        for x in s.tables.values():
            for fn in [fn for fn, f in x.fks.items() if (x is t and f.col == n) or (f.ref_table == t.name and f.ref_col == n)]:
                del x.fks[fn]
        del t.cols[n]
        for iname in list(t.idxs):
            i = t.idxs[iname]
            if n in i.cols:
                rest = tuple(c for c in i.cols if c != n)
                if rest and i.kind != "PRIMARY" and self.chance(0.5):
                    t.idxs[iname] = i.copy(cols=rest)
                else:
                    del t.idxs[iname]
        if t.rows is not None:
            for r in t.rows:
                r.pop(n, None)
        return "%s.%s" % (t.name, n)

    def e_change_col(self, s):
        t = self.pick(s)
        n = self.rng.choice(list(t.cols))
        c = t.cols[n]
        what = self.rng.choice(["null", "default", "values", "charset", "length"])
        pk = t.primary is not None and n in t.primary.cols
        if what == "null":
            if pk or (t.rows is not None and c.null):
                return None
            c.null = not c.null
            if not c.null and c.default and c.default[0] == "null":
                c.default = None
            if not c.null and t.rows is not None:
                return None
        elif what == "default":
            if c.auto or pk:
                return None
            donor = None
            for _ in range(60):
                donor = self.col(n)
                if donor.type == c.type and (donor.args == c.args or donor.type in M.INT_TYPES) and donor.values is None and bool(donor.unsigned) == bool(c.unsigned):
                    break
                donor = None
            if donor is None:
                if c.type in M.ENUM_TYPES:
                    donor = c.copy(default=self.rng.choice([None, ("str", self.rng.choice(c.values))]))
                else:
                    donor = c.copy(default=None)
            d = donor.default
            if d and d[0] == "null" and not c.null:
                d = None
            if d and d[0] == "str" and (c.charset or c.collate or "").lower().startswith("latin1"):
                d = ("str", d[1].encode("ascii", "ignore").decode())
            c.default = d
            if t.rows is not None and not c.null and d is None:
                return None
        elif what == "values":
            if c.type not in M.ENUM_TYPES:
                return None
            extra = self.rng.choice(["zzz", "new value", "o'clock", "Q"])
            if extra in c.values:
                return None
            if self.chance(0.7):
                c.values = c.values + (extra,)
            if len(c.values) > 1 and self.chance(0.5):
                # the same values in another order
                k = self.rng.randint(1, len(c.values) - 1)
                c.values = c.values[k:] + c.values[:k]
                if c.type == "set":
                    # the server gives the members of a SET in the order of the values
                    same = lambda v: ",".join(x for x in c.values if x in v.split(","))
                    if c.default and c.default[0] == "str":
                        c.default = ("str", same(c.default[1]))
                    for r in t.rows or ():
                        if r.get(n) is not None:
                            r[n] = same(r[n])
        elif what == "charset":
            if c.type not in M.CHAR_TYPES or self.used_in_fk(s, t.name, n) or not self.charsets:
                return None
            cs, co = self.rng.choice(CHARSETS[:3])
            c.charset, c.collate = cs, co
        else:
            if c.type not in ("varchar", "char") or self.used_in_fk(s, t.name, n):
                return None
            c.args = (str(int(c.args[0]) + self.rng.choice([1, 10])),)
            if c.type == "char" and int(c.args[0]) > 255:
                return None
        return "%s.%s %s" % (t.name, n, what)

    def e_retype(self, s):
        t = self.pick(s, lambda t: t.rows is None)
        if t is None:
            return None
        n = self.rng.choice(list(t.cols))
        c = t.cols[n]
        if self.used_in_fk(s, t.name, n) or c.auto:
            return None
        new = self.col(n)
        if any(n in i.cols for i in t.idxs.values()) and new.type in M.NO_DEFAULT_TYPES:
            return None
        if t.primary and n in t.primary.cols:
            new.null = False
            if new.default and new.default[0] == "null":
                new.default = None
        t.cols[n] = new
        return "%s.%s to %s" % (t.name, n, new.type)

    def e_add_idx(self, s):
        t = self.pick(s)
        i = self.add_index(t, unique=False if t.rows is not None else None)
        return i and "%s.%s" % (t.name, i.name)

    def e_drop_idx(self, s):
        t = self.pick(s, lambda t: any(n != "PRIMARY" for n in t.idxs))
        if t is None:
            return None
        n = self.rng.choice([n for n in t.idxs if n != "PRIMARY"])
        del t.idxs[n]
        return "%s.%s" % (t.name, n)

    def e_change_idx(self, s):
        t = self.pick(s, lambda t: any(n != "PRIMARY" for n in t.idxs))
        if t is None:
            return None
        n = self.rng.choice([n for n in t.idxs if n != "PRIMARY"])
        i = t.idxs[n]
        if self.chance(0.5) and t.rows is None:
            t.idxs[n] = i.copy(kind="UNIQUE" if i.kind == "INDEX" else "INDEX")
        else:
            cand = self.indexable(t)
            cols = list(i.cols)
            if self.chance(0.3):
                self.rng.shuffle(cols)
            elif len(cols) > 1 and self.chance(0.5):
                cols.pop(self.rng.randrange(len(cols)))
            else:
                more = [x for x in cand if x not in cols]
                if not more:
                    return None
                cols.insert(self.rng.randint(0, len(cols)), self.rng.choice(more))
            if tuple(cols) == i.cols:
                return None
            t.idxs[n] = i.copy(cols=tuple(cols))
        return "%s.%s" % (t.name, n)

    def e_rename_idx(self, s):
        t = self.pick(s, lambda t: any(n != "PRIMARY" for n in t.idxs))
        if t is None:
            return None
        n = self.rng.choice([n for n in t.idxs if n != "PRIMARY"])
        new = "re_" + n[:50]
        if new in t.idxs:
            return None
        t.idxs = {(new if k == n else k): (v.copy(name=new) if k == n else v) for k, v in t.idxs.items()}
        return "%s.%s" % (t.name, n)

    def e_add_fk(self, s):
        if not self.fks:
            return None
        f = self.add_fk(s)
        return f and repr(f)

    def e_drop_fk(self, s):
        t = self.pick(s, lambda t: t.fks)
        if t is None:
            return None
        n = self.rng.choice(list(t.fks))
        f = t.fks.pop(n)
        if self.chance(0.4):
            for iname in [k for k, i in t.idxs.items() if i.cols == (f.col,) and i.kind == "INDEX"]:
                del t.idxs[iname]
        return "%s.%s" % (t.name, n)

    def e_change_fk(self, s):
        t = self.pick(s, lambda t: t.fks)
        if t is None:
            return None
        n = self.rng.choice(list(t.fks))
        f = t.fks[n]
        what = self.rng.choice(["on_delete", "on_update", "target"])
        if what == "target":
            g = s.copy()
            cand = []
            c = t.cols[f.col]
            for x in s.tables.values():
                for i in x.idxs.values():
                    y = x.cols[i.cols[0]]
                    if (x.name, y.name) != (f.ref_table, f.ref_col) and y.type == c.type and valid.raw_length(y) == valid.raw_length(c) and bool(y.unsigned) == bool(c.unsigned):
                        cand.append((x.name, y.name))
            if not cand:
                return None
            f.ref_table, f.ref_col = self.rng.choice(cand)
        else:
            a = self.rng.choice(["CASCADE", "RESTRICT", "NO ACTION", "SET NULL"])
            if M.norm_action(a) == M.norm_action(getattr(f, what)):
                return None
            setattr(f, what, a)
        return "%s.%s %s" % (t.name, n, what)

    def e_rename_fk(self, s):
        t = self.pick(s, lambda t: t.fks)
        if t is None:
            return None
        n = self.rng.choice(list(t.fks))
        new = self.fk_name(s, t, t.fks[n].col, "x")
        if new is None:
            return None
        f = t.fks.pop(n)
        f.name = new
        t.fks[new] = f
        return "%s.%s -> %s" % (t.name, n, new)

    def e_add_table(self, s):
        free = [n for n in TABLE_NAMES if n not in s.tables]
        if not free or len(s.tables) > 7:
            return None
        t = self.table(self.rng.choice(free), wide=4)
        s.tables[t.name] = t
        if self.fks and self.chance(0.6):
            self.add_fk(s, t)
        if self.rows and self.chance(0.3):
            self.fill_rows(t)
        return t.name

    def e_drop_table(self, s):
        if len(s.tables) < 2:
            return None
        t = self.pick(s)
        del s.tables[t.name]
        for x in s.tables.values():
            for fn in [fn for fn, f in x.fks.items() if f.ref_table == t.name]:
                del x.fks[fn]
        return t.name

    def e_fk_index(self, s):
        """The index that serves a foreign key gets another name, columns or kind."""
        rng = self.rng
        t = self.pick(s, lambda t: t.fks)
        if t is None:
            return None
        f = t.fks[rng.choice(list(t.fks))]
        names = [n for n, i in t.idxs.items() if i.kind != "PRIMARY" and i.cols[0] == f.col]
        if not names:
            return None
        old = rng.choice(names)
        i = t.idxs[old]
        cols = list(i.cols)
        new = rng.choice([n for n in (f.name, f.col, f.col + "_idx", old) if n == old or n not in t.idxs])
        what = rng.choice(["same", "more", "fewer", "kind", "order", "order"])
        if what == "order":
            if len(cols) < 2:
                return None
            cols = cols[1:] + cols[:1]
            if not any(n != old and x.cols[0] == f.col for n, x in t.idxs.items()):
                # the key still needs one of its own
                own = rng.choice([n for n in (f.col, f.col + "_own", "a_" + f.col[:50]) if n not in t.idxs and n != new])
                t.idxs[own] = M.Idx(own, "INDEX", (f.col,))
        if what == "more":
            more = [x for x in self.indexable(t) if x not in cols]
            if not more:
                return None
            cols.append(rng.choice(more))
        elif what == "fewer":
            cols = cols[:1]
        kind = i.kind
        if what == "kind" and t.rows is None:
            kind = "UNIQUE" if i.kind == "INDEX" else "INDEX"
        if (new, tuple(cols), kind) == (old, i.cols, i.kind):
            return None
        t.idxs = {(new if k == old else k): (v.copy(name=new, cols=tuple(cols), kind=kind) if k == old else v) for k, v in t.idxs.items()}
        return "%s.%s to %s %s (%s)" % (t.name, old, kind, new, ", ".join(cols))

    def e_fk_twice(self, s):
        """A second foreign key on the same column to the same target, under another name."""
        t = self.pick(s, lambda t: t.fks)
        if t is None:
            return None
        f = t.fks[self.rng.choice(list(t.fks))]
        name = self.fk_name(s, t, f.col, f.ref_table)
        if name is None:
            return None
        t.fks[name] = M.FK(name, f.col, f.ref_table, f.ref_col, f.on_delete, f.on_update)
        return "%s.%s like %s" % (t.name, name, f.name)

    def e_fk_type(self, s):
        """Change the type of a column together with everything its foreign keys connect it to."""
        t = self.pick(s, lambda t: t.fks)
        if t is None:
            return None
        f = t.fks[self.rng.choice(list(t.fks))]
        grp = self.fk_group(s, t.name, f.col)
        c = t.cols[f.col]
        if c.type in M.INT_TYPES:
            new = dict(type=self.rng.choice([x for x in M.INT_TYPES if x != "tinyint"]), unsigned=self.chance(0.5), args=self.rng.choice([None, ("11",)]))
            if new["type"] == c.type and new["unsigned"] == bool(c.unsigned):
                return None
            if new["unsigned"] and any((s.tables[a].rows is not None) or (s.tables[a].cols[b].default or ("", "0"))[1:] not in ((), ("0",), ("1",), ("42",), ("100",)) for a, b in grp):
                new["unsigned"] = False
                if new["type"] == c.type:
                    return None
        elif c.type in M.CHAR_TYPES:
            need = 0
            for a, b in grp:
                d = s.tables[a].cols[b].default
                held = [d[1] if d and d[0] == "str" else ""] + [r.get(b) or "" for r in s.tables[a].rows or []]
                need = max(need, max(len(v) for v in held))
            new = dict(args=(self.rng.choice([x for x in ("40", "64", "80", "255") if int(x) >= need]),))
            if (c.charset or c.collate) and self.charsets and self.chance(0.7):
                # what is named stays named: naming it on one side only is not a difference to the tool
                ascii_only = all(s.tables[a].rows is None and str((s.tables[a].cols[b].default or ("", ""))[1:]).isascii() for a, b in grp)
                cs, co = self.rng.choice(CHARSETS if ascii_only else CHARSETS[:3])
                new = dict(charset=c.charset and cs, collate=c.collate and co)
            if all(getattr(c, k) == v for k, v in new.items()):
                return None
        else:
            return None
        if any(s.tables[a].cols[b].type != c.type for a, b in grp):
            return None
        for a, b in grp:
            s.tables[a].cols[b] = s.tables[a].cols[b].copy(**new)
        return "%s to %s" % (sorted(grp), new)

    def e_pk(self, s):
        t = self.pick(s, lambda t: t.rows is None)
        if t is None:
            return None
        pk = t.primary
        autos = [c.name for c in t.cols.values() if c.auto]
        if pk is None:
            cand = [c.name for c in t.cols.values() if c.type not in M.NO_DEFAULT_TYPES and c.type not in ("bit",)]
            if not cand:
                return None
            cols = self.rng.sample(cand, min(len(cand), self.rng.choice([1, 1, 2])))
            t.idxs = {"PRIMARY": M.Idx("", "PRIMARY", cols), **t.idxs}
            for x in cols:
                t.cols[x].null = False
                if t.cols[x].default and t.cols[x].default[0] == "null":
                    t.cols[x].default = None
            return "%s add" % t.name
        if not autos and self.chance(0.5):
            del t.idxs["PRIMARY"]
            return "%s drop" % t.name
        cand = [c.name for c in t.cols.values() if c.type not in M.NO_DEFAULT_TYPES and c.name not in pk.cols]
        if not cand:
            return None
        extra = self.rng.choice(cand)
        t.idxs["PRIMARY"] = pk.copy(cols=pk.cols + (extra,))
        t.cols[extra].null = False
        if t.cols[extra].default and t.cols[extra].default[0] == "null":
            t.cols[extra].default = None
        return "%s extend" % t.name

    def e_autoinc(self, s):
        t = self.pick(s, lambda t: t.primary is not None and t.cols[t.primary.cols[0]].type in M.INT_TYPES)
        if t is None:
            return None
        c = t.cols[t.primary.cols[0]]
        if any(x.auto for x in t.cols.values() if x is not c):
            return None
        c.auto = not c.auto
        if c.auto:
            c.default = None
        return "%s.%s" % (t.name, c.name)

    def row_edits(self, t, n=None):
        """Vary declared rows (to make a live state out of a declared one)."""
        rng = self.rng
        for _ in range(rng.choice([0, 1, 2, 3]) if n is None else n):
            k = rng.choice(["add", "drop", "change", "change"])
            ids = {int(r["id"]) for r in t.rows}
            if k == "add":
                free = [i for i in range(1, 60 + len(ids)) if i not in ids]
                t.rows.append(self.row(t, rng.choice(free)))
            elif k == "drop" and t.rows:
                t.rows.pop(rng.randrange(len(t.rows)))
            elif t.rows:
                r = rng.choice(t.rows)
                u = self.unique_cols(t)
                cols = [c for c in t.cols.values() if c.name != "id" and c.name not in u]
                if cols:
                    c = rng.choice(cols)
                    r[c.name] = self.value(c)

    def pair(self, nedits=None, live_rows=True):
        """(live schema, declared schema, edits) with the live one a few edits away."""
        want = self.schema()
        have = want.copy()
        log = []
        for _ in range(self.rng.choices([0, 1, 2, 3, 4, 6, 9], [3, 14, 18, 18, 15, 15, 10])[0] if nedits is None else nedits):
            d = self.edit(have)
            if d:
                log.append(d)
        for t in have.tables.values():
            if t.rows is None and t.name in want.tables and want.tables[t.name].rows is not None and self.chance(0.5) and self.trackable(t):
                self.fill_rows(t)
            if t.rows is not None:
                self.row_edits(t)
        self.fit_rows(have, want)
        self.settle_options(have, want)
        return have, want, log

    def fit_rows(self, have, want):
        """Stored values must survive the column changes to come: a migration that fails on the data is not a defect."""
        from . import server

        for t in have.tables.values():
            w = want.tables.get(t.name)
            if t.rows is None or w is None:
                continue
            hopeless = False
            for r in t.rows:
                for c in t.cols.values():
                    wc = w.cols.get(c.name)
                    if wc is None or c.name == "id":
                        continue
                    v = r.get(c.name, None if c.default is None or c.default[0] == "null" else c.default[1])
                    try:
                        if v is None:
                            if not wc.null:
                                raise ValueError
                        else:
                            server.store(wc, server.to_literal(server.store(c, ("str", v) if not (c.default and c.default[0] == "kw" and c.name not in r) else c.default)))
                    except Exception:
                        for x in ("1", "0", "2001", "2001-01-01", "01:01:01", wc.values[0] if wc.values else "", None):
                            try:
                                if x is None:
                                    if c.null and wc.null:
                                        r[c.name] = None
                                    else:
                                        hopeless = True
                                    continue
                                server.store(wc, server.to_literal(server.store(c, ("str", x))))
                                r[c.name] = x
                                break
                            except Exception:
                                continue
            if hopeless or not self._unique_after(t, w) or not self._unique_after(t, t):
                t.rows = []

    def settle_nulls(self, s):
        """Gives declared rows a value where a column has become NOT NULL; whether that was possible."""
        for t in s.tables.values():
            u = self.unique_cols(t)
            for r in t.rows or ():
                for c in t.cols.values():
                    if not c.null and c.name != "id" and c.name in r and r[c.name] is None:
                        if c.name in u:
                            return False
                        for _ in range(20):
                            r[c.name] = self.value(c)
                            if r[c.name] is not None:
                                break
                        else:
                            return False
        return True

    def _unique_after(self, t, w):
        """Whether the rows of t still satisfy the unique keys of w, with new columns at their defaults."""
        from . import server

        for i in w.idxs.values():
            if i.kind not in ("UNIQUE", "PRIMARY") or any(x not in w.cols for x in i.cols):
                continue
            seen = set()
            for r in t.rows:
                k = []
                for n in i.cols:
                    wc, c = w.cols[n], t.cols.get(n)
                    if c is not None and (n in r or n == "id"):
                        v = r.get(n)
                    else:
                        d = (c or wc).default
                        v = None if d is None or d[0] == "null" else d[1]
                        if v is None and not wc.null:
                            v = ""
                    if v is None:
                        k = None
                        break
                    try:
                        v = server.store(wc, ("str", v))
                    except Exception:
                        pass
                    k.append(str(v).lower().rstrip())
                if k is None:
                    continue
                if tuple(k) in seen and not (len(i.cols) == 1 and w.cols[i.cols[0]].auto):
                    return False
                seen.add(tuple(k))
        return True


def fk_charsets_agree(have, want):
    """Foreign keys on string columns: a charset or collation named on one side only is 'not a difference' to
    the tool, but would be one to the server; such pairs are left out."""
    for a, b in ((want, have), (have, want)):
        for t in a.tables.values():
            for f in t.fks.values():
                for tn, cn in ((t.name, f.col), (f.ref_table, f.ref_col)):
                    x = a.tables[tn].cols[cn]
                    y = b.tables[tn].cols.get(cn) if tn in b.tables else None
                    if y is None or x.type not in M.CHAR_TYPES or y.type not in M.STRINGY:
                        continue
                    if (x.charset is None) != (y.charset is None) or (x.collate is None) != (y.collate is None):
                        return False
                    if (M.norm_charset(x.charset), M.norm_charset(x.collate)) != (M.norm_charset(y.charset), M.norm_charset(y.collate)):
                        pass
    return True
