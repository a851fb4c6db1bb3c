"""Random edits of tables and databases, made on the model and on the tool's objects at once."""
from . import breaks, gen, model as M, objects

from mygrations.formats.mysql.mygrations import operations as F
from mygrations.core import operations as C


def _ops(mod):
    """The operation classes of one of the two families, by kind of edit."""
    out = {}
    names = {"add_column": ["AddColumn"], "remove_column": ["RemoveColumn"], "change_column": ["ChangeColumn"],
             "add_index": ["AddKey", "AddIndex"], "remove_index": ["RemoveKey", "RemoveIndex"], "change_index": ["ChangeKey", "ChangeIndex"],
             "add_constraint": ["AddConstraint"], "remove_constraint": ["RemoveConstraint"], "change_constraint": ["ChangeConstraint"]}
    import importlib
    import pkgutil

    classes = {}
    for m in pkgutil.iter_modules(mod.__path__):
        if m.name.endswith("_test"):
            continue
        x = importlib.import_module(mod.__name__ + "." + m.name)
        for k, v in vars(x).items():
            if isinstance(v, type) and v.__module__ == x.__name__:
                classes[k] = v
    for kind, ns in names.items():
        for n in ns:
            if n in classes:
                out[kind] = classes[n]
    return out


FAMILIES = [_ops(F), _ops(C)]


class History:
    """schema (model) and db (tool) are kept in step."""

    def __init__(self, rng, g, schema, db, breakage=0.3, whole_tables=True):
        self.rng, self.g, self.s, self.db = rng, g, schema, db
        self.breakage = breakage
        self.whole_tables = whole_tables

    def edit(self, tname, kind, *args):
        """One edit of a table of the tool, by a method or by an operation object."""
        t = self.db.tables[tname]
        r = self.rng.random()
        if r < 0.4:
            getattr(t, kind)(*args)
            return "method"
        fam = FAMILIES[0] if r < 0.8 else FAMILIES[1]
        if kind not in fam:
            getattr(t, kind)(*args)
            return "method"
        op = fam[kind](*args)
        if self.rng.random() < 0.5:
            t.apply_operation(op)
        else:
            self.db.apply_operation(tname if self.rng.random() < 0.7 else t, op)
        return "operation"

    def step(self):
        rng, s = self.rng, self.s
        kinds = ["add_column", "remove_column", "change_column", "change_column", "add_index", "remove_index", "change_index", "add_constraint", "remove_constraint", "change_constraint"]
        if self.whole_tables:
            kinds += ["add_table", "remove_table"]
        kind = rng.choice(kinds)
        if kind == "add_table":
            n = rng.choice([x for x in gen.TABLE_NAMES if x not in s.tables])
            t = self.g.table(n)
            t.rows = None
            s.tables[n] = t
            self.db.add_table(objects.table(t))
            return "add table " + n
        if not s.tables:
            return None
        t = rng.choice(list(s.tables.values()))
        n = t.name
        if kind == "remove_table":
            if len(s.tables) < 2:
                return None
            x = self.db.tables[n]
            self.db.remove_table(x)
            del s.tables[n]
            return "remove table " + n
        return getattr(self, "s_" + kind)(t)

    # every edit: model first on a copy of the part, then the tool
    def bent(self, t, name):
        """Another definition for a column: sometimes one that breaks a rule."""
        rng = self.rng
        if rng.random() < self.breakage:
            tmp = M.Schema([M.Table("tmp_x", [t.cols[name].copy() if name in t.cols else self.g.col(name)])])
            for _ in range(3):
                b = rng.choice([breaks.b_numeric_default, breaks.b_bit, breaks.b_float_length, breaks.b_int_length, breaks.b_charset, breaks.b_auto, breaks.b_values,
                                breaks.b_text_default, breaks.b_text_length, breaks.b_date_length, breaks.b_unsigned, breaks.b_enum_default, breaks.b_enum_values])
                if b(rng, self.g, tmp):
                    break
            return tmp.tables["tmp_x"].cols[name]
        c = self.g.col(name)
        return c

    def s_add_column(self, t):
        rng = self.rng
        name = self.g.fresh_col_name(t)
        if name is None:
            return None
        c = self.bent(t, name)
        pos = rng.choice([False, True, None] + list(t.cols))
        self.edit(t.name, "add_column", objects.column(c), pos)
        if pos is True:
            t.cols = {c.name: c, **t.cols}
        elif not pos:
            t.cols[c.name] = c
        else:
            new = {}
            for k, v in t.cols.items():
                new[k] = v
                if k == pos:
                    new[c.name] = c
            t.cols = new
        return "add column %s.%s at %s" % (t.name, c.name, pos)

    def s_remove_column(self, t):
        if not t.cols:
            return None
        n = self.rng.choice(list(t.cols))
        x = self.db.tables[t.name].columns[n]
        self.edit(t.name, "remove_column", x if self.rng.random() < 0.7 else objects.column(t.cols[n]))
        del t.cols[n]
        return "remove column %s.%s" % (t.name, n)

    def s_change_column(self, t):
        if not t.cols:
            return None
        n = self.rng.choice(list(t.cols))
        c = self.bent(t, n)
        self.edit(t.name, "change_column", objects.column(c))
        t.cols[n] = c
        return "change column %s.%s to %r" % (t.name, n, c)

    def some_index(self, t, name, kind=None):
        rng = self.rng
        cols = list(t.cols) or ["nowhere"]
        if rng.random() < self.breakage * 0.4:
            cols.append("nowhere")
        k = rng.sample(cols, min(len(cols), rng.choice([1, 1, 2, 3])))
        return M.Idx("" if kind == "PRIMARY" else name, kind or rng.choice(["INDEX", "UNIQUE"]), k)

    def s_add_index(self, t):
        rng = self.rng
        if "PRIMARY" not in t.idxs and rng.random() < 0.5:
            i = self.some_index(t, "", "PRIMARY")
        else:
            n = rng.choice(["k%d" % rng.randint(1, 9), rng.choice(list(t.cols) or ["k0"])])
            if n in t.idxs or n == "PRIMARY":
                return None
            if rng.random() < self.breakage * 0.1:
                n = (n * 70)[:rng.choice([64, 65])]
                if n in t.idxs:
                    return None
            i = self.some_index(t, n)
        self.edit(t.name, "add_index", objects.index(i))
        t.idxs["PRIMARY" if i.kind == "PRIMARY" else i.name] = i
        return "add index %s.%r" % (t.name, i)

    def s_remove_index(self, t):
        if not t.idxs:
            return None
        n = self.rng.choice(list(t.idxs))
        x = self.db.tables[t.name].indexes[n]
        self.edit(t.name, "remove_index", x if self.rng.random() < 0.7 else objects.index(t.idxs[n]))
        del t.idxs[n]
        return "remove index %s.%s" % (t.name, n)

    def s_change_index(self, t):
        if not t.idxs:
            return None
        n = self.rng.choice(list(t.idxs))
        i = self.some_index(t, n, "PRIMARY" if n == "PRIMARY" else None)
        self.edit(t.name, "change_index", objects.index(i))
        t.idxs[n] = i
        return "change index %s.%s to %r" % (t.name, n, i)

    def some_fk(self, t, name):
        rng = self.rng
        tabs = list(self.s.tables.values())
        ft = rng.choice(tabs)
        f = M.FK(name, rng.choice(list(t.cols) or ["nowhere"]), ft.name, rng.choice(list(ft.cols) or ["nowhere"]))
        if rng.random() < 0.6:
            # fitting ends
            pairs = [(c.name, x.name, y.name) for c in t.cols.values() for x in tabs for y in x.cols.values()
                     if c.type == y.type and c.type in M.INT_TYPES and (x is not t or c is not y) and x.indexed(y.name)]
            if pairs:
                f.col, f.ref_table, f.ref_col = rng.choice(pairs)
        elif rng.random() < 0.3:
            f.ref_table = rng.choice(["no_table"] + gen.TABLE_NAMES)
        f.on_delete = rng.choice([None, "CASCADE", "SET NULL", "RESTRICT", "NO ACTION"] + (["SOMETHING"] if rng.random() < self.breakage else []))
        f.on_update = rng.choice([None, "CASCADE", "SET NULL", "RESTRICT"])
        return f

    def s_add_constraint(self, t):
        rng = self.rng
        n = rng.choice(["fk_%d" % rng.randint(1, 9), "%s_fk_%d" % (t.name, rng.randint(1, 9))])
        if n in t.fks:
            return None
        f = self.some_fk(t, n)
        self.edit(t.name, "add_constraint", objects.constraint(f))
        t.fks[n] = f
        return "add constraint %s.%r" % (t.name, f)

    def s_remove_constraint(self, t):
        if not t.fks:
            return None
        n = self.rng.choice(list(t.fks))
        x = self.db.tables[t.name].constraints[n]
        self.edit(t.name, "remove_constraint", x if self.rng.random() < 0.7 else objects.constraint(t.fks[n]))
        del t.fks[n]
        return "remove constraint %s.%s" % (t.name, n)

    def s_change_constraint(self, t):
        if not t.fks:
            return None
        n = self.rng.choice(list(t.fks))
        f = self.some_fk(t, n)
        self.edit(t.name, "change_constraint", objects.constraint(f))
        t.fks[n] = f
        return "change constraint %s.%s to %r" % (t.name, n, f)
