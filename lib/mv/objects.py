"""The tool's public definition objects built from the model, and random edits made on both at once."""
from . import gen, model as M

from mygrations.formats.mysql.definitions.columns import Date, Enum, Numeric, String
from mygrations.formats.mysql.definitions.constraint import Constraint
from mygrations.formats.mysql.definitions.index import Index
from mygrations.core.definitions.option import Option
from mygrations.formats.mysql.definitions.table import Table
from mygrations.formats.mysql.file_reader.database import Database


def column(c, native=False):
    """native: whole numbers as int, as a program would give them"""
    cls = Numeric if c.type in M.NUMERIC_TYPES else Date if c.type in M.DATE_TYPES else Enum if c.type in M.ENUM_TYPES else String
    d = c.default
    if native and d is not None and d[0] == "num" and d[1].lstrip("-").isdigit():
        d = ("num", int(d[1]))
    length = ",".join(c.args) if c.args else None
    if native and c.args and len(c.args) == 1:
        length = int(c.args[0])
    return cls(
        name=c.name, column_type=c.type.upper(), length=length, null=c.null, has_default=d is not None,
        default=None if d is None or d[0] == "null" else d[1], unsigned=bool(c.unsigned), character_set=c.charset, collate=c.collate,
        auto_increment=bool(c.auto), enum_values=list(c.values) if c.values is not None else None)


def index(i):
    return Index(name=i.name, columns=list(i.cols), index_type=i.kind)


def constraint(f):
    return Constraint(name=f.name, column_name=f.col, foreign_table_name=f.ref_table, foreign_column_name=f.ref_col,
                      on_delete=f.on_delete or "", on_update=f.on_update or "")


def table(t, native=False):
    return Table(t.name, columns=[column(c, native) for c in t.cols.values()], indexes=[index(i) for i in t.idxs.values()],
                 constraints=[constraint(f) for f in t.fks.values()], options=[Option(k, v) for k, v in t.options or ()])


def database(schema, native=False):
    db = Database("")
    for t in schema.tables.values():
        db.add_table(table(t, native))
    return db
