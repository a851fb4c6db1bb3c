"""Drives the code under test through its public entry points and reads its answers.

Everything is imported from the working tree of the repository (sys.path is set by run.py); nothing here looks at
how the tool is written, only at documented calls, properties, return values, output and what reaches the server.
"""
import contextlib
import io
import os
import re

from . import model as M
from .server import Connection, Server

from mygrations.core.commands import execute as _execute
from mygrations.formats.mysql.db_reader.database import Database as LiveDatabase
from mygrations.formats.mysql.file_reader.database import Database as FileDatabase
from mygrations.formats.mysql.mygrations.mygration import Mygration
from mygrations.formats.mysql.mygrations.row_mygration import RowMygration
from mygrations.drivers.pymysql.pymysql import PyMySQL
from .harness import Stuck


class Run:
    """Outcome of one command."""

    __slots__ = ("cmds", "ok", "exc", "out", "err", "log", "raw")

    def __repr__(self):
        return "Run(ok=%r, exc=%r, cmds=%r)" % (self.ok, self.exc, self.cmds)

    @property
    def sent(self):
        return [x[1] for x in self.log if x[0] != "commit" and x[0] != "rollback"]

    @property
    def writes(self):
        return [x[1] for x in self.log if x[0] in ("ddl", "dml")]

    @property
    def non_reads(self):
        return [x[1] for x in self.log if x[0] not in ("read",)]


def run(command, server=None, files="", connection=None, force=False, printing=False, options=None):
    """Runs a command.  Exceptions are captured in .exc; the statements it sent are in .log."""
    r = Run()
    opts = {"sql_files": files}
    if server is not None and connection is None:
        connection = Connection(server)
    if connection is not None:
        opts["connection"] = connection
    if force:
        opts["force"] = True
    if options is not None:
        opts = options
    start = len(server.log) if server is not None else 0
    out, errs = io.StringIO(), io.StringIO()
    r.cmds, r.ok, r.exc, r.raw = [], None, None, None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(errs):
            r.raw = _execute(command, opts, printing)
    except Stuck:
        raise
    except Exception as e:
        r.exc = e
    else:
        try:
            r.cmds = [str(x) for x in r.raw[0]]
            r.ok = bool(r.raw[1])
        except Exception as e:
            r.exc = e
    r.out, r.err = out.getvalue(), errs.getvalue()
    r.log = list(server.log[start:]) if server is not None else []
    return r


def check(files, force=False):
    """(errors, exception)"""
    r = run("check", files=files)
    return r


def live(schema, flavour="mysql80", style=None, table_order="sorted", rng=None):
    """A server holding the schema, loaded through its own SQL front end."""
    from . import render

    srv = Server(flavour, style=style, table_order=table_order)
    ses = {"fk_checks": False, "autocommit": True}
    for q in render.schema_sql(schema):
        srv.execute(q, ses)
    srv.commit()
    for st in srv.tables.values():
        srv.check_table(st.t)
    reset(srv)
    return srv


def reset(srv):
    del srv.log[:]
    del srv.actions[:]
    del srv.notes[:]
    srv.counter = 0
    srv.commits = 0
    srv.connections = 0
    srv.fault = None


# ---------------------------------------------------------------------------------------------
# reading the tool's in-memory objects


def col_of(c):
    t = c.column_type.lower()
    t = M.SYNONYMS.get(t, t)
    args = None
    length = c.length
    if length not in (None, "", False):
        args = tuple(x.strip() for x in str(length).split(","))
    default = None
    if c.has_default:
        d = c.default
        if d is None:
            default = ("null",)
        elif t in M.DATE_TYPES and re.match(r"(?i)current_timestamp", str(d)):
            default = ("kw", "CURRENT_TIMESTAMP")
        elif t in M.NUMERIC_TYPES:
            default = ("num", str(d))
        else:
            default = ("str", str(d))
    values = tuple(c.enum_values) if t in M.ENUM_TYPES and c.enum_values else None
    if t in M.ENUM_TYPES:
        args = None
    return M.Col(c.name, t, args, bool(c.unsigned), bool(c.null), default, bool(c.auto_increment),
                 c.character_set or None, c.collate or None, values)


def idx_of(i):
    kind = i.index_type
    return M.Idx("" if kind == "PRIMARY" else i.name, kind, tuple(i.columns))


def action(a):
    a = (a or "").upper()
    return None if a in ("", "RESTRICT", "NO ACTION") else a


def fk_of(f):
    return M.FK(f.name, f.column_name, f.foreign_table_name, f.foreign_column_name, action(f.on_delete), action(f.on_update))


def table_of(t):
    m = M.Table(t.name, [col_of(c) for c in t.columns.values()], [idx_of(i) for i in t.indexes.values()],
                [fk_of(f) for f in t.constraints.values()])
    if t.tracking_rows:
        m.rows = [{k: (None if v is None else str(v)) for k, v in r.items()} for r in (t.rows or {}).values()]
    return m


def schema_of(db):
    return M.Schema([table_of(t) for t in db.tables.values()])


def read(files):
    return FileDatabase(files)


def read_live(srv_or_conn):
    conn = srv_or_conn if isinstance(srv_or_conn, Connection) else Connection(srv_or_conn)
    return LiveDatabase(PyMySQL(connection=conn))


# ---------------------------------------------------------------------------------------------
# exact comparison of what two definitions declare


def exact_table(t, options=False):
    """Everything a declaration says, in a normal form that only merges equivalent spellings."""
    cols = [M.norm_col(c) + (raw_len(c),) for c in t.cols.values()]
    idxs = sorted((i.kind, i.name, i.cols) for i in t.idxs.values())
    fks = sorted((f.name,) + M.norm_fk(f) for f in t.fks.values())
    return {"columns": cols, "indexes": idxs, "foreign keys": fks}


def raw_len(c):
    if c.type in M.INT_TYPES + ("year",):
        return ()
    return M.norm_type(c)


def exact_rows(t):
    if t.rows is None:
        return None
    out = {}
    for r in t.rows:
        out[r["id"]] = {k: v for k, v in r.items()}
    return out


def exact_diff(have, want, rows=True):
    """Differences between two declared schemas (models), exact."""
    out = []
    if sorted(have.tables) != sorted(want.tables):
        out.append("tables %s instead of %s" % (sorted(have.tables), sorted(want.tables)))
    for n in want.tables:
        if n not in have.tables:
            continue
        a, b = exact_table(have.tables[n]), exact_table(want.tables[n])
        for k in a:
            if a[k] != b[k]:
                x = [i for i in a[k] if i not in b[k]]
                y = [i for i in b[k] if i not in a[k]]
                out.append("table %s: %s: %r instead of %r" % (n, k, x or a[k], y or b[k]))
        if rows:
            ra, rb = exact_rows(have.tables[n]), exact_rows(want.tables[n])
            if ra != rb:
                if ra is None or rb is None:
                    out.append("table %s: rows %r instead of %r" % (n, ra, rb))
                else:
                    for k in sorted(set(ra) | set(rb)):
                        if ra.get(k) != rb.get(k):
                            out.append("table %s: row %s is %r instead of %r" % (n, k, ra.get(k), rb.get(k)))
    return out


# ---------------------------------------------------------------------------------------------
# files on disk


def write_files(rng, root, statements, layout=None):
    """Distributes statements over files/directories under root; returns the sql_files argument."""
    os.makedirs(root, exist_ok=True)
    n = rng.randint(1, 4)
    parts = [[] for _ in range(n)]
    for s in statements:
        parts[rng.randrange(n)].append(s)
    paths = []
    for i, p in enumerate(parts):
        d = os.path.join(root, "d%d" % (i % 2)) if layout == "dirs" else root
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s%d.sql" % (rng.choice(["a", "m", "z"]), i))
        with open(path, "w", encoding="utf8", newline="") as f:
            f.write("\n".join(p))
        paths.append(path)
    if layout == "dirs":
        return [os.path.join(root, x) for x in sorted(os.listdir(root))]
    if layout == "files":
        return paths
    return root
