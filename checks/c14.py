"""C14: plan_export reproduces the live database; every command of the command line runs and reports."""
import contextlib
import io
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
from unittest import mock

from mv import gen, harness, model as M, render, server, tool, world

PROPERTY = "C14"
LEVEL = "exploration"
CASES = {"quick": 5000, "thorough": 60000}
RULE = ("one evaluation = one plan_export judged by what it lists, by the database its output creates on an empty server and by the plan after its output has replaced the files, or one command line; "
        "non-trivial = some, but not all tables are listed; distinct = different outputs")
ASSUMPTIONS = [
    "the server is the model in lib/mv/server.py; the printed definitions follow MySQL 5.7, MySQL 8.0 and MariaDB, except that MariaDB's DEFAULT NULL on nullable TEXT columns is left out (known finding text-null)",
    "a table whose columns only stand in another order may be listed or not",
]
MINIMUM = {"quick": {"exports": 2500, "listed": 4000, "not_listed": 1000, "rows_exported": 300, "cli": 150}, "thorough": {"exports": 30000}}
TITLE = re.compile("\033\\[1;33m\033\\[41m(.*)\033\\[0m$")
GONE = "This table does not exist in the database"


def state(srv):
    return repr([(n, repr(st.t), st.t.options, [sorted(r.items(), key=str) for r in st.rows], st.next_auto) for n, st in sorted(srv.tables.items())])


def sections(out):
    """Printed output -> [(table, text)]"""
    res = []
    for line in out.split("\n"):
        m = TITLE.match(line)
        if m:
            res.append([m.group(1), []])
        elif res:
            res[-1][1].append(line)
        elif line.strip():
            return None
    return [(n, "\n".join(x)) for n, x in res]


def table_named(op):
    """Table of an exported statement."""
    m = re.match(r"\s*(CREATE TABLE|INSERT INTO)\s+`([^`]*)`", op, re.I)
    return m and (m.group(1).split()[0].upper(), m.group(2))


def must_list(s, name):
    """True, False, or None when both are fine."""
    h, w = s.have.tables.get(name), s.want.tables.get(name)
    if h is None or w is None:
        return True
    if M.diff_tables(h, w, world.fk_names(s.have, s.want), False):
        return True
    if w.rows is not None and world.check_rows_of(s.server.tables[name], w):
        return True
    if M.diff_tables(h, w, world.fk_names(s.have, s.want), True):
        return None
    return False


def expressible(s):
    """Whether the printed definitions are within what the tool accepts in files (see the finding text-null)."""
    for n in s.server.tables:
        _, _, els, _ = server.parse_create(s.server.show_create(n))
        for kind, x in (e[:2] for e in els):
            if kind == "col" and x.type in M.NO_DEFAULT_TYPES and (x.charset or x.collate or x.default is not None):
                return False
    if s.style.get("implied_charset"):
        # declared charsets next to printed ones: the declaration leaves open what the server has made explicit
        for sc in (s.have, s.want):
            for t in sc.tables.values():
                if any(t.cols[f.col].type in M.STRINGY for f in t.fks.values()):
                    return False
    return True


LENGTH = re.compile(r"length mismatch\. `(.*)`\.`(.*)` is '\d+' but `(.*)`\.`(.*)` is '\d+'$")


def only_widths(lines, s):
    def integer(t, c):
        return any(t in x.tables and c in x.tables[t].cols and x.tables[t].cols[c].type in M.INT_TYPES for x in (s.want, s.server.schema()))

    found = [LENGTH.search(x) for x in lines if x.startswith("Constraint error")]
    return bool(found) and len(found) == len(lines) - 1 and all(m and integer(m[1], m[2]) and integer(m[3], m[4]) for m in found)


def export(c):
    rng = c.rng
    n = rng.choice([0, 1, 1, 1, 2, 2, 3, 5])
    for _ in range(4):
        s = world.build(c, nedits=n)
        if expressible(s):
            break
    else:
        raise harness.Skip("definitions the tool takes for errors")
    srv = s.server
    ctx = world.context(s, server=[srv.show_create(n) for n in srv.tables])
    c.context = dict(ctx)
    before = state(srv)
    tool.reset(srv)
    a = tool.run("plan_export", srv, s.files)
    c.evals += 1
    c.count("exports")
    if a.exc is not None or not a.ok:
        c.violation("plan_export fails: %r %s" % (a.exc, a.err), **ctx)
        return
    if a.out:
        c.violation("plan_export prints although it was told not to: %r" % a.out[:200], **ctx)
        return
    b = tool.run("plan_export", srv, s.files, printing=True)
    c.evals += 1
    if b.exc is not None or (a.cmds, a.ok) != (b.cmds, b.ok):
        c.violation("plan_export asked twice: %r" % b.exc, one=a.cmds, other=b.cmds, **ctx)
        return
    bad = [x for x in a.log + b.log if x[0] not in ("read", "commit", "rollback")]
    if bad or state(srv) != before:
        c.violation("plan_export changes the server: %r" % bad[:3], **ctx)
        return
    sec = sections(b.out)
    if sec is None:
        c.violation("plan_export prints something before the first table: %r" % b.out[:200], **ctx)
        return
    names = [n for n, _ in sec]
    if len(set(names)) != len(names):
        c.violation("plan_export lists a table twice: %s" % names, **ctx)
        return
    # which tables
    everything = set(s.have.tables) | set(s.want.tables)
    if set(names) - everything:
        c.violation("plan_export lists unknown tables: %s" % (set(names) - everything), **ctx)
        return
    for n in sorted(everything):
        m = must_list(s, n)
        if m is not None and m != (n in names):
            c.violation("table %s is %s although it %s" % (n, "listed" if n in names else "not listed", "differs" if m else "does not differ"), out=b.out, **ctx)
            return
        c.count("listed" if n in names else "not_listed")
    # what is printed for them
    per = {n: [] for n in names}
    for op in a.cmds:
        t = table_named(op)
        if t is None or t[1] not in per:
            c.violation("plan_export returns %r for no listed table" % op[:200], **ctx)
            return
        per[t[1]].append((t[0], op))
    for n, text in sec:
        if n not in s.have.tables:
            if per[n] or GONE not in text:
                c.violation("plan_export does not say that table %s is missing in the database" % n, text=text, **ctx)
                return
            c.count("missing_reported")
            continue
        kinds = [k for k, _ in per[n]]
        if kinds[:1] != ["CREATE"] or kinds.count("CREATE") != 1 or GONE in text:
            c.violation("plan_export gives %s for table %s" % (kinds, n), text=text, **ctx)
            return
        if any(op not in text for _, op in per[n]):
            c.violation("plan_export prints other text than it returns for table %s" % n, text=text, returned=per[n], **ctx)
            return
        rest = text
        for _, op in per[n]:
            rest = rest.replace(op, "", 1)
        if rest.strip():
            c.violation("plan_export prints more than it returns for table %s: %r" % (n, rest), **ctx)
            return
        tracked = n in s.want.tables and s.want.tables[n].rows is not None
        inserts = kinds.count("INSERT")
        expect = len(srv.tables[n].rows) if tracked else 0
        if inserts != expect:
            c.violation("plan_export gives %d rows of table %s instead of %d" % (inserts, n, expect), text=text, **ctx)
            return
        c.count("rows_exported", inserts)
    if names and set(names) != everything:
        c.nontrivial = True
        c.fingerprint.add(world.digest(*a.cmds))
    # the exported statements make the same tables on an empty server
    fresh = server.Server(s.flavour, style=s.style)
    ses = {"fk_checks": False, "autocommit": True}
    for op in a.cmds:
        try:
            fresh.execute(op, ses)
        except server.Rejected as e:
            c.violation("an exported statement is refused: %s" % e, statement=op, **ctx)
            return
    made = fresh.schema()
    fk = world.fk_names(s.have, s.want)
    live = srv.schema()
    for n in names:
        if n not in live.tables:
            continue
        if n not in made.tables:
            c.violation("the export does not create table %s" % n, returned=a.cmds, **ctx)
            return
        d = M.diff_tables(made.tables[n], live.tables[n], fk, True)
        if d:
            c.violation("the export of table %s differs from the live table: %s" % (n, "; ".join(d[:3])), returned=a.cmds, **ctx)
            return
        if n in s.want.tables and s.want.tables[n].rows is not None:
            x = sorted(repr(sorted(r.items())) for r in fresh.tables[n].rows)
            y = sorted(repr(sorted(r.items())) for r in srv.tables[n].rows)
            if x != y:
                c.violation("the exported rows of table %s differ from the live ones" % n, exported=x, live_rows=y, **ctx)
                return
    # the output in place of the files of these tables
    kept = M.Schema()
    for n, t in s.want.tables.items():
        if n not in names:
            kept.tables[n] = t
    stm = list(a.cmds)
    linked, n = everything - set(kept.tables), None
    while n != len(linked):
        n = len(linked)
        for t in list(s.want.tables.values()) + list(s.have.tables.values()):
            for f in t.fks.values():
                if t.name in linked or f.ref_table in linked:
                    linked |= {t.name, f.ref_table}
    if linked & set(kept.tables):
        # the tool wants equal display widths on both sides of a foreign key: these files are written the way the server prints them,
        # but name no charset which the declaration leaves open (the live column may have another one)
        like = tool.live(s.want, s.flavour, dict(s.style or {}, implied_charset=False))
    for n, t in kept.tables.items():
        stm.append(like.show_create(n) + ";" if n in linked else render.create(t))
        if t.rows is not None:
            stm += render.inserts(t)
    rng.shuffle(stm)
    files = "\n".join(stm)
    ctx["replaced"] = stm
    r = tool.run("check", files=files)
    if r.exc is None and not r.ok and only_widths(r.cmds, s):
        # display widths of integers on both sides of a foreign key: the tool insists on equal ones, the declared ones differ
        c.count("display_widths_differ")
        return
    if r.exc is not None or not r.ok:
        c.violation("check complains about the exported files: %r %s" % (r.exc, r.cmds[:3]), **ctx)
        return
    r = tool.run("plan", srv, files)
    c.evals += 1
    if r.exc is not None or not r.ok or r.cmds:
        c.violation("the plan with the exported files: %r %s" % (r.exc, r.cmds), **ctx)
        return
    r = tool.run("plan_export", srv, files, printing=True)
    c.evals += 1
    if r.exc is not None or not r.ok or r.cmds or r.out.strip():
        c.violation("plan_export with the exported files: %r %s" % (r.exc, r.cmds or r.out), **ctx)
        return
    c.sample = {"edits": s.log, "listed": names, "first": a.cmds[:1]}


VERSION = re.compile(r"\d+(\.\d+)+")


def script():
    return os.path.join(os.environ.get("MV_REPO", "/repo"), "mygrate.py")


def in_process(args, cwd, connect):
    """Runs mygrate.py; (exit code, stdout, stderr)."""
    import pymysql

    out, err = io.StringIO(), io.StringIO()
    argv, before = sys.argv, os.getcwd()
    sys.argv = ["mygrate.py"] + args
    os.chdir(cwd)
    code = None
    try:
        with mock.patch.object(pymysql, "connect", connect), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                runpy.run_path(script(), run_name="__main__")
            except SystemExit as e:
                code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            except harness.Stuck:
                raise
            except Exception as e:
                code = repr(e)
    finally:
        sys.argv = argv
        os.chdir(before)
    return code, out.getvalue(), err.getvalue()


def subprocessed(args, cwd):
    p = subprocess.run([sys.executable, "-W", "ignore", script()] + args, cwd=cwd, capture_output=True, timeout=100,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.environ.get("MV_REPO", "/repo")))
    return p.returncode, p.stdout.decode(), p.stderr.decode()


def cli(c):
    """The command line does what the commands do."""
    rng = c.rng
    s = world.build(c, nedits=rng.choice([0, 1, 2, 3]))
    if not expressible(s):
        raise harness.Skip("definitions the tool takes for errors")
    broken = rng.random() < 0.25
    stm = list(s.stm)
    if broken:
        stm.insert(rng.randint(0, len(stm)), rng.choice([
            "CREATE TABLE zz (id INT NOT NULL, PRIMARY KEY (id), CONSTRAINT q FOREIGN KEY (id) REFERENCES nowhere (id));", "CREATE TABLE zz (id INT);;; garbage",
            "CREATE TABLE zz (id INT NOT NULL, PRIMARY KEY (nope));", "INSERT INTO nowhere (id) VALUES (1);"]))
    root = tempfile.mkdtemp(prefix="mv14_")
    try:
        tool.write_files(rng, os.path.join(root, "sql"), stm, None)
        with open(os.path.join(root, "e.env"), "w") as f:
            f.write("H=h\nU=u\nP=p\nD=d\n")
        name = rng.choice(["mygrate.conf", "mygrate.conf", "other.conf"])
        with open(os.path.join(root, name), "w") as f:
            f.write("hostname_key=H\nusername_key=U\npassword_key=P\ndatabase_key=D\nenv_file=e.env\nfiles_directory=sql\n")
        cwd = os.path.join(root, "x", "y") if rng.random() < 0.4 else root
        os.makedirs(cwd, exist_ok=True)
        conf = [] if name == "mygrate.conf" else ["--config", name]
        if rng.random() < 0.2:
            conf = ["--config", os.path.join(root, name)]
        command = rng.choice(["plan", "plan", "apply", "apply", "check", "check", "plan_export", "plan_export", "version", None, "-v"])
        files = os.path.join(root, "sql")
        a, b = s.server.clone(), s.server.clone()
        tool.reset(a)
        tool.reset(b)
        connects = []

        def connect(*args, **kw):
            connects.append(1)
            return server.Connection(a)

        force = rng.random() < 0.15
        args = ([command] if command not in (None, "-v") else []) + (["-v"] if command == "-v" else []) + conf + (["-f"] if force else [])
        if command == "-v" and rng.random() < 0.5:
            args = [rng.choice(["plan", "apply", "check"])] + args
        rng.random() < 0.3 and args.sort(key=lambda x: x.startswith("-f"))
        ctx = {"args": args, "declared": stm, "live": render.schema_sql(s.have), "broken": broken}
        c.context = dict(ctx)
        c.evals += 1
        c.count("cli")
        c.seen("command_lines", (command, force, broken))
        if command in ("check", "version", None, "-v") and rng.random() < 0.25:
            c.count("cli_subprocess")
            code, out, err = subprocessed(args, cwd)
        else:
            code, out, err = in_process(args, cwd, connect)
        ctx.update(code=code, out=out[:2000], err=err[:2000])
        if command in (None, "-v", "version"):
            want = getattr(__import__("mygrations"), "__version__", None)
            if code != 0 or not out.strip() or not VERSION.search(out):
                c.violation("the command line for the version gives %r and %r" % (code, out[:200]), **ctx)
            elif want and want not in out:
                c.violation("another version than %s is printed: %r" % (want, out[:200]), **ctx)
            elif connects:
                c.violation("showing the version connects", **ctx)
            return
        # the same through the library
        opts = {"sql_files": files}
        if force:
            opts["force"] = True
        r = tool.run(command, b, options=dict(opts, connection=server.Connection(b)), printing=True)
        if r.exc is not None:
            if not (force and broken and code == repr(r.exc)):
                c.violation("%s fails with %r" % (command, r.exc), **ctx)
            return
        if code != (0 if r.ok else 1):
            c.violation("mygrate.py %s exits with %r although the command returns %r" % (command, code, r.ok), **ctx)
            return
        if (out, err) != (r.out, r.err):
            c.violation("mygrate.py %s prints something else than the command" % command, library=r.out[:2000], library_err=r.err[:2000], **ctx)
            return
        if state(a) != state(b) or [x for x in a.log if x[0] != "read"] != [x for x in b.log if x[0] != "read"]:
            c.violation("mygrate.py %s does something else than the command" % command, one=a.log, other=b.log, **ctx)
            return
        if broken and not force and command in ("plan", "apply", "check") and code != 1:
            c.violation("mygrate.py %s exits with %r on a broken declaration" % (command, code), **ctx)
            return
        if not broken and code != 0:
            c.violation("mygrate.py %s exits with %r" % (command, code), **ctx)
            return
        if not (out + err).strip() and command != "plan" and (command != "plan_export" or r.cmds):
            c.violation("mygrate.py %s says nothing" % command, **ctx)
            return
        if bool(connects) != (command != "check"):
            if not (broken and not connects):
                c.violation("mygrate.py %s connects %d times" % (command, len(connects)), **ctx)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def case(c):
    c.evals = 0
    c.fingerprint = set()
    if c.rng.random() < 0.2:
        cli(c)
    else:
        export(c)


def import_missing():
    try:
        tool._execute("import", {"sql_files": "CREATE TABLE t (id INT NOT NULL, PRIMARY KEY (id));", "connection": server.Connection(server.Server())}, False)
    except ImportError:
        return True
    except Exception:
        return False
    return False


def text_null():
    srv = server.Server("mariadb", style={})
    srv.execute("CREATE TABLE t (id INT NOT NULL, n TEXT, PRIMARY KEY (id))", {"fk_checks": True, "autocommit": True})
    r = tool.run("plan_export", srv, "CREATE TABLE t (id INT NOT NULL, PRIMARY KEY (id));")
    return r.exc is None and not r.ok and "DEFAULT NULL" in srv.show_create("t").upper()


FINDINGS = {"import-missing": import_missing, "text-null": text_null}
