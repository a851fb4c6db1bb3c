"""C12: plan is a read-only, deterministic preview of what apply executes; check never contacts the server."""
import collections
import contextlib
import io
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
from unittest import mock

from mv import breaks, gen, histories, model as M, render, server, tool, world

PROPERTY = "C12"
LEVEL = "exploration"
CASES = {"quick": 1500, "thorough": 30000}
RULE = ("one evaluation = one run of a command compared with another run or with the statement log of the server: plan, apply, check, the same with files or live tables "
        "in another order, with the connection and files supplied in another way, and under another hash seed; non-trivial = the plan is not empty; distinct = different plans")
ASSUMPTIONS = [
    "the server is the model in lib/mv/server.py, reached through the interface of pymysql",
    "results for different orders of files and tables are compared as multisets of statements and by the state they lead to",
]
MINIMUM = {"quick": {"plans": 2500, "applies": 1200, "checks": 800, "supplied": 400, "hash_seed_runs": 200, "reordered": 900, "session_steps": 700}, "thorough": {"plans": 20000}}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SET = ("SET ",)


def state(srv):
    return repr([(n, repr(st.t), st.t.options, [sorted(r.items(), key=str) for r in st.rows], st.next_auto) for n, st in sorted(srv.tables.items())])


class Untouchable:
    """A connection that nobody may use."""

    def __init__(self):
        self.used = []

    def __getattr__(self, k):
        self.used.append(k)
        raise AssertionError("the connection is used: %s" % k)


def printed(r, cmds):
    return all(x in r.out for x in cmds) and "\n".join(cmds) in r.out


def plan(c, srv, files, ctx, label, **kw):
    """Runs plan; it must not change anything."""
    before = state(srv)
    tool.reset(srv)
    r = tool.run("plan", srv, files, **kw)
    c.evals += 1
    c.count("plans")
    d = dict(ctx, plan=r.cmds, label=label)
    if r.exc is not None:
        c.violation("%s: plan fails with %r" % (label, r.exc), **d)
        return None
    bad = [x for x in r.log if x[0] not in ("read", "commit", "rollback")]
    if bad:
        c.violation("%s: plan sends %r" % (label, bad[:3]), **d)
        return None
    if state(srv) != before:
        c.violation("%s: plan changes the server" % label, **d)
        return None
    return r


def apply(c, srv, files, ctx, label, **kw):
    """Runs apply; what it sends is what it returns."""
    tool.reset(srv)
    r = tool.run("apply", srv, files, **kw)
    c.evals += 1
    c.count("applies")
    d = dict(ctx, returned=r.cmds, log=[x for x in r.log if x[0] != "read"], label=label)
    if r.exc is not None:
        c.violation("%s: apply fails with %r" % (label, r.exc), **d)
        return None
    sent = [x[1] for x in r.log if x[0] in ("ddl", "dml", "set")]
    if sent != r.cmds:
        c.violation("%s: apply returns other statements than it sends" % label, sent=sent, **d)
        return None
    order = [x[0] for x in r.log]
    commits = [i for i, x in enumerate(order) if x == "commit"]
    changing = [i for i, x in enumerate(order) if x in ("ddl", "dml", "set")]
    if changing:
        if len(commits) != 1:
            c.violation("%s: %d commits instead of one" % (label, len(commits)), **d)
            return None
        if commits[0] < changing[-1]:
            c.violation("%s: the commit is not after the last statement" % label, **d)
            return None
    elif len(commits) > 1:
        c.violation("%s: %d commits without a statement" % (label, len(commits)), **d)
        return None
    if any(x == "rollback" for x in order):
        c.violation("%s: apply rolls back" % label, **d)
        return None
    if changing and "read" in order[changing[0]:]:
        c.count("reads_during_changes")
    return r


def core(c, s, ctx):
    rng = c.rng
    srv = s.server
    p = plan(c, srv, s.files, ctx, "plan", printing=False)
    if p is None:
        return None
    if p.out:
        c.violation("plan prints although it was told not to: %r" % p.out[:200], **ctx)
        return None
    # the same again, printed
    q = plan(c, srv, s.files, ctx, "plan again", printing=True)
    if q is None:
        return None
    if (q.cmds, q.ok) != (p.cmds, p.ok):
        c.violation("the same plan asked twice differs", first=p.cmds, second=q.cmds, **ctx)
        return None
    if not printed(q, p.cmds):
        c.violation("plan does not print what it returns: %r" % q.out[:500], returned=p.cmds, **ctx)
        return None
    if q.out.strip("\n").count("\n") != "\n".join(p.cmds).strip("\n").count("\n"):
        c.violation("plan prints other lines than it returns: %r" % q.out[:500], returned=p.cmds, **ctx)
        return None
    printing = rng.random() < 0.5
    clone = srv.clone()
    before = state(clone)
    a = apply(c, clone, s.files, ctx, "apply", printing=printing)
    if a is None:
        return None
    if (a.cmds, a.ok) != (p.cmds, p.ok):
        c.violation("apply executes other statements than plan lists", plan=p.cmds, apply=a.cmds, **ctx)
        return None
    if printing:
        if not printed(a, p.cmds):
            c.violation("apply does not print what it executed: %r" % a.out[:500], returned=p.cmds, **ctx)
            return None
        if not p.cmds and any(w in a.out.upper() for w in ("ALTER TABLE", "CREATE TABLE", "INSERT INTO", "DROP TABLE", "UPDATE ", "DELETE FROM")):
            c.violation("apply prints statements although there are none: %r" % a.out[:500], **ctx)
            return None
        if not a.out.strip():
            c.violation("apply says nothing", returned=p.cmds, **ctx)
            return None
    elif a.out:
        c.violation("apply prints although it was told not to: %r" % a.out[:200], **ctx)
        return None
    if not p.cmds and state(clone) != before:
        c.violation("an empty apply changes the server", **ctx)
        return None
    if p.cmds:
        c.nontrivial = True
        c.fingerprint.add(world.digest(*p.cmds))
    return p, clone


def pieces(cmds):
    return collections.Counter(x for x in cmds)


def reordered(c, s, p, end, ctx):
    """Other orders of files and tables."""
    rng = c.rng
    for _ in range(2):
        stm = list(s.stm)
        rng.shuffle(stm)
        # rows of a table keep their order only within a statement
        if not rows_after_create_matters(stm):
            pass
        srv = s.server.clone()
        srv.table_order = world.shuffled(rng)
        files = world.as_files(rng, stm)
        label = "other order of files and tables"
        d = dict(ctx, files_in_other_order=files)
        r = plan(c, srv, files, d, label)
        if r is None:
            return False
        c.count("reordered")
        if pieces(r.cmds) != pieces(p.cmds):
            c.violation("the plan depends on the order of files or tables", plan=p.cmds, other=r.cmds,
                        only_first=list((pieces(p.cmds) - pieces(r.cmds)))[:5], only_second=list((pieces(r.cmds) - pieces(p.cmds)))[:5], **d)
            return False
        if rng.random() < 0.5:
            a = apply(c, srv, files, d, label)
            if a is None:
                return False
            if a.cmds != r.cmds:
                c.violation("apply executes other statements than plan lists (other order)", plan=r.cmds, apply=a.cmds, **d)
                return False
            x, y = final_state(srv), final_state(end)
            if x != y:
                c.violation("another order of files or tables leads to another database", one=x, other=y, **d)
                return False
    return True


def rows_after_create_matters(stm):
    return False


def final_state(srv):
    out = []
    for n, st in sorted(srv.tables.items()):
        t = st.t
        cols = [M.norm_col(x) for x in t.cols.values()]
        out.append((n, cols, sorted((i.kind, i.name, tuple(i.cols)) for i in t.idxs.values()),
                    sorted((f.name,) + M.norm_fk(f) for f in t.fks.values()),
                    sorted([sorted(r.items(), key=str) for r in st.rows], key=str)))
    return repr(out)


def conf(rng, root, files, names):
    """A configuration file and credentials."""
    keys = {k: rng.choice(["DB_%s" % k.upper(), "%s_of_db" % k, "MYSQL_" + k]) for k in ("host", "user", "password", "database")}
    env = "\n".join("%s=%s" % (keys[k], names[k]) for k in keys)
    with open(os.path.join(root, "app.env"), "w") as f:
        f.write(env + "\n")
    with open(os.path.join(root, "mygrate.conf"), "w") as f:
        f.write("files_directory = %s\nenv_file: 'app.env'\nhostname_key=%s\nusername_key=%s\npassword_key=%s\ndatabase_key=%s\n" % (
            os.path.relpath(files, root), keys["host"], keys["user"], keys["password"], keys["database"]))
    return os.path.join(root, "mygrate.conf")


def supplied(c, s, p, ctx):
    """Connection and files given in every way."""
    rng = c.rng
    import pymysql

    root = tempfile.mkdtemp(prefix="mv12_")
    cwd = os.getcwd()
    try:
        files = os.path.join(root, "sql")
        world_files = tool.write_files(rng, files, s.stm, None)
        names = {"host": "h%d" % rng.randint(0, 99), "user": "u", "password": "p w", "database": "d"}
        cfg = conf(rng, root, files, names)
        connects = []

        for how in rng.sample(["driver", "connection+dir", "connection+list", "config", "config+connection", "config+files"], 3):
            srv = s.server.clone()
            tool.reset(srv)
            conn = server.Connection(srv)

            def connect(*a, **k):
                connects.append((a, k))
                return server.Connection(srv)

            given_list = [os.path.join(files, x) for x in os.listdir(files)]
            rng.shuffle(given_list)
            sql = "\n".join(s.stm)
            opts = {
                "driver": {"driver": tool.PyMySQL(connection=conn), "sql_files": sql},
                "connection+dir": {"connection": conn, "sql_files": files},
                "connection+list": {"connection": conn, "sql_files": given_list},
                "config": {"config": cfg if rng.random() < 0.5 else "mygrate.conf"},
                "config+connection": {"config": cfg, "connection": conn},
                "config+files": {"config": cfg, "sql_files": files},
            }[how]
            del connects[:]
            os.chdir(root)
            command = rng.choice(["plan", "apply"])
            with mock.patch.object(pymysql, "connect", connect):
                r = tool.run(command, srv, options=opts)
            os.chdir(cwd)
            c.evals += 1
            c.count("supplied")
            c.seen("ways", (how, command))
            d = dict(ctx, how=how, command=command)
            if r.exc is not None:
                c.violation("%s with %s fails with %r" % (command, how, r.exc), **d)
                return False
            if pieces(r.cmds) != pieces(p.cmds) or r.ok != p.ok:
                c.violation("%s with %s gives another result" % (command, how), plan=p.cmds, other=r.cmds, **d)
                return False
            if command == "plan" and r.writes:
                c.violation("plan with %s changes the server" % how, sent=r.sent, **d)
                return False
            if command == "apply" and [x[1] for x in r.log if x[0] in ("ddl", "dml", "set")] != r.cmds:
                c.violation("apply with %s sends other statements than it returns" % how, sent=r.sent, returned=r.cmds, **d)
                return False
            uses = how in ("config", "config+files")
            if bool(connects) != uses or len(connects) > 1:
                c.violation("%s with %s connects %d times" % (command, how, len(connects)), **d)
                return False
            if uses:
                k = connects[0][1]
                got = {"host": k.get("host"), "user": k.get("user"), "password": k.get("password", k.get("passwd")), "database": k.get("database", k.get("db"))}
                if got != names:
                    c.violation("%s with %s connects with %r instead of %r" % (command, how, got, names), **d)
                    return False
        # check, with the same choice
        opts = rng.choice([{"sql_files": files}, {"config": cfg}, {"sql_files": "\n".join(s.stm)}])
        opts = dict(opts)
        ghost = Untouchable()
        if rng.random() < 0.5:
            opts[rng.choice(["driver", "connection"])] = ghost

        def never(*a, **k):
            ghost.used.append("connect")
            raise AssertionError("check connects")

        with mock.patch.object(pymysql, "connect", never):
            r = tool.run("check", options=opts)
        c.evals += 1
        c.count("checks")
        if ghost.used:
            c.violation("check contacts the server: %s" % ghost.used[:3], **ctx)
            return False
        if r.exc is not None or not r.ok:
            c.violation("check of a valid declaration: %r %r" % (r.exc, r.cmds[:3]), **ctx)
            return False
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
    return True


def session(c, s, ctx):
    """Several commands in one process with the same options, with the files and the live database changing in between."""
    rng = c.rng
    import pymysql

    root = tempfile.mkdtemp(prefix="mv12s_")
    cwd = os.getcwd()
    try:
        files = os.path.join(root, "sql")
        versions = [s.stm, render.schema_sql(s.have), s.stm[: rng.randint(0, len(s.stm))]]
        bad = s.want.copy()
        rng.choice(breaks.ALL)(rng, s.gen, bad)
        for t in bad.tables.values():
            if t.rows and any(k not in t.cols for r in t.rows for k in r):
                t.rows = None
        try:
            versions.append(render.schema_sql(bad))
        except Exception:
            pass
        tool.write_files(rng, files, s.stm, None)
        cfg = conf(rng, root, files, {"host": "h", "user": "u", "password": "p", "database": "d"})
        srv = s.server.clone()
        srv.table_order = "sorted"
        tool.reset(srv)
        how = rng.choice(["connection", "driver", "config"])

        def connect(*a, **k):
            return server.Connection(target[0])

        target = [srv]

        def options(x):
            if how == "config":
                return {"config": cfg}
            conn = server.Connection(x)
            return {"sql_files": files, how: conn if how == "connection" else tool.PyMySQL(connection=conn)}

        opts = options(srv)
        steps = []
        with mock.patch.object(pymysql, "connect", connect):
            for _ in range(rng.randint(3, 6)):
                if steps and rng.random() < 0.6:
                    shutil.rmtree(files)
                    tool.write_files(rng, files, rng.choice(versions), None)
                    steps.append("files edited")
                if rng.random() < 0.25 and srv.tables:
                    # somebody else changes the live database
                    n = rng.choice(sorted(srv.tables))
                    try:
                        srv.execute(rng.choice(["DROP TABLE `%s`;", "ALTER TABLE `%s` ADD `seen_later` INT;"]) % n, {"fk_checks": False, "autocommit": True})
                        srv.commit()
                        steps.append("live table %s changed" % n)
                    except server.Rejected:
                        pass
                command = rng.choice(["check", "plan", "plan", "apply"])
                other = srv.clone()
                tool.reset(other)
                tool.reset(srv)
                target[0] = other
                want = tool.run(command, other, options=options(other))
                target[0] = srv
                got = tool.run(command, srv, options=opts)
                steps.append(command)
                c.evals += 1
                c.count("session_steps")
                c.seen("session_supply", how)
                d = dict(ctx, steps=list(steps), how=how)
                if (got.cmds, got.ok, repr(got.exc), got.err) != (want.cmds, want.ok, repr(want.exc), want.err):
                    c.violation("%s after %s answers %r %r instead of %r %r" % (
                        command, steps[:-1], got.cmds[:6], got.exc or got.ok, want.cmds[:6], want.exc or want.ok), **d)
                    return False
                if state(srv) != state(other):
                    c.violation("%s after %s leaves another database than on its own" % (command, steps[:-1]), **d)
                    return False
                if got.exc is not None:
                    # the connection may be in the middle of something
                    c.count("session_failures")
                    return True
                if got.cmds:
                    c.nontrivial = True
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
    return True


def broken(c, s, ctx):
    """Declarations with errors: check, plan and apply tell the same, and print it."""
    rng = c.rng
    import pymysql

    bad = s.want.copy()
    log = [rng.choice(breaks.ALL)(rng, s.gen, bad) for _ in range(rng.randint(0, 3))]
    for t in bad.tables.values():
        if t.rows and any(k not in t.cols for r in t.rows for k in r):
            t.rows = None
    try:
        sql = "\n".join(render.schema_sql(bad))
    except Exception:
        return True
    cut = None
    if rng.random() < 0.2 and sql:
        cut = rng.randrange(len(sql))
        sql = sql[:cut]
    d = dict(ctx, breaks=log, text=sql)
    c.context = dict(d)
    ghost = []

    def never(*a, **k):
        ghost.append("connect")
        raise AssertionError("check connects")

    outs = []
    for printing in (False, True):
        u = Untouchable()
        with mock.patch.object(pymysql, "connect", never):
            r = tool.run("check", options={"sql_files": sql, rng.choice(["connection", "driver"]): u}, printing=printing)
        c.evals += 1
        c.count("checks")
        if ghost or u.used:
            c.violation("check contacts the server: %s" % (u.used or ghost)[:3], **d)
            return False
        if r.exc is not None:
            c.violation("check fails with %r" % r.exc, **d)
            return False
        outs.append(r)
    a, b = outs
    if (a.cmds, a.ok) != (b.cmds, b.ok):
        c.violation("check answers differently when it prints", quiet=a.cmds, printing=b.cmds, **d)
        return False
    if a.out:
        c.violation("check prints although it was told not to", **d)
        return False
    if bool(a.cmds) == a.ok:
        c.violation("check returns %r with %s" % (a.ok, a.cmds[:3]), **d)
        return False
    missing = [x for x in b.cmds if x not in b.out]
    if missing:
        c.violation("check does not print %s" % missing[:3], out=b.out, **d)
        return False
    db = tool.read(sql)
    missing = [str(x) for x in list(db.errors) + list(db.warnings) if str(x) not in b.out]
    if missing:
        c.violation("check does not print %s" % missing[:3], out=b.out, **d)
        return False
    if not b.out.strip():
        c.violation("check says nothing", **d)
        return False
    # plan and apply refuse for the same reasons, without touching anything
    for command in ("plan", "apply"):
        srv = s.server.clone()
        before = state(srv)
        tool.reset(srv)
        r = tool.run(command, srv, sql)
        c.evals += 1
        if a.ok:
            continue
        c.count("refused")
        if r.exc is not None:
            c.violation("%s of a broken declaration fails with %r" % (command, r.exc), **d)
            return False
        if r.ok or r.cmds or r.writes or state(srv) != before:
            c.violation("%s of a broken declaration: ok %r, %s" % (command, r.ok, (r.cmds or r.writes)[:3]), **d)
            return False
        silent = [str(x) for x in db.errors if str(x) not in r.err + r.out]
        if silent:
            c.violation("%s does not say why it refuses: %s" % (command, silent[:3]), err=r.err, **d)
            return False
    return True


def hash_seeds(c):
    """The same scenarios in fresh processes with different hash seeds."""
    rng = c.rng
    jobs = []
    for _ in range(25):
        kind = rng.random()
        if kind < 0.75:
            try:
                s = world.build(c)
            except world.Skip:
                continue
            jobs.append({"have": render.schema_sql(s.have), "flavour": s.flavour, "style": s.style, "files": s.files, "commands": ["check", "plan", "plan_export", "apply"]})
        else:
            g = gen.Gen(rng)
            bad = g.schema()
            for _ in range(3):
                rng.choice(breaks.ALL)(rng, g, bad)
            for t in bad.tables.values():
                if t.rows and any(k not in t.cols for r in t.rows for k in r):
                    t.rows = None
            try:
                sql = "\n".join(render.schema_sql(bad))
            except Exception:
                continue
            jobs.append({"have": None, "flavour": None, "style": None, "files": sql, "commands": ["check"]})
    root = tempfile.mkdtemp(prefix="mv12h_")
    try:
        with open(os.path.join(root, "jobs"), "wb") as f:
            pickle.dump(jobs, f)
        first = None
        for seed in ["0"] + [str(rng.randint(1, 2**32 - 1)) for _ in range(2)]:
            env = dict(os.environ, PYTHONHASHSEED=seed)
            out = os.path.join(root, "out" + seed)
            x = subprocess.run([sys.executable, "-W", "ignore", os.path.join(HERE, "lib", "mv", "hashrun.py"), os.path.join(root, "jobs"), out,
                                os.path.join(HERE, "lib"), os.environ.get("MV_REPO", "/repo")], env=env, capture_output=True, timeout=300)
            if x.returncode:
                raise RuntimeError(x.stderr.decode()[-2000:])
            with open(out, "rb") as f:
                res = pickle.load(f)
            if first is None:
                first = res
                continue
            for j, a, b in zip(jobs, first, res):
                for x, y in zip(a, b):
                    c.evals += 1
                    c.count("hash_seed_runs")
                    if x != y:
                        k = [i for i in range(len(x)) if x[i] != y[i]]
                        c.violation("%s depends on the hash seed" % x[0], seeds=("0", seed), one=[x[i] for i in k][:2], other=[y[i] for i in k][:2], declared=j["files"], live=j["have"])
                        return
                    if x[1]:
                        c.nontrivial = True
                        c.fingerprint.add(world.digest(*x[1]))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def case(c):
    rng = c.rng
    c.evals = 0
    c.fingerprint = set()
    if c.index % 100 == 7:
        hash_seeds(c)
        return
    s = world.build(c)
    ctx = world.context(s)
    c.context = dict(ctx)
    c.sample = {"edits": s.log, "kind": s.kind}
    r = core(c, s, ctx)
    if r is None:
        return
    p, end = r
    if not reordered(c, s, p, end, ctx):
        return
    if rng.random() < 0.3 and not supplied(c, s, p, ctx):
        return
    if rng.random() < 0.5 and not broken(c, s, ctx):
        return
    if rng.random() < 0.35:
        session(c, s, ctx)
