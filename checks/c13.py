"""C13: configuration and credentials are read as written."""
import ast
import importlib
import io
import json
import os
import shutil
import tempfile
from unittest import mock

from mv import harness, server, tool, world

PROPERTY = "C13"
LEVEL = "exploration"
CASES = {"quick": 40000, "thorough": 250000}
RULE = ("one evaluation = one text parsed and compared with what its writer meant (or one malformed text that has to be rejected), or one command run from a directory "
        "tree with configuration files in several places; non-trivial = a value in quotes, with escapes, comments or odd characters, or a tree with more than one candidate; distinct = different texts and trees")
ASSUMPTIONS = [
    "the supported syntax is what README and the unit tests of dotenv describe; forms they leave open (keys with quotes or comment characters, a semicolon after an unquoted value, a backslash directly before the "
    "closing quote) are not written",
    "the root directory is tried in a process whose root is a scratch directory (user namespace and chroot); where that is not possible this part is left out (coverage commands_in_root)",
]
MINIMUM = {"quick": {"values": 20000, "malformed": 3000, "commands": 700, "json": 300, "credentials": 700, "missing": 300}, "thorough": {"values": 500000}}

WORDS = ["localhost", "127.0.0.1", "app", "p@ss", "root", "database", "s3cr3t", "http://h:8080/?a=b", "NULL", "true", "0", "x", "日本", "é", "a b", "a  b", "C:\\temp", "\\n", "\\\\",
         "=", ":", "==", "a=b", "a:b", "$HOME", "${X}", "%s", "%%", "{", "}", "[x]", ",", "(", "!", "&", "|", "<", ">", "`", "~", "\\t", "?", "-", "--", "/*", "//", "@", "a\x0cb", "a\u2028b", "a\xa0b", "a\x85b", "a\x0bb"]
QUOTED = WORDS + ["#", "#x", " # y", ";", "; z", " ", "  ", "\t", "';'", "\"#\"", "it's", 'say "x"', "'", '"', "''", '""', "\x0c", "\x0b", "\u2028", "\u2029", "\x85", "\x1c", "\xa0", "\u3000", "\ufeff"]
KEY = ["DB_HOST", "db-host", "db.host", "a", "KEY1", "x y", "é", "日本", "host[0]", "$x", "A/B", "k(1)", "@", "_", "1", "DB_PASSWORD", "key", "name", "export X", "0"]
SPACE = ["", "", " ", "  ", "\t", " \t "]


def word(rng, pool, n=None):
    return "".join(rng.choice(pool) for _ in range(rng.choice([1, 1, 1, 2, 3, 5]) if n is None else n))


def plain_value(rng, comment):
    for _ in range(30):
        v = word(rng, WORDS).strip()
        if not v or comment in v or "'" in v or '"' in v or v.endswith((";", comment[0])) or v != v.strip() or v[0] in "'\"":
            continue
        return v
    return "x"


def quoted_value(rng, q):
    for _ in range(30):
        v = "" if rng.random() < 0.08 else word(rng, QUOTED)
        if v.endswith("\\") or "\\" + q in v:
            continue
        return v
    return "y"


def tail(rng, comment, semicolon=True):
    """What may follow a value."""
    t = rng.choice(SPACE)
    if semicolon and rng.random() < 0.25:
        t += ";" + rng.choice(SPACE)
    if rng.random() < 0.4:
        t += comment + rng.choice(["", " note", " it's", ' "x"', " a=b", "#", " ;", " 'q' = \"z\"", comment, "\\"])
    return t


def line(rng, key, comment, value=None):
    """(text, value)"""
    sep = rng.choice(SPACE) + rng.choice("==:") + rng.choice(SPACE)
    style = rng.random()
    lead = rng.choice(SPACE)
    if value is not None:
        q = rng.choice("'\"")
        if style < 0.3 and value and value == value.strip() and comment not in value and "'" not in value and '"' not in value and not value.endswith(";"):
            return lead + key + sep + value + tail(rng, comment, False), value
        return lead + key + sep + q + value.replace(q, "\\" + q) + q + tail(rng, comment, comment != ";"), value
    if style < 0.08:
        return lead + key + sep, ""
    if style < 0.4:
        v = plain_value(rng, comment)
        return lead + key + sep + v + tail(rng, comment, False), v
    q = rng.choice("'\"")
    v = quoted_value(rng, q)
    return lead + key + sep + q + v.replace(q, "\\" + q) + q + tail(rng, comment, comment != ";"), v


def filler(rng, comment):
    return rng.choice(["", "", "   ", "\t", comment, comment + " note", " " + comment + "a=b", comment + "'", comment + ' x = "'])


def keys(rng, n, comment):
    out = []
    for _ in range(n * 5):
        k = rng.choice(KEY) if rng.random() < 0.7 else word(rng, KEY, 2)
        k = k.strip()
        if k in out or comment in k or not k or any(x in k for x in "=:'\""):
            continue
        out.append(k)
        if len(out) == n:
            break
    return out


def document(rng, comment, names=None, values=None):
    meant, lines = {}, []
    for k in names if names is not None else keys(rng, rng.choice([1, 1, 2, 3, 4, 6]), comment):
        while rng.random() < 0.25:
            lines.append(filler(rng, comment))
        t, v = line(rng, k, comment, (values or {}).get(k))
        lines.append(t)
        meant[k] = v
    while rng.random() < 0.25:
        lines.append(filler(rng, comment))
    end = rng.choice(["\n", "\n", "\n", "\r\n"])
    text = end.join(lines) + rng.choice(["", end, end + end])
    return meant, text, lines, end


def malformed(rng, comment):
    q = rng.choice("'\"")
    k = rng.choice(keys(rng, 1, comment))
    v = word(rng, WORDS).replace(comment, "")
    w = word(rng, ["a", "b c", "x1", "é"])
    semi = ";" if comment != ";" else "x"
    return rng.choice([
        ("no separator", w),
        ("no separator", "export"),
        ("no key", "=" + w),
        ("no key", " : " + w),
        ("unclosed quote", "%s=%s%s" % (k, q, w)),
        ("unclosed quote", "%s = %s%s\\%s" % (k, q, w, q)),
        ("unclosed quote", "%s: %s" % (k, q)),
        ("unclosed quote", "%s=%s%s %s note" % (k, q, w, comment)),
        ("unclosed quote", "%s=\\%s%s" % (k, q, w)),
        ("lone quote", "%s=%s%s" % (k, w, q)),
        ("lone quote", "%s=%s%s%s" % (k, w, q, w)),
        ("lone quote", "%s=%s%s%s%s" % (k, w, q, w, q)),
        ("text after the quote", "%s=%s%s%s%s" % (k, q, w, q, w)),
        ("text after the quote", "%s=%s%s%s %s %s note" % (k, q, w, q, w, comment)),
        ("text after the quote", "%s=%s%s" % (k, q + q, w)),
        ("text after the quote", "%s=%s%s" % (k, q + q, q)),
        ("text after the quote", "%s=%s%s%s%s%s" % (k, q, w, q, semi, w)),
        ("text after the quote", "%s=%s%s%s%s%s" % (k, q, w, q, q, w + q)),
        ("text after the quote", "%s = %s %s%s %s" % (k, q, w, q, w)),
    ])


def load(rng, text, comment, root):
    """The text in one of the ways dotenv takes it."""
    from mygrations.helpers.dotenv import dotenv

    how = rng.choice(["text", "text", "text", "file", "stream", "bytes stream", "open file"])
    args = () if comment == "#" and rng.random() < 0.5 else (comment,)
    if how == "text" or not text:
        return "text", dotenv(text, *args)
    if how == "stream":
        return how, dotenv(io.StringIO(text), *args)
    if how == "bytes stream":
        return how, dotenv(io.BytesIO(text.encode()), *args)
    path = os.path.join(root(), "f%d.env" % rng.randrange(1000))
    with open(path, "w", newline="") as f:
        f.write(text)
    if how == "file":
        return how, dotenv(path, *args)
    with open(path, "r", newline="") as f:
        return how, dotenv(f, *args)


def parsing(c, root):
    rng = c.rng
    from mygrations.helpers.dotenv import DotEnvSyntaxError

    for _ in range(4):
        comment = rng.choice(["#", "#", "#", "#", ";", "//", "--", "rem"])
        meant, text, lines, end = document(rng, comment)
        c.evals += 1
        try:
            how, got = load(rng, text, comment, root)
        except Exception as e:
            c.violation("a well-formed text is rejected with %r" % e, text=text, meant=meant, comment=comment)
            return
        c.seen("ways", how)
        c.sample = {"text": text}
        c.count("values", len(meant))
        if dict(got) != meant:
            wrong = {k: (got.get(k), meant.get(k)) for k in set(got) | set(meant) if got.get(k) != meant.get(k) or (k in got) != (k in meant)}
            c.violation("a text is read as something else (read, written): %r" % wrong, text=text, comment=comment, how=how)
            return
        if any(not isinstance(x, str) for x in list(got) + list(got.values())):
            c.violation("keys and values are not text", text=text, got=dict(got))
            return
        if any(ch in text for ch in "'\"\\#"):
            c.nontrivial = True
            c.fingerprint.add(world.digest(text, comment))
        # one bad line anywhere
        why, bad = malformed(rng, comment)
        if comment in bad.split(" ")[0] or bad.strip().startswith(comment):
            continue
        at = rng.randint(0, len(lines))
        text = end.join(lines[:at] + [bad] + lines[at:])
        c.evals += 1
        c.count("malformed")
        c.seen("malformations", why)
        try:
            how, got = load(rng, text, comment, root)
        except DotEnvSyntaxError:
            continue
        except Exception as e:
            c.violation("a malformed line (%s) is rejected with %r" % (why, e), line=bad, text=text, comment=comment)
            return
        c.violation("a malformed line (%s) is read as %r" % (why, {k: v for k, v in got.items() if meant.get(k) != v}), line=bad, text=text, comment=comment, how=how)
        return


def jsons(c, root):
    rng = c.rng

    def value(depth=0):
        x = rng.random()
        if x < 0.7:
            return word(rng, QUOTED)
        if x < 0.8:
            return rng.choice([0, 1, -5, 3.25, True, False, None])
        if depth > 2:
            return ""
        if x < 0.9:
            return [value(depth + 1) for _ in range(rng.randint(0, 3))]
        return {word(rng, KEY): value(depth + 1) for _ in range(rng.randint(0, 3))}

    meant = {word(rng, KEY + QUOTED): value() for _ in range(rng.choice([0, 1, 2, 3, 5]))}
    text = json.dumps(meant, indent=rng.choice([None, 1, 4]), ensure_ascii=rng.random() < 0.5)
    if rng.random() < 0.3:
        text = rng.choice(["\n", " ", "\r\n"]) + text + "\n"
    c.evals += 1
    c.count("json")
    try:
        how, got = load(rng, text, "#", root)
    except Exception as e:
        c.violation("JSON is rejected with %r" % e, text=text)
        return
    if dict(got) != meant:
        c.violation("JSON is read as something else: %r" % dict(got), text=text, how=how)
        return
    c.nontrivial = True
    c.fingerprint.add(world.digest(text))
    # other JSON is no configuration
    text = json.dumps(rng.choice([["ab", "cd"], ["ab"], [["a", "b"]], "ab:cd", "k=v", [], 5, 1.5, True, None, [1], [{"a": "b"}], [{"a": 1, "b": 2}]]))
    c.evals += 1
    c.count("malformed")
    try:
        how, got = load(rng, text, "#", root)
    except Exception:
        return
    c.violation("JSON that is no object is read as %r" % dict(got), text=text)


CRED = {"hostname_key": "host", "username_key": "user", "password_key": "password", "database_key": "database"}


def credentials(c, root):
    """DbCredentials: what the configuration designates, or an error."""
    rng = c.rng
    from mygrations.helpers.db_credentials import DbCredentials
    from mygrations.helpers.dotenv import dotenv

    names = keys(rng, 7, "#")
    env = {k: word(rng, WORDS + ["#", " "]).strip("\\").replace("'", "").replace('"', "") for k in names}
    if rng.random() < 0.15:
        env[rng.choice(names)] = ""
    chosen = [rng.choice(names) for _ in range(4)] if rng.random() < 0.15 else rng.sample(names, 4)
    config = dict(zip(CRED, chosen))
    meant = {CRED[k]: env[v] for k, v in config.items()}
    for k in rng.sample(["env_file", "files_directory", "host", "user", "port"], 3):
        config[k] = word(rng, ["a", "b/", "x.env"])
    drop = None
    if rng.random() < 0.35:
        drop = rng.choice(list(CRED))
        where = rng.choice(["config", "env"])
        if where == "config":
            del config[drop]
        elif list(config[x] for x in CRED).count(config[drop]) == 1:
            del env[config[drop]]
        else:
            drop = None
    order = list(config)
    rng.shuffle(order)
    _, ctext, _, _ = document(rng, "#", order, config)
    order = list(env)
    rng.shuffle(order)
    _, etext, _, _ = document(rng, "#", order, env)

    def given(text):
        how = rng.choice(["text", "dotenv", "file"])
        if how == "text":
            return text
        if how == "dotenv":
            return dotenv(text)
        p = os.path.join(root(), "c%d" % rng.randrange(10**6))
        with open(p, "w", newline="") as f:
            f.write(text)
        return p

    c.evals += 1
    c.count("credentials")
    try:
        got = DbCredentials(given(etext), given(ctext))
    except Exception as e:
        if drop is None:
            c.violation("credentials are rejected with %r" % e, config=ctext, env=etext)
        elif not isinstance(e, ValueError):
            c.violation("missing credentials are rejected with %r" % e, config=ctext, env=etext)
        else:
            c.count("missing")
        return
    if drop is not None:
        c.violation("missing credentials (%s) go unnoticed: %r" % (drop, got.credentials), config=ctext, env=etext)
        return
    x = {k: got[k] for k in meant}
    if x != meant:
        c.violation("other credentials: %r instead of %r" % (x, meant), config=ctext, env=etext)
        return
    c.nontrivial = True
    c.fingerprint.add(world.digest(ctext, etext))


def run_there(cwd, command, option):
    import pymysql

    connects, srv = [], server.Server()

    def connect(*a, **k):
        connects.append((a, k))
        return server.Connection(srv)

    before = os.getcwd()
    os.chdir(cwd)
    try:
        with mock.patch.object(pymysql, "connect", connect):
            r = tool.run(command, srv, options={"config": option})
    finally:
        os.chdir(before)
    return r, [(a, {k: v for k, v in d.items() if isinstance(v, (str, int, bool, type(None)))}) for a, d in connects], list(srv.tables)


class Result:
    pass


_jail = None


def can_jail():
    """Whether a process of ours may enter a user namespace and change its root directory there."""
    global _jail
    if _jail is None:
        _jail = False
        if hasattr(os, "unshare"):
            pid = os.fork()
            if not pid:
                try:
                    os.unshare(os.CLONE_NEWUSER)
                    os.chroot(tempfile.gettempdir())
                    os._exit(0)
                except BaseException:
                    os._exit(1)
            _jail = os.waitpid(pid, 0)[1] == 0
    return _jail


def in_jail(top, cwd, command, option):
    """The command, run by a process whose root directory is `top` (no privileges outside it)."""
    for name in ("apply", "check", "plan", "plan_export", "version"):
        importlib.import_module("mygrations.core.commands." + name)
    a, b = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(a)
            os.unshare(os.CLONE_NEWUSER)
            os.chroot(top)
            os.chdir("/")
            r, connects, tables = run_there(cwd, command, option)
            said = (isinstance(r.exc, ValueError), repr(r.exc)) if r.exc is not None else None
            data = repr((said, r.ok, r.err, list(r.cmds or ()), connects, tables))
        except BaseException as e:
            data = repr(("harness", repr(e)))
        with os.fdopen(b, "w") as f:
            f.write(data)
        os._exit(0)
    os.close(b)
    with os.fdopen(a) as f:
        data = f.read()
    os.waitpid(pid, 0)
    data = ast.literal_eval(data)
    if data[0] == "harness":
        raise RuntimeError(data[1])
    r = Result()
    said, r.ok, r.err, r.cmds, connects, tables = data
    r.exc = None if said is None else (ValueError if said[0] else RuntimeError)(said[1])
    return r, connects, tables


def tree(c, root):
    """A command run somewhere below a configuration file."""
    rng = c.rng
    top = os.path.realpath(root())
    path = [top]
    # sometimes the directory is the root directory of the process
    jail = rng.random() < 0.15 and can_jail()
    vis = (lambda p: p[len(top):] or "/") if jail else (lambda p: p)
    for i in range(rng.choice([0, 0, 1, 2]) if jail else rng.choice([0, 1, 2, 3, 4, 5, 5, rng.randint(6, 14)])):
        path.append(os.path.join(path[-1], rng.choice(["a", "b c", "é", "app", "mygrate.conf.d", "x.y", "1"])))
    os.makedirs(path[-1], exist_ok=True)
    cwd = path[-1]
    name = rng.choice(["mygrate.conf", "mygrate.conf", "mygrate.conf", "my.conf", "db.json", ".mygrate"])
    depths = [i for i in range(len(path)) if rng.random() < 0.4]
    placed = {}
    for i in depths:
        if rng.random() < 0.1:
            try:
                os.mkdir(os.path.join(path[i], name))
            except FileExistsError:
                pass
            continue
        here = path[i]
        tag = "t%d" % i
        ks = {k: "%s_%s" % (v.upper(), rng.randint(0, 9)) for k, v in CRED.items()}
        creds = {v: "%s-%d-%s" % (v, i, word(rng, ["x", "y", "#", " z", "'", "="])) for v in CRED.values()}
        where_sql = rng.choice(["sql", "db/sql", "../sql%d" % i, "./sql", "sql dir", "abs"])
        where_env = rng.choice([".env", "conf/app.env", "../env%d" % i, "./x.env", "abs"])
        sql = os.path.join(top, "abs_sql%d" % i) if where_sql == "abs" else os.path.join(here, where_sql)
        env = os.path.join(top, "abs_env%d" % i) if where_env == "abs" else os.path.join(here, where_env)
        if i == 0:
            # nothing outside the scratch directory
            sql, where_sql = (os.path.join(here, "sql"), "sql") if where_sql.startswith("..") else (sql, where_sql)
            env, where_env = (os.path.join(here, ".env"), ".env") if where_env.startswith("..") else (env, where_env)
        os.makedirs(sql, exist_ok=True)
        os.makedirs(os.path.dirname(env), exist_ok=True)
        with open(os.path.join(sql, "t.sql"), "w") as f:
            f.write("CREATE TABLE %s (id int unsigned not null auto_increment, primary key (id));" % tag)
        with open(env, "w") as f:
            decoy = {"HOST": "wrong", "host": "wrong", "DB_HOST": "wrong", "user": "wrong"}
            vals = {**{k: v for k, v in decoy.items()}, **{ks[k]: creds[CRED[k]] for k in CRED}}
            f.write(document(rng, "#", list(vals), vals)[1])
        conf = dict(ks)
        conf["files_directory"] = (vis(sql) if where_sql == "abs" else where_sql) + rng.choice(["", "", "/"])
        conf["env_file"] = vis(env) if where_env == "abs" else where_env
        missing = None
        if rng.random() < 0.12:
            missing = rng.choice(list(conf))
            del conf[missing]
        order = list(conf)
        rng.shuffle(order)
        with open(os.path.join(here, name), "w") as f:
            f.write(json.dumps(conf) if rng.random() < 0.2 else document(rng, "#", order, conf)[1])
        placed[i] = (tag, creds, missing)
    nearest = max(placed) if placed else None
    how = rng.choice(["name", "name", "name", "absolute", "relative"])
    if how == "absolute":
        target = rng.choice(list(placed)) if placed and rng.random() < 0.8 else None
        option = vis(os.path.join(path[target], name)) if target is not None else vis(os.path.join(top, "no", name))
    elif how == "relative" and placed:
        target = rng.choice(list(placed))
        cwd = rng.choice(path)
        option = os.path.relpath(os.path.join(path[target], name), cwd)
    else:
        option, target = name, nearest
    command = rng.choice(["plan", "apply", "check", "plan_export"])
    if jail:
        r, connects, tables = in_jail(top, vis(cwd), command, option)
        c.count("commands_in_root")
    else:
        r, connects, tables = run_there(cwd, command, option)
    c.evals += 1
    c.count("commands")
    c.seen("command", (command, how, len(placed) > 1))
    ctx = {"cwd": cwd, "config": option, "placed": {path[i]: p for i, p in placed.items()}, "command": command}
    if len(placed) > 1:
        c.nontrivial = True
        c.fingerprint.add(world.digest(cwd[len(top):], option, str(sorted(placed)), command))
    if target is None:
        if r.exc is None:
            c.violation("%s runs without a configuration file: %r" % (command, r.cmds), **ctx)
        elif not isinstance(r.exc, ValueError):
            c.violation("%s without a configuration file fails with %r" % (command, r.exc), **ctx)
        elif connects:
            c.violation("%s connects without a configuration" % command, **ctx)
        else:
            c.count("missing")
        return
    tag, creds, missing = placed[target]
    if missing and (command != "check" or missing not in CRED):
        if r.exc is None:
            c.violation("%s runs although %s is missing" % (command, missing), **ctx)
        elif not isinstance(r.exc, ValueError):
            c.violation("%s without %s fails with %r" % (command, missing, r.exc), **ctx)
        elif connects:
            c.violation("%s connects although %s is missing" % (command, missing), **ctx)
        else:
            c.count("missing")
        return
    if r.exc is not None or not r.ok:
        c.violation("%s fails: %r %r" % (command, r.exc, r.err), **ctx)
        return
    if command == "check":
        if connects:
            c.violation("check connects", **ctx)
        return
    if len(connects) != 1:
        c.violation("%s connects %d times" % (command, len(connects)), **ctx)
        return
    a, k = connects[0]
    got = {"host": k.get("host"), "user": k.get("user"), "password": k.get("password", k.get("passwd")), "database": k.get("database", k.get("db"))}
    if a or got != creds:
        c.violation("%s connects with %r instead of %r" % (command, (a, got), creds), **ctx)
        return
    if command == "plan" and not any("`%s`" % tag in x for x in r.cmds):
        c.violation("plan uses other files: %r" % r.cmds, **ctx)
    if command == "apply" and tables != [tag]:
        c.violation("apply uses other files: %r" % tables, **ctx)


def case(c):
    rng = c.rng
    c.evals = 0
    c.fingerprint = set()
    made = []

    def root():
        if not made:
            made.append(tempfile.mkdtemp(prefix="mv13_"))
        return made[0]

    try:
        x = rng.random()
        if x < 0.6:
            parsing(c, root)
        elif x < 0.68:
            jsons(c, root)
        elif x < 0.82:
            credentials(c, root)
        else:
            tree(c, root)
    finally:
        for d in made:
            shutil.rmtree(d, ignore_errors=True)
