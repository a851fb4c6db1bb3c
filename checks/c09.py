"""C09: a declared schema is reported as broken exactly when it breaks a rule, and everything that is broken is named."""
import re

from mv import breaks, gen, histories, model as M, objects, render, tool, valid, world

PROPERTY = "C09"
LEVEL = "exploration"
CASES = {"quick": 12000, "thorough": 200000}
RULE = ("one evaluation = one comparison of the problems the tool reports with those an independent rule checker finds, for a schema built from objects, "
        "read from text, or reached by edits in memory; non-trivial = the schema breaks a rule; distinct = different set of broken rules and objects")
ASSUMPTIONS = [
    "the rules are those listed in the property, written down in lib/mv/valid.py",
    "a foreign key counts as one object: one broken rule of it has to be reported",
    "TEXT and BLOB columns with a charset or length, FLOAT with a length and DATETIME with a precision count as broken, as the unit tests of the tool pin",
]
MINIMUM = {"quick": {"broken": 2000, "valid": 800, "edited": 3000, "read_from_text": 800}, "thorough": {"broken": 20000}}

CANNOT_WRITE = ("values-on-other-type", "enum-without-values", "no-columns")


def says(name, text):
    return re.search(r"(?<!\w)%s(?!\w)" % re.escape(name), text) is not None


def compare(c, errs, probs, ctx, label, named=True):
    """Reported problems against broken rules."""
    errs = [str(e) for e in errs]
    c.evals += 1
    if not probs:
        c.count("valid")
        if errs:
            c.violation("%s: a schema that breaks no rule is reported: %s" % (label, errs[:3]), **ctx)
            return False
        return True
    c.count("broken")
    c.nontrivial = True
    for r, t, o in probs:
        c.seen("rules_broken", r)
        c.count("rule_" + r)
    c.fingerprint.add(hash(tuple(sorted(probs))))
    if not errs:
        c.violation("%s: nothing is reported although %s" % (label, probs[:4]), **ctx)
        return False
    if not named:
        return True
    for r, t, o in probs:
        if not any(says(o, e) and says(t, e) for e in errs):
            c.violation("%s: %s of %s in table %s is not reported, only: %s" % (label, r, o, t, errs[:6]), **ctx)
            return False
    for e in errs:
        if not any(says(o, e) for r, t, o in probs):
            c.violation("%s: a report that fits nothing that is broken (%s): %s" % (label, probs[:4], e), **ctx)
            return False
    # one report per broken column and rule
    return True


FK_RULES = ("fk-no-table", "fk-no-foreign-column", "fk-no-column", "fk-no-index", "fk-type", "fk-length", "fk-charset", "fk-collate", "fk-sign", "fk-set-null", "fk-no-foreign-index")


def unfulfilled(c, db, schema, ctx, label):
    for t in schema.tables.values():
        want = sorted(f.name for f in t.fks.values() if valid.fk_problem(schema, t, f))
        told = db.unfulfilled_fks(db.tables[t.name])
        got = sorted(told)
        if got != want:
            c.violation("%s: unfulfilled foreign keys of %s are %s instead of %s" % (label, t.name, {k: str(v.get("error")) for k, v in told.items()}, want), **ctx)
            return False
    return True


def case(c):
    rng = c.rng
    c.evals = 0
    c.fingerprint = set()
    g = gen.Gen(rng, rows=rng.random() < 0.3)
    s = g.schema(nfks=rng.randint(0, 5))
    for t in s.tables.values():
        t.rows = None
    log = []
    bulk = rng.random() < 0.003
    if bulk:
        c.count("bulk_" + world.bulk(rng, M.Schema(), s, rows=False))
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 5]) if not bulk else rng.choice([0, 20, 60])):
        log.append(rng.choice(breaks.ALL)(rng, g, s))
    log = [x for x in log if x]
    for t in s.tables.values():
        # a column of the primary key is NOT NULL, whether it says so or not
        for n in t.primary.cols if t.primary else ():
            if n in t.cols:
                t.cols[n].null = False
                if t.cols[n].default == ("null",):
                    t.cols[n].default = None
    ctx = {"breaks": log, "schema": describe(s)}
    c.context = dict(ctx)
    probs = valid.problems(s)
    c.sample = {"breaks": log, "problems": [list(p) for p in probs[:5]]}
    # objects
    db = objects.database(s, native=rng.random() < 0.2)
    if not compare(c, db.errors, probs, ctx, "objects"):
        return
    if not unfulfilled(c, db, s, ctx, "objects"):
        return
    if rng.random() < 0.3 and not compare(c, db.errors, probs, ctx, "asked again"):
        return
    # text
    rules = {p[0] for p in probs}
    sql = None
    if not rules & set(CANNOT_WRITE):
        sql = "\n".join(render.schema_sql(s, rng, rng.choice([0, 1, 2]), {"synonyms": False, "widths": False, "numbers": False}) if rng.random() < 0.4 else render.schema_sql(s))
        tdb = tool.read(sql)
        c.count("read_from_text")
        tctx = dict(ctx, text=sql)
        if not compare(c, tdb.errors, probs, tctx, "text", named=words_understood(tdb, s)):
            return
        r = tool.run("check", files=sql)
        if bool(r.ok) != (not probs):
            c.violation("check answers %r for %s" % (r.ok, probs[:3] or "a valid schema"), **tctx)
            return
    # edits in memory
    if rng.random() < 0.6:
        if sql is not None and rng.random() < 0.4 and sorted(tdb.tables) == sorted(s.tables) and not tdb.global_errors and not tool.exact_diff(tool.schema_of(tdb), s):
            db = tdb
            c.count("histories_from_text")
        h = histories.History(rng, g, s, db, breakage=0.5)
        for _ in range(rng.randint(1, 8)):
            what = h.step()
            if what is None:
                continue
            c.count("edited")
            log.append(what)
            hctx = {"breaks": log, "schema": describe(s)}
            c.context = dict(hctx)
            if rng.random() < 0.6:
                probs = valid.problems(s)
                if not compare(c, db.errors, probs, hctx, "after edits"):
                    return
                if rng.random() < 0.5 and not unfulfilled(c, db, s, hctx, "after edits"):
                    return


def words_understood(tdb, s):
    """Was everything but the broken values read?  Some broken values can not be written so that the rest is read."""
    if tdb.global_errors or any(t.parsing_errors for t in tdb.tables.values()) or sorted(tdb.tables) != sorted(s.tables):
        return False
    return all(list(t.columns) == list(s.tables[n].cols) and sorted(t.constraints) == sorted(s.tables[n].fks) for n, t in tdb.tables.items())


def describe(s):
    return [repr(t) for t in s.tables.values()]
