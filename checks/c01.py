"""C01: after apply the server's structure is the declared one and a further plan is empty."""
from mv import gen, model as M, render, tool, world

PROPERTY = "C01"
LEVEL = "exploration"
CASES = {"quick": 3600, "thorough": 40000}
RULE = ("one evaluation = one apply of a declaration to a live server state, followed by the comparison of the server's structure with the "
        "declaration and a second plan; non-trivial = the apply sent at least one statement; distinct = different list of statements sent")
ASSUMPTIONS = [
    "the server is the model in lib/mv/server.py (MySQL 5.7/8.0 and MariaDB printing rules), not a real server",
    "declared schemas come from the generator's domain (single-column foreign keys, no views, triggers, prefix lengths, comments on columns)",
    "column order is judged only where the columns common to both sides already stand in the declared order",
]
MINIMUM = {"quick": {"applied": 1500, "statements": 3000}, "thorough": {"applied": 10000}}


def judge(c, srv, have, want, files, ctx, label):
    before = srv.schema().copy()
    r = tool.run("apply", srv, files)
    if r.exc is not None:
        c.violation("%s: apply raised %r" % (label, r.exc), sent=r.sent, **ctx)
        return False
    if not r.ok:
        c.violation("%s: apply of a valid declaration was refused: %s" % (label, r.err), **ctx)
        return False
    c.count("applied")
    c.count("statements", len(r.writes))
    c.evals += 1
    d = M.diff_schemas(srv.schema(), want, world.fk_names(before, want), order=world.kept_order(before, want))
    if d:
        c.violation("%s: after apply: %s" % (label, "; ".join(d[:4])), sent=r.sent, **ctx)
        return False
    r2 = tool.run("plan", srv, files)
    if r2.exc is not None or not r2.ok or r2.cmds:
        c.violation("%s: the plan after apply is not empty: %s %r" % (label, r2.cmds, r2.exc), sent=r.sent, **ctx)
        return False
    if r.writes:
        c.nontrivial = True
        c.fingerprint.add(world.digest(*r.writes))
    return True


def case(c):
    c.fingerprint = set()
    c.evals = 0
    s = world.build(c)
    ctx = world.context(s)
    if not judge(c, s.server, s.have, s.want, s.files, ctx, "first"):
        return
    c.sample = {"edits": s.log, "flavour": s.flavour, "declared": s.stm[:2]}
    # further declarations on the same server (histories)
    cur = s.want
    for k in range(c.rng.choice([0, 0, 0, 1, 2])):
        nxt = cur.copy()
        log = [x for x in (s.gen.edit(nxt) for _ in range(c.rng.randint(1, 4))) if x]
        for t in nxt.tables.values():
            if t.rows is not None:
                s.gen.row_edits(t)
        # the declared rows must fit the declared columns, and the rows of the server the new columns
        if not s.gen.settle_nulls(nxt):
            c.count("history_cut_short_by_data")
            break
        have = cur.copy()
        s.gen.fit_rows(have, nxt)
        if any(have.tables[n].rows != cur.tables[n].rows for n in have.tables):
            c.count("history_cut_short_by_data")
            break
        if not gen.fk_charsets_agree(cur, nxt) or not gen.fk_charsets_agree(s.server.schema(), nxt) or not world.options_agree(s.server, nxt):
            break
        if s.style.get("hide_charset") and world.hides_a_difference(s.server.schema(), nxt):
            break
        stm, how = world.text_of(c.rng, nxt)
        ctx2 = dict(ctx, history=log, then=stm)
        c.count("history_steps")
        if not judge(c, s.server, cur, nxt, world.as_files(c.rng, stm), ctx2, "step %d" % (k + 2)):
            return
        cur = nxt
