"""C04: a fault at any step of an apply is reported, nothing follows it, and applying again recovers."""
from mv import gen, model as M, render, server, tool, world

PROPERTY = "C04"
LEVEL = "fault_enumeration"
CASES = {"quick": 160, "thorough": 6000}
RULE = ("one evaluation = one fault point (every statement and the commit of an apply, in the modes: refused by the server (with one of the errors servers give there), connection lost "
        "before it ran, connection lost after it ran) followed by the recovery run; non-trivial = the interrupted run had changes to make; "
        "distinct = different statement list, step and mode")
ASSUMPTIONS = [
    "a refused statement changes nothing; DDL commits implicitly and is atomic per statement (MySQL 8.0 behaviour); a lost connection rolls back open row changes",
    "all fault points of a generated apply are enumerated (quick: scenarios with at most 14 steps), the scenarios themselves are sampled",
]
MINIMUM = {"quick": {"fault_points": 800, "recoveries": 800, "faults_with_rows_open": 20}, "thorough": {"fault_points": 6000}}
MODES = ("reject", "lost_before", "lost_after")
CASE_SECONDS = 300


def state_of(srv):
    out = {}
    for n, st in srv.tables.items():
        out[n] = (tool.exact_table(st.t), sorted(((str(r.get("id")), sorted((k, repr(v)) for k, v in r.items())) for r in st.rows), key=str))
    return out


def ddl_only(base, log):
    """Rows as they are if only the structural statements of the log had been run."""
    x = base.clone()
    ses = {"fk_checks": False, "autocommit": True}
    for kind, sql, outcome in log:
        if kind == "ddl" and (outcome == "ok" or outcome == "fault:lost_after"):
            x.execute(sql, ses)
    return x


def case(c):
    rng = c.rng
    c.evals = 0
    c.fingerprint = set()
    g = gen.Gen(rng)
    small = rng.random() < 0.8
    if small:
        old = g.schema
        g.schema = lambda *a, **k: old(ntables=rng.randint(1, 3), nfks=rng.randint(0, 2))
    s = world.build(c, rng.choices(["edits", "create", "dropall", "unrelated"], [8, 1, 1, 1])[0], g, nedits=rng.randint(1, 4), bulky=0)
    base = s.server
    ctx = world.context(s)
    done = base.clone()
    r = tool.run("apply", done, s.files)
    if r.exc is not None or not r.ok:
        c.violation("uninterrupted apply fails: %r %s" % (r.exc, r.err), **ctx)
        return
    if not r.writes:
        c.count("nothing_to_do")
        return
    total = done.counter
    first_change = next(i for i, x in enumerate(r.log) if x[0] != "read") + 1
    limit = 14 if c.tier == "quick" else 40
    # every step from the first change to the commit, and one of the reading steps
    steps = list(range(first_change, total + 1))
    if len(steps) > limit:
        steps = sorted(rng.sample(steps[:-1], limit - 1)) + steps[-1:]
        c.count("scenarios_with_sampled_steps")
    else:
        c.count("scenarios_with_all_steps")
    if first_change > 1:
        steps.insert(0, rng.randint(1, first_change - 1))
    final = state_of(done)
    for at in steps:
        for mode in MODES:
            if not one(c, base, s, ctx, final, at, mode, r.log, total):
                return
    c.nontrivial = True
    c.sample = {"edits": s.log, "steps": total, "sent": r.sent[-5:]}


def one(c, base, s, ctx, final, at, mode, clean_log, total):
    rng = c.rng
    srv = base.clone()
    srv.fault = {"at": at, "mode": mode}
    if mode == "reject" and at <= len(clean_log) and rng.random() < 0.85:
        kind = clean_log[at - 1][0]
        srv.fault["error"] = rng.choice(server.REFUSALS["any"] + server.REFUSALS.get(kind, []) * 2)
        c.seen("refusals", (kind,) + srv.fault["error"][:2])
    conn = server.Connection(srv)
    before_commits = srv.commits
    r = tool.run("apply", srv, s.files, connection=conn)
    c.evals += 1
    c.count("fault_points")
    c.count("mode_" + mode)
    where = "fault %s at step %d of %d (%r)" % (mode, at, total, clean_log[at - 1][1][:80] if at <= len(clean_log) else "?")
    ctx = dict(ctx, at=at, mode=mode, sent=r.sent)
    struck = [i for i, x in enumerate(r.log) if x[2].startswith("fault:")]
    if not struck:
        c.violation("%s: the fault never struck, the run sends something else than the uninterrupted one" % where, **ctx)
        return False
    after = [x for x in r.log[struck[0] + 1 :] if x[0] != "rollback"]
    if r.exc is None:
        c.violation("%s: no error reaches the caller (result %r)" % (where, r.raw), **ctx)
        return False
    if after:
        c.violation("%s: statements are still sent after the failure: %r" % (where, after[:3]), **ctx)
        return False
    c.seen("failed_kind", (r.log[struck[0]][0], mode))
    # is any row change of this run committed?
    commit_hit = r.log[struck[0]][0] == "commit" and mode == "lost_after"
    if srv.commits != before_commits + (1 if commit_hit else 0):
        c.violation("%s: the interrupted run has committed" % where, **ctx)
        return False
    open_rows = any(x[0] == "dml" and x[2] in ("ok", "fault:lost_after") for x in r.log)
    if open_rows:
        c.count("faults_with_rows_open")
    conn.close()
    if not commit_hit:
        want_rows = {n: st.rows for n, st in ddl_only(base, r.log).tables.items()}
        got_rows = {n: st.rows for n, st in srv.tables.items()}
        if want_rows != got_rows:
            diff = [n for n in got_rows if got_rows[n] != want_rows.get(n)]
            c.violation("%s: row changes of the interrupted run survive it in %s" % (where, diff), **ctx)
            return False
    # recovery, sometimes interrupted again
    srv.fault = None
    srv.counter = 0
    again = rng.random() < 0.2
    if again:
        srv.fault = {"at": rng.randint(1, max(2, total)), "mode": rng.choice(MODES)}
        conn2 = server.Connection(srv)
        r2 = tool.run("apply", srv, s.files, connection=conn2)
        conn2.close()
        srv.fault = None
        c.count("second_interruptions" if r2.exc is not None else "second_runs_not_struck")
    r3 = tool.run("apply", srv, s.files)
    if r3.exc is not None or not r3.ok:
        c.violation("%s: applying again fails: %r %s" % (where, r3.exc, r3.err), second=r3.sent, **ctx)
        return False
    c.count("recoveries")
    got = state_of(srv)
    if got != final:
        bad = [n for n in set(got) | set(final) if got.get(n) != final.get(n)]
        c.violation("%s: recovery ends in another state than an uninterrupted run: %s: %r instead of %r" % (
            where, bad, got.get(bad[0]), final.get(bad[0])), second=r3.sent, **ctx)
        return False
    c.fingerprint.add(world.digest(at, mode, *r.sent))
    return True
