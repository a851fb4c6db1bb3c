"""Child process of C12: plans of pickled scenarios under another hash seed.  argv: scenarios file, output file."""
import pickle
import sys

sys.path.insert(0, sys.argv[3])
sys.path.insert(0, sys.argv[4])
sys.setrecursionlimit(5000)

from mv import render, server, tool  # noqa: E402


def plans(jobs):
    out = []
    for j in jobs:
        srv = None
        if j["have"] is not None:
            srv = server.Server(j["flavour"], style=j["style"], table_order="created")
            for q in j["have"]:
                srv.execute(q, {"fk_checks": False, "autocommit": True})
            srv.commit()
        res = []
        for command in j["commands"]:
            if srv is not None:
                tool.reset(srv)
            r = tool.run(command, srv if command != "check" else None, j["files"], printing=True)
            res.append((command, r.cmds, r.ok, repr(r.exc), r.out, r.err, r.sent))
        out.append(res)
    return out


if __name__ == "__main__":
    with open(sys.argv[1], "rb") as f:
        jobs = pickle.load(f)
    res = plans(jobs)
    with open(sys.argv[2], "wb") as f:
        pickle.dump(res, f)
