"""Writes MANIFEST.json: every property with a check in checks/ is claimed."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
T = {
    "C01": ("runtime monitoring: the real apply runs against an instrumented server; a state monitor compares the resulting schema with the declaration", "exploration"),
    "C02": ("runtime monitoring: real plan/apply over servers that already match; a trace monitor rejects every write", "exploration"),
    "C03": ("runtime monitoring: every statement sent is executed by a rule-checking server; online monitor of foreign key and name rules after each statement", "exploration"),
    "C04": ("runtime monitoring with fault injection at every statement and commit; monitors of what is sent after the fault, what is committed and of the recovered state", "fault_enumeration"),
    "C05": ("runtime monitoring: every executed action and every stored row is compared with the difference of the two schemas", "exploration"),
    "C06": ("runtime monitoring under damaged and hostile input: reported errors and sent statements against an independent reading of the text; loop-count monitor for termination", "exploration"),
    "C07": ("runtime monitoring: definitions read from many spellings and layouts of one declaration, compared with the declaration (metamorphic oracle)", "exploration"),
    "C08": ("runtime monitoring: hostile values observed as decoded by an independent SQL lexer and stored by the server, against the declared values", "exploration"),
    "C09": ("runtime monitoring: reported problems against an independent rule checker, over rule-breaking schemas and in-memory edit histories", "exploration"),
    "C10": ("runtime monitoring: rendered SQL observed by an independent SQL reader and by the tool's own reader, against the definition", "exploration"),
    "C11": ("runtime monitoring: edit/query histories on the in-memory objects against objects built from scratch and against a server executing the same operations", "exploration"),
    "C12": ("runtime monitoring: recorded logs of check, plan and apply compared with each other over configurations, orders and hash seeds", "exploration"),
    "C13": ("runtime monitoring: configuration values and the observed connect call against the values written, in scratch directories", "exploration"),
    "C14": ("runtime monitoring: exported text is fed back and the resulting plan and the server log are observed", "exploration"),
}
NOTE = "server is a model of MySQL 5.7/8.0/MariaDB written for this check (lib/mv/server.py); inputs come from seeded generators; see DESIGN.md"


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": "python3 run.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % i,
                           "technique": T[i][0], "level": T[i][1], "level_note": NOTE})
        else:
            na.append({"property": i, "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "python3 selftest.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the checks observe documented entry points, the connection object, and interpreter events (sys.monitoring). known_findings.txt lists recorded and repaired defects."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
