"""Source of properties.jsonl and MANIFEST.json:  python3 meta/props.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
SYM = ("symbolic execution of the real Python code (proxy values, path enumeration by re-execution), z3 decides every branch "
       "and assertion over all values in the bounds; counterexamples replayed on the unmodified package")
CONC = ("symbolic interleavings and crash points: real worker code against traces of the other worker, z3 integers for "
        "the order of storage events and the kill point; counterexample schedules replayed with two real processes")


def p(id, title, statement, over, text, why, files, mechanism, tech=SYM, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mechanism), tech=tech, note=note))
    if na:
        NA.append(dict(property=id, reason=na))


CN = ("Holds for every interleaving (and kill point where stated) of the storage calls of two workers over the bounded programs in "
      "the evidence; assumes each storage call atomic, flock semantics, deterministic clock/uuid stand-ins.")
SN = ("Holds for all values within the bounds listed per harness in the evidence; floats are exact reals, random generators "
      "return arbitrary values in their documented range; outside the bounds nothing is claimed.")

exec(open(os.path.join(V, "meta", "list.py")).read())

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps({k: x[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    na = {n["property"] for n in NA}
    m = dict(version=1, setup_cmd="/opt/venv/bin/python setup_check.py",
             checks=[dict(property=x["id"], quick_cmd=f"./run_check.py {x['id']} quick",
                          thorough_cmd=f"./run_check.py {x['id']} thorough", evidence_file=f"evidence/{x['id']}.json",
                          technique=x["tech"], level="model_checking", level_note=x["note"] or (CN if x["tech"] is CONC else SN))
                     for x in P if x["id"] not in na],
             not_applicable=NA,
             notes="No hooks in /repo: the checks rewrite the package's source in memory on import. Known findings: known_findings.json.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(m["checks"]), "claimed")
