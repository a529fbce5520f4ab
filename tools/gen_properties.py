#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (keeps the JSON lines well formed)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(quant.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
BT = "crates/bitcoin/src/"
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_table.py")).read())
ids = [x["id"] for x in P]
assert len(ids) == len(set(ids))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
