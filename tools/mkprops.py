#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only
properties that have a check in checks/)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ALL = []


def P(pid, title, statement, over, text, why, files, mech, technique, note,
      observe=()):
    assert len(title) <= 80, title
    if not os.path.exists(os.path.join(HERE, "checks", pid + ".py")):
        return
    ALL.append(({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": list(observe)}},
        technique, note))


LEX, PAR, AST, NST = ("trlc/lexer.py", "trlc/parser.py", "trlc/ast.py",
                      "trlc/nested.py")
MAIN, ERR, LINT, VCG = ("trlc/trlc.py", "trlc/errors.py", "trlc/lint.py",
                        "trlc/vcg.py")
RST = "tools/trlc_rst/trlc_rst.py"
SPX = "tools/sphinx/extensions/trlc/trlc.py"
TRUST = ("Random search, no proof of absence; trusts the independent "
         "reference in /verif/vlib, which was written from the language "
         "reference manual. ")

exec(open(os.path.join(HERE, "tools", "props_data.py"),
          encoding="utf-8").read())

with open(os.path.join(HERE, "properties.jsonl"), "w",
          encoding="utf-8") as fd:
    for p, _, _ in ALL:
        fd.write(json.dumps(p, ensure_ascii=False) + "\n")

man = {"version": 1,
       "setup_cmd": "/opt/venv/bin/python /verif/run.py --setup",
       "checks": [{"property": p["id"],
                   "quick_cmd": "/opt/venv/bin/python run.py %s --tier quick"
                   % p["id"],
                   "thorough_cmd":
                   "/opt/venv/bin/python run.py %s --tier thorough" % p["id"],
                   "technique": t, "level": "exploration",
                   "level_note": n} for p, t, n in ALL],
       "not_applicable": []}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fd:
    json.dump(man, fd, indent=1)
    fd.write("\n")
print(len(ALL), "properties")
