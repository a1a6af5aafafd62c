#!/usr/bin/env python3
"""Authoring-time tool (not run by any check): collects the official JSON Schema of every MCP type from
the documentation blocks of each protocol version's generated types, and writes sim/data/<version>.json.
The result is committed, so the oracle does not follow later edits of the code under test."""
import re, json, os
SRC = "/repo/src/generated_schema"
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim", "data")
for v in ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]:
    lines = open(f"{SRC}/{v}/mcp_schema.rs").read().split("\n")
    defs, buf, inblk, pending = {}, [], False, None
    for l in lines:
        s = l.strip()
        if s.startswith("///"):
            t = s[3:]
            if t.strip() == "```json":
                inblk, buf = True, []
            elif t.strip() == "```" and inblk:
                inblk = False
                pending = "\n".join(buf)
            elif inblk:
                buf.append(t)
            continue
        m = re.match(r"pub (?:struct|enum) (\w+)", s)
        if m and pending:
            try:
                defs[m.group(1)] = json.loads(pending)
            except Exception as e:
                print(v, m.group(1), e)
            pending = None
    refs = set(re.findall(r'"#/(?:\$defs|definitions)/(\w+)"', json.dumps(defs)))
    print(v, len(defs), "unresolved:", sorted(r for r in refs if r not in defs))
    json.dump(defs, open(f"{OUT}/{v}.json", "w"), indent=0, sort_keys=True)
