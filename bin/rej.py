#!/usr/bin/env python3
"""Summarises a replay file: rejections grouped by back end, configuration and operation."""
import json, sys
n, w = int(sys.argv[2]) if len(sys.argv) > 2 else 2, int(sys.argv[3]) if len(sys.argv) > 3 else 260
g = {}
for l in open(sys.argv[1]):
    v = json.loads(l); e = v["event"]
    g.setdefault((e["be"], v["config"], e["op"]), []).append(v)
def b(j):
    if isinstance(j, list): return "[" + " ".join(map(b, j)) + "]"
    if not isinstance(j, dict): return str(j)
    k = j.get("k")
    if k == "f": return j["m"][:24] + (".." + str(len(j["m"])) if len(j["m"]) > 24 else "") + "e" + j["e"] + (" +" + j["m2"][:8] + "e" + j["e2"] if "m2" in j else "")
    return {"n": "nan", "i": "inf" + str(j.get("s", "")), "z": "0"}.get(k) or str(j.get("v", j))
for k in sorted(g):
    print(k, len(g[k]))
    for v in g[k][:n]:
        e = v["event"]
        print("   ", (v["verdict"][:40] + " | " + v["case"].replace("\t", " ")[:w // 2] + " | " + " ".join(map(b, e["a"])) + " -> " + " ".join(map(b, e["r"])) + " " + e.get("note", ""))[:w])
