"""Record the normative tables (run once on a trusted tree)."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
from sa.report import Ctx
from checks import c20
NOT = ("RDO_RATE_TABLE", "PATTERN", "_LINE", "FWD_", "DQP_", "MQP_", "Q_MODEL",
       "ROUGH_TAN", "ATANH", "AREA_DIV", "RAV1E_", "SGRPROJ_ALL",
       "SGRPROJ_REDUCED", "VARIANTS", "FIELDS", "_FNS", "FULL_VERSION",
       "AV1_LEVEL", "AV1_TXFM_TYPE_LS", "ALL_INTER_REFS", "_raw", "signs",
       "DISTORTION", "INTER_REFS", "<impl")
ctx = Ctx("C20")
c = ctx.lib
out = {}
for n, lst in sorted(c20.all_tables(c).items()):
    if any(x in n for x in NOT):
        continue
    k, d = lst[0]
    if "asm::" in k or "serde" in k or "deserialize" in k:
        continue
    v = c20.flat(c, d["val"])
    if len(v) < 3 or any(isinstance(x, str) and x.startswith(("{", "?"))
                         for x in v):
        if len(v) >= 3:
            print("skip", k, v[:2])
        continue
    if len({c20.dig(c20.flat(c, x[1]["val"])) for x in lst}) > 1:
        print("ambiguous", n)
        continue
    out[n] = {"sha": c20.dig(v)}
    if len(v) <= 300:
        out[n]["vals"] = v
json.dump(out, open(os.path.join(V, "oracle", "tables.json"), "w"),
          separators=(",", ":"))
print(len(out))
ctx.ts = c20.all_tables(c)
c20.initial(ctx)
out["!initial"] = {"sha": "", "vals": ctx.initial}
json.dump(out, open(os.path.join(V, "oracle", "tables.json"), "w"),
          separators=(",", ":"))
