#!/usr/bin/env python3
"""Generate MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(V,"tools"))
from props import PROPS, NOT_APPLICABLE
ids=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
checks=[]; na=[]
for i in ids:
    if i in PROPS:
        c=PROPS[i]
        checks.append({"property":i,"quick_cmd":"VERIF_TIER=quick python3 tools/check.py %s"%i,"thorough_cmd":"VERIF_TIER=thorough python3 tools/check.py %s"%i,
          "evidence_file":"evidence/%s.json"%i,"technique":c.get("technique","stateless model checking of the real code: exhaustive depth-first enumeration of bounded inputs/histories against an independent oracle"),
          "level":c.get("level","model_checking"),"level_note":c["note"]})
    else: na.append({"property":i,"reason":NOT_APPLICABLE.get(i,"no check built yet")})
m={"version":1,"setup_cmd":"python3 tools/check.py --setup","hooks":{"guard":"none","enable":"no hooks: every check observes the public API (xmq.h), the libxml2 document and the command line tool of an unmodified build","source_commits":[]},
 "checks":checks,"not_applicable":na,"notes":"tools/check.py builds the code under test from /repo's working tree into build/ (ignored by git) and runs the explorer of one property; see DESIGN.md"}
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False); open(os.path.join(V,"MANIFEST.json"),"a").write("\n")
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks),"checks",len(na),"not applicable")

# The state of yaep/src that the committed parts/yaep.c was generated from (see tools/check.py).
import sys as _s, os as _o, subprocess as _p
_repo = _o.environ.get("VERIF_REPO", "/repo")
if not _p.run(["git", "-C", _repo, "status", "--porcelain", "-uno"], capture_output=True).stdout.strip():
    import importlib.util as _u
    _s.path.insert(0, _o.path.dirname(_o.path.abspath(__file__)))
    _sp = _u.spec_from_file_location("check_", _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "check.py")); _m = _u.module_from_spec(_sp); _sp.loader.exec_module(_m)
    open(_o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "yaep.sha256"), "w").write(_m.tree_hash(_o.path.join(_repo, "src/main/c/yaep/src")) + "\n")
