#!/usr/bin/env python3
# Regenerates MANIFEST.json from the list of finished checks (development helper).
import json, os
D = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(D + '/properties.jsonl')]
info = json.load(open(D + '/checks.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in info and os.path.exists(D + '/harness/src/bin/%s.rs' % i.lower()):
        c = info[i]
        checks.append({"property": i, "quick_cmd": "./check.sh " + i,
                       "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                       "technique": c["technique"], "level": c.get("level", "model_checking"),
                       "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": info.get(i, {}).get("reason", "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: every check drives /repo's public interface, so no guard is needed."},
          open(D + '/MANIFEST.json', 'w'), indent=1)
