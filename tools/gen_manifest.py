#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties that have a module in the harness."""
import json, os, re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[m.upper() for m in re.findall(r'c\d+', open(root+'/harness/src/table.rs').read())]
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
notes=json.load(open(root+'/tools/notes.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in ids:
        n=notes.get(i,{})
        checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}",
          "technique":n.get("technique","property-based testing (proptest) against a reference model"),
          "level":"exploration",
          "level_note":n.get("note","Generated cases against an executable oracle; shrunk failing cases are replay files. No absence proof beyond the cases explored.")})
    else:
        na.append({"property":i,"reason":notes.get(i,{}).get("na","check not built yet")})
json.dump({"version":1,"setup_cmd":"./check.sh --build","checks":checks,"not_applicable":na,
 "hooks":{"guard":"cfg(rawdio_verif)","enable":"RUSTFLAGS=--cfg rawdio_verif (check.sh; falls back to a build without them)","source_commits":["3a2a76d"]},
 "notes":"The hook exports internal buffer ranges and mixing kernels, used by C01 and C03; everything else is driven through the public API. See DESIGN.md."},open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),"checks",len(na),"not claimed")
