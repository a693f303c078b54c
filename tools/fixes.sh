#!/bin/bash
# fixes.sh PROP FILE.tsv : commit hunk groups in /repo, record them as fixed in known_findings.jsonl, rebuild and run the tests
set -e
python3 /verif/tools/splitcommit.py $2
git -C /repo status --short
python3 - "$1" "$2" <<'P'
import json,sys
for l in open(sys.argv[2]):
    m=l.split('\t')[0]
    open('/verif/known_findings.jsonl','a').write(json.dumps({"status":"fixed","property":sys.argv[1],"commit":m,"what":"fixed: property=%s %s"%(sys.argv[1],m[5:])})+'\n')
P
bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/o.json 2>/dev/null | grep passed | tail -1
