#!/bin/bash
# fixc.sh PROP "commit message" "what failed"
cd /repo && gofmt -l . | grep -v vendor; bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; tail -3 /tmp/t.log; git status --short
git commit -qam "fix: $2" && H=$(git rev-parse --short HEAD) && cd /verif && python3 - "$1" "$H" "$3" <<'P'
import json,sys
f='known_findings.json'; d=json.load(open(f)); d['fixed'].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}"); json.dump(d,open(f,'w'),indent=1)
P
