#!/bin/bash
# Demonstrates, against the real code, every defect repaired by a "fix:" commit
# or recorded in /verif/known-findings.txt.  Not a check: documentation only.
# usage: defects/run.sh [REPO] [go test args]   (default /repo)
repo=${1:-/repo}; shift
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
ov=$(mktemp); trap 'rm -f "$ov"' EXIT
python3 - "$repo" "$here" > "$ov" <<'P'
import json,sys
repo,here=sys.argv[1:]
m={"domain":"domain","delta":"infra/delta","index":"infra/index","recdb":"infra/recdb","endpoints":"api/shard/endpoints","shard":"api/shard"}
print(json.dumps({"Replace":{f"{repo}/internal/{v}/d_verif_test.go":f"{here}/{k}/d_verif_test.go" for k,v in m.items()}}))
P
cd "$repo" && go test -vet=off -overlay "$ov" -run 'TestD_' "$@" ./internal/...
