#!/bin/bash
# plant.sh check <id>...: confirms that a seeded bug applies, builds, passes the
#   stable tests and that its demo tells the two trees apart; prints the checks
#   that report it.
# plant.sh save <id>: writes seeded/<id>/patch.diff from the changes made in the
#   scratch copy /tmp/plant/w (made by: plant.sh copy).
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
base=/tmp/plant
copy() { rm -rf "/tmp/plant/$1"; mkdir -p $base; cp -a /repo "/tmp/plant/$1"; }
stable() {
  (cd "$1" && go test -json -vet=off -count=3 -timeout 5m ./... > /tmp/plant/t.log 2>/dev/null)
  python3 - <<'P'
import json
bad=set()
for l in open('/tmp/plant/t.log'):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='fail' and e.get('Test'): bad.add(e['Package']+'/'+e['Test'])
    if e.get('Action')=='build-fail' or (e.get('Action')=='fail' and not e.get('Test')): bad.add(e.get('Package') or e.get('ImportPath'))
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
b=sorted(x for x in bad if x in st)
print('stable tests: '+('FAILED '+' '.join(b) if b else 'ok'))
P
}
case "$1" in
copy) copy w ;;
save) mkdir -p "$here/seeded/$2"; (cd $base/w && git diff) > "$here/seeded/$2/patch.diff"; (cd $base/w && git checkout -q -- .) ;;
check)
  shift
  az=/tmp/plant/az; mkdir -p $base
  (cd "$here/analyzer" && go build -o $az .) || exit 2
  for id in "$@"; do
    echo "== $id"
    d=$here/seeded/$id
    [ -d $base/clean ] && (cd $base/clean && [ "$(git rev-parse HEAD)" = "$(git -C /repo rev-parse HEAD)" ]) || copy clean
    copy bug
    (cd $base/bug && git apply "$d/patch.diff") || { echo "patch doesn't apply"; continue; }
    (cd $base/bug && go build ./...) || { echo "doesn't build"; continue; }
    stable $base/bug
    mkdir -p $base/demo; rm -rf /tmp/plant/demo; mkdir $base/demo; cp -r "$d"/. $base/demo/; rm -f /tmp/plant/demo/patch.diff /tmp/plant/demo/meta.json
    (cd $base/clean && bash $base/demo/demo.sh > $base/demo.clean 2>&1); a=$?
    (cd $base/bug && bash $base/demo/demo.sh > $base/demo.bug 2>&1); b=$?
    echo "demo: clean $a, with the bug $b"; [ $a = 0 ] || tail -5 $base/demo.clean; [ $b != 0 ] || tail -5 $base/demo.bug
    rm -rf /tmp/plant/ev; mkdir -p $base/ev/evidence; cp "$here/known-findings.txt" $base/ev/
    echo "property $(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"), reported by: $(VERIF_REPO=$base/bug $az all $base/ev/evidence | grep ^VIOLATION | sed 's/.*property=\([^ ]*\).*/\1/' | tr '\n' ' ')"
  done ;;
esac
