#!/bin/bash
# plant.sh ID...: confirm planted bugs and run their property's check on them.
# The change must build, keep the stable tests passing, and be shown by its
# demonstration; then the check of the property should find it.  Works on
# copies, in $W (default /tmp/plant), of /repo and of /verif's working tree.
# NOCHECK=1 leaves the check out, PROP=X runs another check.
W=${W:-/tmp/plant}
mkdir -p "$W/v" "$W/r"
rsync -a --delete --exclude .work --exclude evidence --exclude .git --exclude replays /verif/ "$W/v/"
rsync -a --delete --exclude .git "${R:-/repo}/" "$W/r/"
(cd "$W/r" && rm -rf .git && git init -q . && git add -A -f && git -c user.name=x -c user.email=x@x commit -qm base)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on
cp "$W/r/go.mod" "$W/netauth.mod"; cp "$W/r/go.sum" "$W/netauth.sum"
plain="-mod=mod -modfile=$W/netauth.mod"
tests() { # OUT
  GOFLAGS=$plain go test -json -vet=off -count=1 -timeout 10m $(GOFLAGS=$plain go list -e ./... | grep -v '/internal/db/memory$') > "$W/test.log" 2>/dev/null
  python3 /opt/vp/results.py "$1" "gojson:$W/test.log" > /dev/null
}
demo() { # DIR
  sed "s#^. /opt/vp/env.sh#export GOFLAGS='$plain'#" "$1/demo.sh" > "$W/demo.sh"
  rm -rf "$W/d"; mkdir "$W/d"; cp "$1"/* "$W/d/"; cp "$W/demo.sh" "$W/d/"
  timeout 300 bash "$W/d/demo.sh"
}
for id in "$@"; do
  s=/verif/seeded/$id
  prop=${PROP:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
  cd "$W/r" || exit 1
  git checkout -q -- . ; git clean -fdq
  if ! demo "$s" > "$W/$id.clean" 2>&1; then echo "$id BAD: demo fails on the clean tree"; continue; fi
  if ! git apply "$s/patch.diff"; then echo "$id BAD: does not apply"; continue; fi
  GOFLAGS=$plain go build ./... > "$W/$id.build" 2>&1 || { echo "$id BAD: does not build"; git checkout -q -- .; continue; }
  tests "$W/$id.json"
  miss=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/$id.json'))
def names(d):
    for k in ('stable','passed','pass','tests'):
        if k in d: return set(d[k]) if not isinstance(d[k],dict) else {n for n,v in d[k].items() if v in (True,'pass','passed')}
print(sorted(names(b)-names(o))[:4])
P
)
  if demo "$s" > "$W/$id.demo" 2>&1; then d="DEMO-QUIET"; else d="demo ok"; fi
  c=-
  if [ "$miss" = "[]" ] && [ "$d" = "demo ok" ] && [ -z "$NOCHECK" ]; then
    t0=$(date +%s)
    (cd "$W/v" && SIM_REPO=$W/r SIM_VERIF=$W/v VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./check.sh $prop > "$W/$id.check" 2>&1); rc=$?
    c="check rc=$rc $(grep -c "^VIOLATION property=$prop " "$W/$id.check") $(( $(date +%s)-t0 ))s $(grep -m1 'violates' "$W/$id.check" | cut -c1-100)"
  fi
  git checkout -q -- .
  echo "$id $prop | tests missing $miss | $d | $c"
done
