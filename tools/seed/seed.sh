#!/bin/bash
# seed.sh ID...: confirms planted bugs in a scratch copy of /repo and runs the check of their property on it.
# Prints one line per bug: demo on clean tree / build / tests / demo on changed tree / check.
here=$(cd "$(dirname "$0")/../.." && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
for id in "$@"; do
	b=$here/seeded/$id
	t=$(mktemp -d /tmp/seed.XXXXXX)
	git -C /repo archive HEAD | tar -x -C "$t"
	(cd "$t" && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x)
	(cd "$t" && bash "$b/demo.sh" > "$t.clean" 2>&1); clean=$?
	ap=0; (cd "$t" && git apply "$b/patch.diff") || ap=1
	(cd "$t" && go build ./... > "$t.build" 2>&1); build=$?
	(cd "$t" && go test -json -vet=off -count=1 -timeout 10m ./... > "$t.log" 2>/dev/null)
	python3 /opt/vp/results.py "$t.json" "gojson:$t.log" >/dev/null 2>&1
	tests=$(python3 - "$t.json" <<'PY'
import json,sys
try: r=json.load(open(sys.argv[1]))
except Exception as e: print("ERR",e); sys.exit()
b=json.load(open('/opt/vp/BASELINE.json'))
base=b.get('stable') or b.get('passed') or b
p=set(r.get('passed',[]))
miss=[x for x in base if x not in p]
print("ok" if not miss else "FAIL:%s"%miss[:3])
PY
)
	(cd "$t" && bash "$b/demo.sh" > "$t.demo" 2>&1); demo=$?
	res=""
	if [ -z "$NOCHECK" ]; then
		for p in ${PROPS:-$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")}; do
			s=$(date +%s)
			VERIF_REPO=$t bash "$here/check.sh" "$p" > "$t.chk.$p" 2>&1; rc=$?
			res="$res $p=$rc($(( $(date +%s)-s ))s)"
		done
	fi
	echo "$id clean=$clean apply=$ap build=$build tests=$tests demo=$demo check:$res | $(grep -a FAILED $t.demo | head -1 | cut -c1-150)"
	if [ -n "$VERBOSE" ]; then cat "$t.clean" "$t.build" "$t.demo"; for p in "$t".chk.*; do [ -e "$p" ] && tail -5 "$p"; done; fi
	rm -rf "$t" "$t".*
done
