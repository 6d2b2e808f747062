#!/bin/bash
# planted.sh DIR...: confirms planted bugs in a scratch copy of /repo (never in
# /repo itself): the patch applies and touches original lines only, it builds,
# the stable tests pass with it, and the demonstration fails with it but not without.
base=$(git -C /repo rev-list --max-parents=0 HEAD)
for d in "$@"; do
	d=$(realpath "$d"); n=$(basename "$d"); bad=
	s=$(mktemp -d /tmp/planted.XXXXXX)
	cp -a /repo "$s/repo"
	mkdir "$s/work"
	printf 'go 1.22.2\n\nuse (\n\t%s/repo\n\t%s/repo/bencode\n)\n' "$s" "$s" > "$s/work/go.work"
	cp /opt/vp/work/go.work.sum "$s/work/" 2>/dev/null
	sed -e "s#^export GOWORK=.*#export GOWORK=$s/work/go.work#" /opt/vp/env.sh > "$s/env.sh"
	for f in build test; do
		sed -e "s#/opt/vp/env.sh#$s/env.sh#; s#cd /repo#cd $s/repo#" /opt/vp/$f.sh > "$s/$f.sh"
	done
	( cd "$s/repo" && GOWORK=$s/work/go.work bash "$d/demo.sh" ) > "$s/clean.out" 2>&1 || bad="$bad demo-fails-on-clean"
	if git -C "$s/repo" apply "$d/patch.diff"; then
		# every line it removes or replaces is the original repository's
		git -C "$s/repo" diff -U0 | awk '/^--- a\//{f=substr($0,7)} /^@@/{split($2,a,","); n=(a[2]==""?1:a[2]); if(n>0) print f, -a[1], -a[1]+n-1}' |
			while read -r f from to; do git -C "$s/repo" blame -l -s -L "$from,$to" HEAD -- "$f"; done |
			sed 's/^\^//' | grep -v "^${base:0:39}" | sed 's/^/    not original: /'
		bash "$s/build.sh" > "$s/build.out" 2>&1 || bad="$bad does-not-build"
		bash "$s/test.sh" "$s/out.json" > "$s/test.out" 2>&1
		python3 - "$s/out.json" <<'P' || bad="$bad stable-tests"
import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(sys.argv[1]))
want = set(b["stable"])
got = set(o.get("passed", []))
miss = sorted(want - got)
if miss or not want: print("    fail:", miss[:5], len(want))
sys.exit(bool(miss) or not want)
P
		( cd "$s/repo" && GOWORK=$s/work/go.work bash "$d/demo.sh" ) > "$s/bug.out" 2>&1 && bad="$bad demo-passes-with-the-bug"
		[ -n "$SHOW" ] && tail -n "$SHOW" "$s/bug.out"
	else
		bad="$bad does-not-apply"
	fi
	if [ -n "$bad" ]; then echo "$n: BAD$bad"; tail -5 "$s"/clean.out "$s"/bug.out 2>/dev/null; else echo "$n: ok"; fi
	rm -rf "$s"
done
