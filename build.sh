# sourced by check.sh: build_harness SCRATCH REPO PROPERTY builds SCRATCH/vh.
# The harness is laid over the repository as the virtual package ./zz_verif; nothing in REPO is touched.
build_harness() {
	local s=$1 r=$2 prop=$3
	instrumented=0
	cp "$r/go.mod" "$s/go.mod" && cp "$r/go.sum" "$s/go.sum" || return 1
	printf '\nrequire zzverif/vsync v0.0.0\nreplace zzverif/vsync => %s\n' "$here/vsync" >> "$s/go.mod"
	case $prop in C14|C15|C22)
		# scheduling points before every statement; without them the check falls back to storage granularity
		mkdir -p "$s/inst"
		if (cd "$here/tools/instr" && GOFLAGS= go run . "$r" "$s/inst") > "$s/inst.list"; then instrumented=1; else : > "$s/inst.list"; fi
	esac
	write_overlay "$s" "$r"
	case $prop in C19|C20)
		(cd "$r" && go build -modfile="$s/go.mod" -o "$s/zanzid" ./cmd/zanzid) || return 1
		export VERIF_ZANZID=$s/zanzid
		if [ "$prop" = C20 ]; then
			(cd "$r" && go build -modfile="$s/go.mod" -o "$s/zanzi-cli" ./cmd/zanzi-cli) || return 1
			export VERIF_ZANZICLI=$s/zanzi-cli
		fi
	esac
	if [ "$instrumented" = 1 ]; then
		(cd "$r" && go build -modfile="$s/go.mod" -overlay="$s/overlay.json" -o "$s/vh" ./zz_verif) && return
		instrumented=0
		: > "$s/inst.list"
		write_overlay "$s" "$r"
	fi
	(cd "$r" && go build -modfile="$s/go.mod" -overlay="$s/overlay.json" -o "$s/vh" ./zz_verif)
}

write_overlay() {
	local s=$1 r=$2
	{
		echo '{"Replace": {'
		local sep=""
		for f in "$here"/harness/*.go; do
			printf '%s"%s/zz_verif/%s": "%s"\n' "$sep" "$r" "$(basename "$f")" "$f"
			sep=","
		done
		[ -s "$s/inst.list" ] && cat "$s/inst.list"
		echo '}}'
	} > "$s/overlay.json"
}
