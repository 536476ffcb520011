#!/bin/bash
# search.sh PROPERTY REPO SEED TIER: looks for an input that breaks the
# property, through the public interface of the package. Exit 1: found, it is
# on stdout; 0: none found or the harness does not fit the source.
prop=$1 repo=$2 seed=${3:-0} tier=${4:-quick}
d=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd) || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d /tmp/verif-search.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
secs=${SEARCH_SECONDS:-60}
{
	printf '{"Replace": {'
	sep=
	for f in "$d"/*_test.go; do
		printf '%s"%s/zz_verif_%s": "%s"' "$sep" "$repo" "$(basename "$f")" "$f"
		sep=,
	done
	printf '}}\n'
} > "$t/overlay.json"
cd "$repo" || exit 2
if ! go test -vet=off -c -o "$t/search.test" -overlay "$t/overlay.json" . > "$t/build.log" 2>&1; then
	echo "the harness does not compile with this source:"
	cat "$t/build.log"
	exit 0
fi
cd "$t" || exit 2
# a clipboard of its own for every process
pids=()
for i in 0 1 2 3 4 5; do
	mkdir -p "$t/p$i/bin" "$t/p$i/tmp"
	cat > "$t/p$i/bin/xclip" <<X
#!/bin/bash
if [ "\$1" = -in ]; then cat > "$t/p$i/clip"; else cat "$t/p$i/clip"; fi
X
	chmod +x "$t/p$i/bin/xclip"
	: > "$t/p$i/clip"
	wt=
	[ $((i % 2)) = 0 ] && wt="WT_SESSION=1 WT_PROFILE_ID=1"
	(
		cd "$t/p$i" || exit 2
		ulimit -v 12000000
		env -u WT_SESSION -u WT_PROFILE_ID -u TERM_PROGRAM -u WAYLAND_DISPLAY $wt \
			PATH="$t/p$i/bin:$PATH" SEARCH_PROP="$prop" SEARCH_SEED="$((seed * 6 + i))" SEARCH_SECONDS="$secs" \
			SEARCH_CLIP="$t/p$i/clip" SEARCH_TMP="$t/p$i/tmp" \
			timeout -k 5 $((secs + 30)) "$t/search.test" -test.run '^TestVerifSearch$' -test.timeout $((secs + 25))s > "$t/p$i/out" 2>&1
		echo $? > "$t/p$i/rc"
	) &
	pids+=($!)
done
found=
while [ -z "$found" ]; do
	left=
	for p in "${pids[@]}"; do kill -0 "$p" 2>/dev/null && left=1; done
	for i in 0 1 2 3 4 5; do
		if grep -q '^END OF FAILING INPUT' "$t/p$i/out" 2>/dev/null; then
			found=$i
			break
		fi
	done
	[ -z "$left" ] && break
	sleep 0.3
done
if [ -n "$found" ]; then
	sed -n '/^FAILING INPUT/,/^END OF FAILING INPUT/p' "$t/p$found/out"
	for p in "${pids[@]}"; do pkill -TERM -P "$p" 2>/dev/null; done
	wait "${pids[@]}" 2>/dev/null
	exit 1
fi
wait "${pids[@]}"
n=0
for i in 0 1 2 3 4 5; do
	if [ "$(cat "$t/p$i/rc")" != 0 ]; then
		echo "harness process $i ended with $(cat "$t/p$i/rc")"
		tail -5 "$t/p$i/out"
	fi
	k=$(sed -n 's/^\([0-9]*\) inputs tried$/\1/p' "$t/p$i/out")
	n=$((n + ${k:-0}))
done
echo "$n inputs tried"
exit 0
