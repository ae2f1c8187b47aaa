#!/bin/bash
# seeds.sh [-j N] [-n] DEF.py...: mkseed.py for each definition, in parallel, each in namespaces of its own
# (copies of /repo and /verif mounted over the originals; only /verif/seeded is written back).
J=3; N=
while :; do case "$1" in -j) J=$2; shift 2 ;; -n) N=-n; shift ;; *) break ;; esac; done
one() {
	W=$(mktemp -d /tmp/seed.XXXXXX)
	mkdir -p $W/repo $W/verif $W/work
	cp -a /repo/. $W/repo/
	rm -rf $W/repo/_output
	(cd /verif && cp -a harness tools run.sh setup.sh known_findings.txt MANIFEST.json properties.jsonl $W/verif/)
	mkdir -p $W/verif/seeded $W/verif/build/gocache
	unshare -m -n -p -f --mount-proc bash -c "
		ip link set lo up
		mount --bind /verif/seeded $W/verif/seeded && mount --bind /verif/build/gocache $W/verif/build/gocache
		mount --bind $W/repo /repo && mount --rbind $W/verif /verif && mount --bind $W/work /opt/vp/work
		cd /verif && timeout 1500 python3 tools/mkseed.py $2 $(realpath --relative-to=/verif $1)" 2>&1 | grep -v "^time=" | tee /dev/stderr | grep -E "^c[0-9]{2}-.* C[0-9]{2} (OK|..BAD)" | cut -d'{' -f1 >> /verif/tools/seed_results.new
	rm -rf "$W"
}
export -f one
rm -f /verif/tools/seed_results.new
printf '%s\n' "$@" | xargs -P $J -I{} bash -c "one {} $N"
[ -f /verif/tools/seed_results.new ] && { # newer results replace older ones
	cd /verif/tools; touch seed_results.txt
	{ grep -v -F -f <(cut -d' ' -f1 seed_results.new | sed 's/$/ /') seed_results.txt; cat seed_results.new; } | sort > seed_results.tmp; mv seed_results.tmp seed_results.txt; rm seed_results.new
}
python3 /verif/tools/gen_table.py
