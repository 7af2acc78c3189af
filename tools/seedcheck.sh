#!/bin/bash
# seedcheck.sh ID...: confirms planted bugs in a scratch clone: the patch applies and builds, the
# repository's tests pass with it, the demo passes without and fails with it, the check reports it.
. /opt/vp/env.sh
T=/tmp/seedcheck
mkdir -p $T
[ -d $T/repo ] || git clone -q /repo $T/repo
for id in "$@"; do
	d=/verif/seeded/$id
	prop=$(jq -r .property $d/meta.json)
	git -C $T/repo fetch -q /repo main && git -C $T/repo reset -q --hard FETCH_HEAD && git -C $T/repo clean -fdq
	rm -rf /tmp/seedcheck/demo; mkdir /tmp/seedcheck/demo; cp $d/* /tmp/seedcheck/demo/; rm -f /tmp/seedcheck/demo/*.diff /tmp/seedcheck/demo/meta.json
	cd $T/repo || exit 1
	if [ -z "$NODEMO" ]; then
		timeout 300 bash $T/demo/demo.sh > $T/clean.out 2>&1; clean=$?
	fi
	git apply $d/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
	go build ./... || { echo "$id: NO BUILD"; continue; }
	if [ -z "$NODEMO" ]; then
		go test -vet=off -count=1 -timeout 3m ./... > $T/test.out 2>&1; tests=$?
		timeout 300 bash $T/demo/demo.sh > $T/bug.out 2>&1; bug=$?
	fi
	REPO=$T/repo /verif/run.sh check $prop > $T/check.out 2>&1; c=$?
	echo "$id: demo clean=$clean bug=$bug tests=$tests check $prop=$c $(grep -m1 VIOLATION $T/check.out)"
	git checkout -q -f HEAD -- .
done
