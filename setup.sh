#!/bin/bash
# Builds the verifier from /verif/gvc.
. /opt/vp/env.sh
cd /verif/gvc || exit 2
mkdir -p /verif/bin || exit 2
out=$(mktemp /verif/bin/gvc.XXXXXX) || exit 2
if ! go build -o "$out" . ; then
	rm -f "$out"
	exit 2
fi
chmod 755 "$out"
mv -f "$out" /verif/bin/gvc
