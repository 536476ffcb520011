#!/bin/bash
# Checks one property: check.sh ID
. /opt/vp/env.sh
cd /verif || exit 2
bash /verif/setup.sh || exit 2
exec /verif/bin/gvc check -p "$1"
