#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
. /verif/env.sh
mkdir -p /verif/bin /verif/evidence
(cd /verif/govc && go build -o /verif/bin/govc .) || { echo "govc does not build"; exit 2; }
exec /verif/bin/govc check -prop "$1" ${2:+-tier "$2"}
