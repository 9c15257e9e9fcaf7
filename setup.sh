#!/bin/bash
. /verif/env.sh
mkdir -p /verif/bin /verif/evidence
cd /verif/govc && go build -o /verif/bin/govc .
