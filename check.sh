#!/bin/sh
# check.sh <property id>
cd "$(dirname "$0")" && exec python3 -m lapscheck "$1"
