#!/bin/sh
# builds the MIR driver and the std models, and warms the witness dependencies
cd "$(dirname "$0")" || exit 1
exec python3 -m lapscheck.setup
