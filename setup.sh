#!/bin/bash
# Builds the MIR extraction driver and warms the dump of /repo (both are rebuilt by a check when stale).
set -e
cd "$(dirname "$0")"
python3 sa/dump.py
