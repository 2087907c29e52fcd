#!/bin/bash
# Offline set-up: only checks that the harness builds; every check rebuilds from /repo itself.
cd "$(dirname "$0")" && exec python3 tools/check.py setup
