#!/bin/bash
# Runs demo.py (beside this file) against the service and the tool built in the current directory's target.
here=$(cd "$(dirname "$0")" && pwd)
timeout 280 python3 "$here/demo.py"
