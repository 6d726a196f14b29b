#!/bin/bash
# run.sh <check script> : runs one check with the interpreter the repository uses
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -B "checks/$1" "${@:2}"
