#!/bin/bash
# check.sh <property> [--tier quick|thorough] [--seed n]   decide one property
# check.sh --replay <file>                                  run one recorded violation again
cd "$(dirname "$0")" || exit 2
exec python3 -B tools/check.py "$@"
