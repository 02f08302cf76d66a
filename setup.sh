#!/bin/bash
# Build the driver from /repo's working tree (the checks build it again, incrementally where possible).
cd "$(dirname "$0")" || exit 2
exec python3 -B -c 'import sys; sys.path.insert(0, "tools"); import common; common.build()'
