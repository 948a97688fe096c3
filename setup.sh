#!/bin/sh
# Confirms that the tools the checks need are present and that the framework can build.
# Every check rebuilds what it needs from /repo, so nothing is kept.
set -e
cd "$(dirname "$0")"
for t in clang clang++ gcc g++ valgrind python3; do command -v "$t" >/dev/null || { echo "missing $t"; exit 1; }; done
/usr/bin/python3 -B -c "import em"
rm -rf "$PWD/.build"
python3 -B -c "import sys; sys.path.insert(0, '.'); import checks; print(len(checks.CHECKS), 'checks')"
