#!/bin/bash
# Builds everything the checks need once, so that each check only rebuilds what depends on /repo.
V=$(cd "$(dirname "$0")/.." && pwd)
for c in hmath $(cd "$V/pal" && ls -d h*/src/main.rs | cut -d/ -f1); do "$V/tools/build.sh" $c >/dev/null || echo "setup: $c does not build"; done
exit 0
