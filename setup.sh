#!/bin/bash
# Builds every check once, so that a broken framework shows at setup. Checks rebuild what they need themselves.
cd "$(dirname "$0")" || exit 1
while read -r id src variant opts; do
    [ -z "$id" ] && continue; case "$id" in \#*) continue;; esac
    python3 tools/mcbuild.py "$src" "$variant" ${opts:+x} || exit 1
done < checks/index.txt
