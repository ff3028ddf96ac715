#!/bin/bash
# (Re)creates the frozen reference copy in ref/ from /repo's HEAD. Run by hand only; no check runs it.
set -e
cd "$(dirname "$0")"; rm -rf "$PWD/ref"; mkdir -p ref/src
T=$(mktemp -d); git -C /repo archive HEAD include src | tar -x -C "$T"
cp -r "$T/include/steering_functions" ref/refsteering_functions
find "$T/src" -mindepth 2 -name '*.cpp' -exec cp {} ref/src/ \;
find ref -type f | xargs sed -i 's#steering_functions/#refsteering_functions/#g; s/namespace steering\b/namespace refsteering/g; s/steering::/refsteering::/g'
rm -rf "$T"
