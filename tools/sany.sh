#!/bin/bash
# parses every module of the specification
cd "$(dirname "$0")/../spec" || exit 2
bad=0
for m in *.tla; do tla-sany "$m" > /tmp/sany.out 2>&1; grep -q "Semantic errors\|Parse Error\|Could not parse\|Fatal" /tmp/sany.out && { echo "$m"; grep -A6 "errors\|Error" /tmp/sany.out | head -12; bad=1; }; done
exit $bad
