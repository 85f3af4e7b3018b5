#!/bin/sh
# nothing to build ahead of time: every check compiles /repo's current sources itself
for t in goto-cc goto-instrument cbmc gcc objcopy python3 python3-vt; do
    command -v $t >/dev/null || { echo "missing tool: $t"; exit 1; }
done
mkdir -p evidence out
echo setup ok
