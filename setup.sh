#!/bin/bash
# Nothing is built ahead of time: every check compiles what it needs from /repo. Only verifies the tools.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
command -v g++ python3 >/dev/null && [ -d /opt/vp/deps/idyntree/lib ] && echo ready
