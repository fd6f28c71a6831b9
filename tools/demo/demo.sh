#!/bin/bash
# run with cwd /repo; exit 0 when the library behaves as it should
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
exec go run "$here/demo.go" "$here/cases.json"
