#!/bin/bash
# mut.sh CHECK FILE SED-EXPR: runs CHECK against a scratch copy of /repo with one edit (not a registered bug).
C=$1; F=$2; E=$3; shift 3
[ -d /tmp/plant ] || { cp -a /repo /tmp/plant; rm -rf /tmp/plant/_build; }
git -C /tmp/plant checkout -q -- . && sed -i -E "$E" /tmp/plant/$F
git -C /tmp/plant diff --stat | tail -1; git -C /tmp/plant diff | grep '^[-+] ' 
VERIF_REPO=/tmp/plant python3 "$(dirname "$0")/../run.py" check $C "$@" 2>&1 | grep -v "^ *#" | tail -5
git -C /tmp/plant checkout -q -- .
