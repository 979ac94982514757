#!/bin/bash
# exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
cc -O1 -g -I. -I"$d" "$d/demo.c" _build/asm/libfast-lzma2.a -lpthread -Wl,--wrap=malloc,--wrap=free -o "$t/demo" || exit 2
timeout 200 "$t/demo"
rc=$?
[ $rc = 0 ] || echo "demo rc=$rc"
exit $rc
