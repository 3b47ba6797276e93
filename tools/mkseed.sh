#!/bin/bash
# mkseed.sh ID small|broker PROPERTY "needs" "what it breaks" FILE(main.rs) : takes the patch from /tmp/seedwt's diff
set -e
V=$(cd "$(dirname "$0")/.." && pwd); D=$V/seeded/$1; mkdir -p "$D"
git -C /tmp/seedwt diff >"$D/patch.diff"; [ -s "$D/patch.diff" ]
rm -rf "$D/kit"; cp -a "$V/tools/kit/$2" "$D/kit"; mkdir -p "$D/kit/src"
[ "$2" = broker ] && { cp -a "$V/mqtt-proto" "$D/kit/mqtt-proto"; rm -rf "$D/kit/mqtt-proto/target"; cp "$V/broker/Cargo.lock" "$D/kit/"; } || cp "$V/small/Cargo.lock" "$D/kit/"
cp "$V/tools/kit/demo.sh" "$D/demo.sh"; cp "$6" "$D/main.rs"
python3 - "$D" "$3" "$4" "$5" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
