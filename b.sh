#!/bin/sh
# build harness binaries: ./b.sh p01 p02 ...
cd "$(dirname "$0")" && python3 - "$@" <<'P'
import sys; sys.path.insert(0,'lib')
import vbuild, harnesses
ok,o=vbuild.build(['bin/'+a for a in sys.argv[1:]]); 
print(o[-6000:] if not ok else "ok"); sys.exit(not ok)
P
