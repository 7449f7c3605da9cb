#!/bin/bash
# Rebuilds wasm.go from bridge.c (needs clang and wasm-ld; run by hand).
cd "$(dirname "$0")" || exit 1
clang --target=wasm32 -O2 -nostdlib -fno-builtin -Wl,--no-entry -Wl,-z,stack-size=65536 -o /tmp/guest.$$.wasm bridge.c || exit 1
python3 - /tmp/guest.$$.wasm > wasm.go <<'PY'
import base64, sys, zlib
b = base64.b64encode(zlib.compress(open(sys.argv[1], 'rb').read(), 9)).decode()
print('//go:build go1.22\n\npackage guestlink\n\n// packed is bridge.c, built by build.sh, compressed, in base 64.\nconst packed = "" +')
print(' +\n'.join('\t"%s"' % b[i:i+96] for i in range(0, len(b), 96)))
PY
rm "/tmp/guest.$$.wasm"
