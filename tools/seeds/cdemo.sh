#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
W=$(mktemp -d /tmp/pd.XXXXXX)
trap 'rm -rf "$W"' EXIT
N=/usr/share/nginx/src/src
INC="-I$N/core -I$N/event -I$N/event/modules -I$N/os/unix -I/repo/_build/nginx/objs"
for d in toolkit client multiport rtmp; do INC="$INC -I/repo/modules/nginx-$d-module"; done
python3 - "$W" <<'P'
import struct, sys
b = bytearray(open('/usr/sbin/nginx', 'rb').read())
off, = struct.unpack_from('<Q', b, 32)
es, n = struct.unpack_from('<HH', b, 54)
for i in range(n):
    t, fl, o, va, pa, sz = struct.unpack_from('<IIQQQQ', b, off + i * es)
    if t == 2:
        for x in range(o, o + sz, 16):
            tag, v = struct.unpack_from('<QQ', b, x)
            if tag == 0x6ffffffb:
                struct.pack_into('<Q', b, x + 8, v & ~0x08000000)
open(sys.argv[1] + '/libnginx.so', 'wb').write(b)
P
M=$(cat /repo/_build/nginx/objs/pingos.name).so
gcc -g -w -D_GNU_SOURCE $INC "$D/demo.c" /repo/_build/nginx/objs/$M -o "$W/demo" -L"$W" -l:libnginx.so -Wl,-rpath,"$W" -Wl,-rpath,/repo/_build/nginx/objs -Wl,--allow-shlib-undefined -lcrypt || exit 99
cd "$W" && timeout 100 ./demo
