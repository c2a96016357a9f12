import sys; sys.path.insert(0, '/verif/tools')
from mkseed import seed
H = 'modules/nginx-rtmp-module/ngx_rtmp_handler.c'
PRE = '''import os, sys, time, struct
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pd import ngx, rtmp, media, amf
'''
seed('csid-wide', 'R01', [(H, 'csid += (uint32_t)256 * (*(uint8_t*)p++);', 'csid += (uint32_t)255 * (*(uint8_t*)p++);')],
     'messages interleaved at once on a chunk stream written in the two-byte form (319) and the one numbered 320 in the three-byte form',
     'chunk streams 319 and 320 are taken for one, so their interleaved messages are mixed up',
     PRE + '''
port = ngx.free_port()
with ngx.Nginx(rtmp='server { listen 127.0.0.1:%d; max_streams 1000; application live { live on; wait_key off; } }' % port) as ng:
    ng.start([port])
    a = ('127.0.0.1', port)
    p = rtmp.publisher(a, 'live', 'x', chunk=100)
    q = rtmp.player(a, 'live', 'x')
    x, y = b'\\x2f' + b'A' * 250, b'\\x22' + b'B' * 250
    cx = rtmp.chunk_encode(319, 10, 8, 1, x, 100)
    cy = rtmp.chunk_encode(320, 20, 9, 1, y, 100)
    for i in range(3):
        p.send(cx[i] + cy[i])
    try:
        p.user_ping(4)
        q.user_ping(4)
    except (rtmp.Timeout, rtmp.Closed) as e:
        sys.exit('broken: %r' % e)
    got = [m.payload for m in q.msgs if m.type in (8, 9)]
    sys.exit(0 if sorted(got) == sorted([x, y]) else 'broken: %r' % [g[:4] for g in got])
''')
seed('ext-ts-edge', 'R02', [(H, '    if (timestamp >= 0x00ffffff) {\n        ext_timestamp', '    if (timestamp > 0x00ffffff) {\n        ext_timestamp')],
     'a relayed frame whose timestamp is exactly 0xffffff (4 h 39 min 37.215 s into the stream)',
     'the header announces an extended timestamp that is not there, so the player loses its place in the stream',
     PRE + '''
port = ngx.free_port()
with ngx.Nginx(rtmp='server { listen 127.0.0.1:%d; application live { live on; wait_key off; } }' % port) as ng:
    ng.start([port])
    a = ('127.0.0.1', port)
    p = rtmp.publisher(a, 'live', 'x')
    q = rtmp.player(a, 'live', 'x')
    want = []
    for ts in (0xfffff0, 0xfffffe, 0xffffff, 0x1000000):
        pay = b'\\x2f' + media.filler(ts, 40)
        want.append((ts, pay))
        p.write(8, pay, csid=4, ts=ts, msid=1)
    try:
        p.user_ping(4)
        q.user_ping(4)
    except (rtmp.Timeout, rtmp.Closed, rtmp.ProtoError) as e:
        sys.exit('broken: %r' % e)
    got = [(m.ts, m.payload) for m in q.msgs if m.type == 8]
    sys.exit(0 if got == want else 'broken: %r' % got)
''')
T = 'modules/nginx-toolkit-module/ngx_map.c'
CDEMO = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
W=$(mktemp -d /tmp/pd.XXXXXX)
trap 'rm -rf "$W"' EXIT
N=/usr/share/nginx/src/src
INC="-I$N/core -I$N/event -I$N/event/modules -I$N/os/unix -I/repo/_build/nginx/objs"
for d in toolkit client multiport rtmp; do INC="$INC -I/repo/modules/nginx-$d-module"; done
python3 - "$W" <<'P'
import struct, sys
b = bytearray(open('/usr/sbin/nginx', 'rb').read())
off, = struct.unpack_from('<Q', b, 32)
es, n = struct.unpack_from('<HH', b, 54)
for i in range(n):
    t, fl, o, va, pa, sz = struct.unpack_from('<IIQQQQ', b, off + i * es)
    if t == 2:
        for x in range(o, o + sz, 16):
            tag, v = struct.unpack_from('<QQ', b, x)
            if tag == 0x6ffffffb:
                struct.pack_into('<Q', b, x + 8, v & ~0x08000000)
open(sys.argv[1] + '/libnginx.so', 'wb').write(b)
P
M=$(cat /repo/_build/nginx/objs/pingos.name).so
gcc -g -w -D_GNU_SOURCE $INC "$D/demo.c" /repo/_build/nginx/objs/$M -o "$W/demo" -L"$W" -l:libnginx.so -Wl,-rpath,"$W" -Wl,-rpath,/repo/_build/nginx/objs -Wl,--allow-shlib-undefined -lcrypt || exit 99
cd "$W" && timeout 100 ./demo
'''
open('/verif/tools/seeds/cdemo.sh', 'w').write(CDEMO)
seed('map-cover', 'C01', [(T, '''        ngx_map_delete(map, node->raw_key);
        ngx_rbtree_insert(&map->rbtree, &node->rn);''', '''        /* same place in the order */
        node->rn = n->rn;
        if (n->rn.parent == NULL) {
            map->rbtree.root = &node->rn;
        } else if (n->rn.parent->left == &n->rn) {
            n->rn.parent->left = &node->rn;
        } else {
            n->rn.parent->right = &node->rn;
        }
        if (n->rn.left != map->rbtree.sentinel) {
            n->rn.left->parent = &node->rn;
        }''')],
     'an insertion that replaces the node of a key already there, when that node has a right child, and later deletions or iteration that go through it',
     'the right child keeps pointing at the replaced node, so iteration and later changes of the map go wrong',
     demo_sh=CDEMO, pd=False, files={'demo.c': r'''
#include <ngx_config.h>
#include <ngx_core.h>
#include "ngx_map.h"
typedef struct { ngx_map_node_t n; int id; } node_t;
int main(void)
{
    ngx_map_t m; node_t a[20], b; ngx_map_node_t *n; int i, k;
    memset(a, 0, sizeof(a)); memset(&b, 0, sizeof(b));
    ngx_map_init(&m, ngx_map_hash_uint, ngx_cmp_uint);
    for (i = 0; i < 20; i++) { a[i].id = i; a[i].n.raw_key = i; ngx_map_insert(&m, &a[i].n, 0); }
    for (k = 0; k < 20; k++) {
        b = a[k]; memset(&b.n, 0, sizeof(b.n)); b.n.raw_key = k;
        node_t *nb = malloc(sizeof(*nb)); *nb = b;
        ngx_map_insert(&m, &nb->n, 1);
        memset(&a[k], 0x5a, sizeof(a[k]));
    }
    i = 0;
    for (n = ngx_map_begin(&m); n && i < 50; n = ngx_map_next(n), i++) {
        if (((node_t *) n)->id != i) { printf("wrong node at %d\n", i); return 1; }
    }
    for (k = 0; k < 20; k++) ngx_map_delete(&m, k);
    return i == 20 && ngx_map_begin(&m) == NULL ? 0 : 1;
}
'''})
A = 'modules/nginx-rtmp-module/ngx_rtmp_amf.c'
seed('amf-name-prefix', 'C05', [(A, '''            rc = ngx_rtmp_amf_get(ctx, 0, len - maxlen);
        }''', '''            rc = ngx_rtmp_amf_get(ctx, 0, len - maxlen);
            len = maxlen;
        }''')],
     'an object with an unknown field whose name is longer than every wanted name and begins with the longest wanted one',
     'the unknown field is taken for the wanted one and overwrites its value',
     PRE + '''
port = ngx.free_port()
with ngx.Nginx(rtmp='server { listen 127.0.0.1:%d; application live { live on; } application other { live on; } }' % port) as ng:
    ng.start([port])
    a = ('127.0.0.1', port)
    # the longest wanted name of connect is objectEncoding
    c = rtmp.Conn(a)
    c.handshake()
    c.cmd('connect', 1.0, {'app': 'live', 'tcUrl': 'rtmp://127.0.0.1/live', 'objectEncoding': 0.0, 'objectEncodingVersion': 3.0})
    r = c.wait_cmd(('_result', '_error'), 5)
    print(r)
    sys.exit(0 if r and r[3].get('objectEncoding') == 0.0 else 'broken: %r' % (r,))
''')
