"""R01: what the server understands does not depend on how the peer chunked the messages."""
import os, struct, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import ngx, rtmp, media, build
from lib.check import Prop, Violation, Inconclusive, main

TS_EDGES = [0, 1, 40, 0xfffffe, 0xffffff, 0x1000000, 0x1000001, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]
CSIDS = [4, 6, 7, 63, 64, 65, 319, 320, 321, 575, 900]


class R01(Prop):
    id = 'R01'
    rule = ('a case is a publish session: 1-14 audio/video messages (sizes around multiples of the chunk size, up to '
            '70 KB) spread over 1-4 chunk streams (1-, 2- and 3-byte ids), each header form fmt 0-3 that the '
            'specification allows, normal and extended timestamps, chunk-size changes (1..65536) between and inside '
            'messages, chunk-level interleaving, and a random TCP segmentation; oracle: an RTMP player receives exactly '
            'the messages (type, timestamp, payload) in completion order. Non-trivial: at least one multi-chunk message '
            'and at least one of interleaving / non-zero fmt / extended timestamp / chunk-size change / TCP cut')
    assumptions = ['fmt-3 messages directly after a fmt-0 message on the same chunk stream are not generated '
                   '(the specification and deployed peers disagree on their timestamp)']
    quick_cases = 4000
    thorough_cases = 40000
    quick_budget = 75
    shrink_budget = 40
    variants = ['plain', 'asan']

    def prebuild(cls):
        build.modules('plain')
        build.modules('asan')

    def setup(self):
        self.port = ngx.free_port()
        self.ng = ngx.Nginx(rtmp='server { listen 127.0.0.1:%d; max_streams 1000; chunk_size 65536; ping 1h; timeout 1h; out_queue 4096;'
                                 ' application live { live on; wait_key off; } }' % self.port, flavour=self.variant,
                            log_level='error')
        self.ng.start([self.port])
        self.n = 0
        self.addr = ('127.0.0.1', self.port)

    def teardown(self):
        self.ng.stop()

    def strategy(self):
        size = st.one_of(st.integers(5, 40), st.integers(5, 700),
                         st.builds(lambda b, k, d: max(5, b * k + d), st.sampled_from([128, 4096, 1000]),
                                   st.integers(1, 3), st.integers(-6, 6)),
                         st.integers(5, 70000))
        ts = st.one_of(st.sampled_from(TS_EDGES), st.integers(0, 5000), st.integers(0, 0xffffffff))
        msg = st.tuples(st.just('m'), st.integers(0, 3), st.booleans(), size, st.integers(0, 3),
                        st.one_of(st.integers(0, 100), st.sampled_from([0, 33, 33, 0xfffffe, 0xffffff, 0x1000000]), ts),
                        st.booleans())
        chunk = st.tuples(st.just('c'), st.one_of(st.sampled_from([1, 2, 127, 128, 129, 1000, 4096, 60000]),
                                                  st.integers(1, 200), st.integers(1, 65536)))
        abort = st.tuples(st.just('a'), st.integers(0, 3))
        return st.fixed_dictionaries({
            'ext3': st.sampled_from([True, True, True, False]),
            'csids': st.lists(st.sampled_from(CSIDS), min_size=4, max_size=4, unique=True),
            'long': st.lists(st.booleans(), min_size=4, max_size=4),
            'ops': st.lists(st.one_of(msg, msg, msg, msg, msg, chunk, chunk, abort), min_size=1, max_size=14),
            'sched': st.lists(st.integers(0, 3), min_size=0, max_size=40),
            'cuts': st.lists(st.one_of(st.integers(1, 20), st.integers(1, 5000)), min_size=0, max_size=10),
            'ts0': ts,
        })

    def encode(self, case):
        """returns (bytes, expected list, labels)"""
        chunk = 4096
        out = bytearray()
        labels = set()
        expected = []
        pend = {}           # csid -> state of the message being sent
        last = {}           # csid -> (ts, delta or None, len, type)
        sched = list(case['sched'])
        multi = False

        def hdr(cs, fmt):
            h = rtmp.msg_header(cs, fmt)
            if cs in (65, 319) and case['long'][0]:
                h = bytes([fmt << 6 | 1, (cs - 64) & 255, (cs - 64) >> 8])
            return h

        def step(cs):
            """emit one chunk of the pending message of chunk stream cs"""
            nonlocal multi
            m = pend[cs]
            n = min(chunk, len(m['payload']) - m['off'])
            if m['off'] == 0 and not m['started']:
                b = hdr(cs, m['fmt'])
                f = m['field']
                if m['fmt'] <= 2:
                    b += min(f, 0xffffff).to_bytes(3, 'big')
                if m['fmt'] <= 1:
                    b += len(m['payload']).to_bytes(3, 'big') + bytes([m['type']])
                if m['fmt'] == 0:
                    b += (1).to_bytes(4, 'little')
                if m['ext']:
                    b += f.to_bytes(4, 'big')
                m['started'] = True
            else:
                b = hdr(cs, 3)
                if m['ext'] and not case['ext3'] and m['payload'][m['off']:m['off'] + 4] != m['field'].to_bytes(4, 'big'):
                    # as many encoders do it; the server tells them by the bytes that are there instead
                    labels.add('no extended timestamp in fmt3')
                elif m['ext']:
                    b += m['field'].to_bytes(4, 'big')
                multi = True
            out.extend(b + m['payload'][m['off']:m['off'] + n])
            m['off'] += n
            if m['off'] == len(m['payload']):
                expected.append((m['type'], m['ts'], m['payload']))
                del pend[cs]
            elif len(pend) > 1:
                labels.add('interleaved')

        tag = 0

        def control(typ, val):
            out.extend(b''.join(rtmp.chunk_encode(2, 0, typ, 0, struct.pack('>I', val), chunk)))

        for op in case['ops']:
            if op[0] == 'a':
                cs = case['csids'][op[1]]
                control(2, cs)
                if cs in pend:
                    del pend[cs], last[cs]      # the next message of this chunk stream has a full header
                    labels.add('abort')
                continue
            if op[0] == 'c':
                control(1, op[1])
                if pend:
                    labels.add('chunk size changed inside a message')
                labels.add('chunk size ' + ('up' if op[1] > chunk else 'down'))
                chunk = op[1]
                continue
            _, ci, isvideo, size, fmtp, dts, hold = op
            cs = case['csids'][ci]
            while cs in pend:
                step(cs)
            # bound the number of chunks
            if chunk < 64:
                size = min(size, 60 * chunk)
            size = max(size, 5)
            tag += 1
            body = media.filler(tag, size)
            payload = (b'\x17\x01\0\0\0' + body[5:]) if isvideo else (b'\x2f' + body[1:])
            typ = 9 if isvideo else 8
            fmt = 0
            field = None
            if cs in last:
                lts, ldelta, llen, ltyp = last[cs]
                fmt = fmtp
                if fmt == 3 and not (ldelta is not None and llen == len(payload) and ltyp == typ):
                    fmt = 2
                if fmt == 2 and not (llen == len(payload) and ltyp == typ):
                    fmt = 1
            if fmt == 0:
                ts = (case['ts0'] + dts) & 0xffffffff if cs not in last else dts
                field = ts
                delta = None
            else:
                delta = ldelta if fmt == 3 else dts
                ts = (lts + delta) & 0xffffffff
                field = delta
                labels.add('fmt%d' % fmt)
            ext = field >= 0xffffff
            if ext:
                labels.add('extended timestamp')
            last[cs] = (ts, delta, len(payload), typ)
            pend[cs] = {'fmt': fmt, 'field': field, 'ext': ext, 'payload': payload, 'off': 0, 'type': typ, 'ts': ts,
                        'started': False}
            step(cs)
            if not hold:
                while cs in pend:
                    step(cs)
            else:
                for _ in range(4):
                    if sched and pend:
                        k = sorted(pend)[sched.pop() % len(pend)]
                        step(k)
        while pend:
            k = sorted(pend)[(sched.pop() if sched else 0) % len(pend)]
            step(k)
        # marker
        end = media.filler(0x7fff0001, 32)
        out += b''.join(rtmp.chunk_encode(5, 7, 8, 1, b'\x2f' + end, chunk))
        expected.append((8, 7, b'\x2f' + end))
        if multi:
            labels.add('multi-chunk')
        return bytes(out), expected, labels

    def run(self, case):
        self.n += 1
        data, expected, labels = self.encode(case)
        name = 's%d' % self.n
        pub = pl = None
        try:
            try:
                pub = rtmp.publisher(self.addr, 'live', name, chunk=4096)
                pl = rtmp.player(self.addr, 'live', name)
            except (OSError, rtmp.Closed, rtmp.Timeout) as e:
                if self.ng.crashes():
                    raise Violation('server crashed: %s' % self.ng.crashes()[0])
                raise Inconclusive('setup %r' % e)
            i = 0
            for c in case['cuts']:
                if i >= len(data):
                    break
                pub.send(data[i:i + c])
                i += c
                labels.add('tcp cut')
                time.sleep(0.0008)
            if i < len(data):
                pub.send(data[i:])
            got = []
            marker = expected[-1][2]
            while True:
                m = pl.next(self.patience)
                if m is None:
                    break
                if m.type in (8, 9):
                    got.append((m.type, m.ts, m.payload))
                    if m.payload == marker:
                        break
        except (rtmp.Closed, rtmp.Timeout) as e:
            got.append(('no more: %r' % e, 0, b''))
        except rtmp.ProtoError as e:
            raise Violation('player was sent bytes that are not RTMP: %s' % e)
        finally:
            for c in (pub, pl):
                if c is not None:
                    c.close()
        cr = self.ng.crashes()
        if cr:
            raise Violation('server crashed: %s' % cr[0])
        if got != expected:
            k = 0
            while k < len(got) and k < len(expected) and got[k] == expected[k]:
                k += 1

            def d(x):
                return [(t, ts, len(p), p[:12].hex() if isinstance(p, bytes) else p) for t, ts, p in x[k:k + 3]]
            raise Violation('delivered messages differ from index %d: got %s expected %s (%d / %d)' % (
                k, d(got), d(expected), len(got), len(expected)))
        nt = 'multi-chunk' in labels and bool(labels - {'multi-chunk'})
        return nt, labels


if __name__ == '__main__':
    main(R01)
