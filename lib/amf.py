"""Independent AMF0 codec used as the reference model."""
import struct

UNDEF = type('Undef', (), {'__repr__': lambda s: 'UNDEF'})()


class Ecma(dict):
    pass


def enc_str(b):
    if isinstance(b, str):
        b = b.encode('utf-8', 'surrogateescape')
    if len(b) > 65535:
        return b'\x0c' + struct.pack('>I', len(b)) + b
    return b'\x02' + struct.pack('>H', len(b)) + b


def _key(k):
    if isinstance(k, str):
        k = k.encode()
    return struct.pack('>H', len(k)) + k


def enc(v):
    if isinstance(v, bool):
        return b'\x01' + (b'\x01' if v else b'\x00')
    if isinstance(v, (int, float)):
        return b'\x00' + struct.pack('>d', float(v))
    if isinstance(v, (str, bytes)):
        return enc_str(v)
    if v is None:
        return b'\x05'
    if v is UNDEF:
        return b'\x06'
    if isinstance(v, Ecma):
        return b'\x08' + struct.pack('>I', len(v)) + b''.join(_key(k) + enc(x) for k, x in v.items()) + b'\0\0\x09'
    if isinstance(v, dict):
        return b'\x03' + b''.join(_key(k) + enc(x) for k, x in v.items()) + b'\0\0\x09'
    if isinstance(v, list):
        return b'\x0a' + struct.pack('>I', len(v)) + b''.join(enc(x) for x in v)
    raise TypeError(v)


def enc_all(*vs):
    return b''.join(enc(v) for v in vs)


class ProtoError(Exception):
    pass


class AmfError(ProtoError):
    pass


def dec(b, i=0):
    if i >= len(b):
        raise AmfError('eof')
    t = b[i]
    i += 1

    def need(n):
        if i + n > len(b):
            raise AmfError('eof')
    if t == 0:
        need(8)
        return struct.unpack('>d', b[i:i + 8])[0], i + 8
    if t == 1:
        need(1)
        return b[i] != 0, i + 1
    if t in (2, 0x0c):
        w = 2 if t == 2 else 4
        need(w)
        n = int.from_bytes(b[i:i + w], 'big')
        i += w
        need(n)
        return b[i:i + n].decode('utf-8', 'surrogateescape'), i + n
    if t == 5:
        return None, i
    if t == 6:
        return UNDEF, i
    if t in (3, 8):
        r = Ecma() if t == 8 else {}
        if t == 8:
            need(4)
            i += 4
        while True:
            need(2)
            n = int.from_bytes(b[i:i + 2], 'big')
            i += 2
            need(n)
            k = b[i:i + n].decode('utf-8', 'surrogateescape')
            i += n
            if n == 0 and i < len(b) and b[i] == 9:
                return r, i + 1
            r[k], i = dec(b, i)
    if t == 0x0a:
        need(4)
        n = int.from_bytes(b[i:i + 4], 'big')
        i += 4
        out = []
        for _ in range(n):
            v, i = dec(b, i)
            out.append(v)
        return out, i
    if t == 0x0b:
        need(10)
        return struct.unpack('>d', b[i:i + 8])[0], i + 10
    raise AmfError('type %d' % t)


def dec_all(b):
    i, out = 0, []
    while i < len(b):
        v, i = dec(b, i)
        out.append(v)
    return out
