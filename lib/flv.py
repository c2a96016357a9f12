"""FLV parser (strict) and writer."""
import struct


class FlvError(Exception):
    pass


def parse(b, final=False, start_ok=True):
    """(flags, tags, rest): tags are (type, timestamp, payload); raises FlvError on malformed input.
    With final, the input must end exactly after a back pointer."""
    if len(b) < 13:
        if final:
            raise FlvError('only %d bytes' % len(b))
        if b and not b'FLV\x01'.startswith(b[:4]) and b[:4] != b'FLV\x01':
            raise FlvError('bad signature %r' % b[:4])
        return None, [], b
    if b[:4] != b'FLV\x01':
        raise FlvError('bad signature %r' % b[:4])
    flags = b[4]
    if struct.unpack('>I', b[5:9])[0] != 9:
        raise FlvError('header size %d' % struct.unpack('>I', b[5:9])[0])
    if b[9:13] != b'\0\0\0\0':
        raise FlvError('first back pointer is %s' % b[9:13].hex())
    tags, i = tags_of(b, 13, final)
    return flags, tags, b[i:]


def tags_of(b, i, final=False):
    tags = []
    while i < len(b):
        if len(b) - i < 11:
            break
        t, size = b[i], int.from_bytes(b[i + 1:i + 4], 'big')
        ts = int.from_bytes(b[i + 4:i + 7], 'big') | b[i + 7] << 24
        if t not in (8, 9, 18):
            raise FlvError('tag type %d at offset %d (tag %d)' % (t, i, len(tags)))
        if b[i + 8:i + 11] != b'\0\0\0':
            raise FlvError('stream id %s at offset %d' % (b[i + 8:i + 11].hex(), i))
        if len(b) < i + 11 + size + 4:
            break
        back = struct.unpack('>I', b[i + 11 + size:i + 15 + size])[0]
        if back != size + 11:
            raise FlvError('back pointer %d after a tag of %d bytes at offset %d' % (back, size + 11, i))
        tags.append((t, ts, b[i + 11:i + 11 + size]))
        i += 15 + size
    if final and i != len(b):
        raise FlvError('%d bytes after the last complete tag' % (len(b) - i))
    return tags, i


def tag(t, ts, payload):
    return bytes([t]) + len(payload).to_bytes(3, 'big') + (ts & 0xffffff).to_bytes(3, 'big') + bytes([ts >> 24 & 255]) + b'\0\0\0' + payload + struct.pack('>I', len(payload) + 11)


def header(flags=5):
    return b'FLV\x01' + bytes([flags]) + struct.pack('>I', 9) + b'\0\0\0\0'
