"""FLV-style audio/video payload builders."""
import struct

SPS = bytes.fromhex('67640028acd940780227e5c044000003000400000300ca3c60c658')
PPS = bytes.fromhex('68ebe3cb22c0')


def avcc(sps=SPS, pps=PPS):
    return b'\x01' + sps[1:4] + b'\xff\xe1' + struct.pack('>H', len(sps)) + sps + b'\x01' + struct.pack('>H', len(pps)) + pps


def avc_header(sps=SPS, pps=PPS):
    return b'\x17\x00\x00\x00\x00' + avcc(sps, pps)


def video(key, data, cts=0):
    return (b'\x17' if key else b'\x27') + b'\x01' + cts.to_bytes(3, 'big') + data


def nalu(typ, body):
    """one AVCC NAL unit; body must not need emulation prevention"""
    n = bytes([typ]) + body
    return struct.pack('>I', len(n)) + n


def aac_header(objtype=2, freqidx=4, chan=2):
    v = objtype << 11 | freqidx << 7 | chan << 3
    return b'\xaf\x00' + struct.pack('>H', v)


def aac(data):
    return b'\xaf\x01' + data


def mp3(data):
    return b'\x2f' + data


def filler(tag, n):
    """n deterministic bytes, different for different tags, with few zero bytes"""
    if n <= 0:
        return b''
    x = (tag * 2654435761 + 12345) & 0xffffffff
    out = bytearray()
    blk = bytearray()
    for _ in range(min(n, 251)):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        blk.append((x >> 16) % 255 + 1)
    while len(out) < n:
        out += blk
    t = struct.pack('>I', tag & 0xffffffff)
    out[:4] = t[:min(4, n)] if n < 4 else t
    return bytes(out[:n])
