"""Concrete frames and byte-stream material for the framer scenarios (inputs only; never an oracle)."""
import struct

_T = []
for _i in range(256):
    c = _i
    for _ in range(8):
        c = (c >> 1) ^ 0xEDB88320 if c & 1 else c >> 1
    _T.append(c)


def crc(b):
    c = 0
    for x in b:
        c = _T[(c ^ x) & 0xFF] ^ (c >> 8)
    return c


def binary(body=b"", msg=42, sync2=0x44, week=2000, ms=1000, bad=0, length=None, hdr=None):
    h = bytes([0xAA, sync2, 0x12]) + struct.pack("<BHBBHHBBHIIHH", 28, msg, 0, 0x20, len(body) if length is None else length, 0, 0, 180, week, ms, 0, 0, 16000)
    if hdr is not None:
        h = hdr
    m = h + body
    return m + struct.pack("<I", crc(m) ^ bad)


def short_binary(body=b"", msg=325, sync2=0x44, bad=0, length=None):
    m = bytes([0xAA, sync2, 0x13]) + struct.pack("<BHHI", len(body) if length is None else length, msg, 2000, 5000) + body
    return m + struct.pack("<I", crc(m) ^ bad)


def ascii_(text=b"BESTPOSA,COM1,0,83.5,FINESTEERING,1419,336208.000,02000040,6145,2724;SOL_COMPUTED", sync=b"#", bad=0, upper=False):
    c = b"%08x" % (crc(text) ^ bad)
    return sync + text + b"*" + (c.upper() if upper else c) + b"\r\n"


def nmea(text=b"GPGGA,220147.50,5106.7194489,N,11402.3589020,W,2,08,1.0,1080.406,M,-16.27,M,,", bad=0, tail=b""):
    x = 0
    for b in text:
        x ^= b
    return b"$" + text + b"*" + tail + b"%02X" % (x ^ bad) + b"\r\n"


def abb(header=b"BESTPOS COM1 0 83.5 FINESTEERING 1419 336208.000 02000040 6145 2724", lines=(b"SOL_COMPUTED SINGLE 51.1",)):
    return b"<" + header + b"\r\n" + b"".join(b"<     " + x + b"\r\n" for x in lines)


def rxconfig():
    inner = b"#ADJUST1PPSA,COM1,0,79.5,UNKNOWN,0,16.5,02000020,daa9,1114;OFF,ONCE,0"
    i = inner + b"*%08x" % (crc(inner[1:]) ^ 0xFFFFFFFF)
    t = b"RXCONFIGA,COM1,2,79.5,UNKNOWN,0,16.5,02400020,f702,1114;" + i
    return ascii_(t)
