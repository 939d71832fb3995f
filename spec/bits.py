"""bit/byte conversions of FIPS 203/204/205, written as sums (little-endian within each byte)"""


def int_bits(x, n):
    out = []
    for i in range(n):
        out.append((x >> i) & 1)
    return out


def bits_int(bs):
    t = 0
    for i in range(len(bs)):
        t = t + (bs[i] << i)
    return t


def bytes_bits(b):
    out = []
    for x in b:
        for j in range(8):
            out.append((x >> j) & 1)
    return out


def bits_bytes(bs):
    out = []
    for i in range(0, len(bs), 8):
        t = 0
        for j in range(8):
            t = t + (bs[i + j] << j)
        out.append(t)
    return bytes(out)


def pack(vals, width):
    """concatenate the width-bit little-endian representations, as bytes"""
    bs = []
    for v in vals:
        for i in range(width):
            bs.append((v >> i) & 1)
    return bits_bytes(bs)


def unpack(b, width, n):
    bs = bytes_bits(b)
    return [bits_int(bs[i * width:(i + 1) * width]) for i in range(n)]
