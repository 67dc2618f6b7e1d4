"""Transmitting groups as bits, with errors."""
OFF = [0x0FC, 0x198, 0x168, 0x350, 0x1B4]   # A B C C' D
GEN = 0x5B9


def check(v):
    r = v << 10
    for k in range(25, 9, -1):
        if r >> k & 1:
            r ^= GEN << (k - 10)
    return r


def block(v, off):
    return (v << 10) | (check(v) ^ OFF[off])


def blocks_of(g):
    """the four 26-bit words of a group (version B groups have C')"""
    cp = (g[1] >> 11) & 1
    return [block(g[0], 0), block(g[1], 1), block(g[2], 3 if cp else 2), block(g[3], 4)]


def word_bits(w_, n=26):
    return [(w_ >> (n - 1 - k)) & 1 for k in range(n)]


def ascii_bits(bits):
    return bytes(48 + b for b in bits)
