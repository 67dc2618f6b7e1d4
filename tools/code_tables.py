#!/usr/bin/env python3
"""One-off: spec/code.json, the remainder and correction tables of the RDS block code.

Only a speed-up for TLC: MC_Fec checks every entry against the definitions in BlockSync.tla."""
import json, os
G = 0x5B9
def rem(w):
    for k in range(25, 9, -1):
        if w >> k & 1: w ^= G << (k - 10)
    return w
OFF = [0x0FC, 0x198, 0x168, 0x350, 0x1B4]
burst = [0] * 1024
for e in [1 << k for k in range(26)] + [3 << k for k in range(25)]:
    burst[rem(e)] = e
off = [9] * 1024
for k, o in enumerate(OFF): off[o] = k
d = dict(remLo=[rem(v) for v in range(8192)], remHi=[rem(v << 13) for v in range(8192)], offset=off, burst=burst)
json.dump(d, open(os.path.join(os.path.dirname(__file__), "..", "spec", "code.json"), "w"), separators=(",", ":"))
