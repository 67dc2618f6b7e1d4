"""Synthesise an FM multiplex signal that carries RDS groups (needs numpy: run under python3-vt)."""
import numpy as np
import bits as B

BASE = 171000.0                 # 144 samples per bit
CARRIER = {0: 57000.0, 1: 66500.0, 2: 71250.0, 3: 76000.0}
_pulse = None


def pulse():
    """Impulse response of the standard's shaping filter cos(pi f Td / 4) applied to an impulse pair"""
    global _pulse
    if _pulse is None:
        td = 1 / 1187.5
        n = 144 * 8
        t = (np.arange(-n, n + 1)) / BASE
        f = np.linspace(0, 2 / td, 4001)
        h = np.cos(np.pi * f * td / 4)
        df = f[1] - f[0]
        # real even spectrum -> h(t), sum in pieces
        x = np.zeros_like(t)
        for k in range(0, len(f), 500):
            x += (h[k:k + 500, None] * np.cos(2 * np.pi * f[k:k + 500, None] * t[None, :])).sum(0) * df
        p = x.copy()
        p -= np.concatenate([np.zeros(72), x[:-72]])
        _pulse = p / np.abs(p).max()
    return _pulse


def group_bits(groups):
    out = []
    for g in groups:
        for w in B.blocks_of(g):
            out += B.word_bits(w)
    return out


def envelope(bitlist, init=0):
    """baseband at 171 kHz for a list of bits (differentially encoded)"""
    b = np.asarray(bitlist, dtype=np.int64)
    d = (np.cumsum(b) + init) % 2
    imp = np.zeros(len(b) * 144 + 1)
    imp[np.arange(len(b)) * 144] = 2.0 * d - 1.0
    p = pulse()
    n = len(imp) + len(p) - 1
    m = 1 << (n - 1).bit_length()
    y = np.fft.irfft(np.fft.rfft(imp, m) * np.fft.rfft(p, m), m)[:n]
    return y[len(p) // 2:len(p) // 2 + len(bitlist) * 144]


def signal(streams, rate=171000.0, level=0.05, phase=0.0, pilot=0.0, audio=0.0, delay=0.0, noise=0.0, seed=0, ppm=0.0):
    """streams: {stream number: list of bits}; returns int16 samples.
    level: peak of each subcarrier relative to full scale"""
    r = np.random.RandomState(seed)
    envs = {k: envelope(v, init=r.randint(2)) for k, v in streams.items()}
    dur = max(len(e) for e in envs.values()) / BASE
    n = int(dur * rate)
    t = np.arange(n) / rate + delay
    tt = t * (1 + ppm * 1e-6)
    x = np.zeros(n)
    for k, e in envs.items():
        env = np.interp(t * BASE, np.arange(len(e)), e, left=0, right=0)
        x += level * env * np.cos(2 * np.pi * CARRIER[k] * tt + phase * (k + 1))
    if pilot:
        x += pilot * np.cos(2 * np.pi * 19000 * tt + phase / 3)
    if audio:
        a = sum(np.sin(2 * np.pi * f * t + f) for f in (440.0, 1003.0, 5000.0, 12000.0)) / 4
        l = sum(np.sin(2 * np.pi * f * t + 2 * f) for f in (700.0, 3000.0)) / 2
        x += audio * (a + l * np.cos(2 * np.pi * 38000 * tt + 2 * phase / 3)) / 2
    if noise:
        x += noise * r.randn(n)
    return np.clip(np.round(x * 32767), -32768, 32767).astype("<i2")
