"""Generators of transmissions (histories of groups), seeded and boundary-biased.

A group is [b1, b2, b3, b4, stream]; blocks are ints, or None when lost."""
import random

RTP, ERTP, ERT, DAB, TMC, TMC2 = 0x4BD7, 0x4BD8, 0x6552, 0x0093, 0xCD46, 0xCD47
EDGE16 = [0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x5555, 0xAAAA]


def B2(tc, low5=0, tp=0, pty=0):
    return (tc << 11) | (tp << 10) | (pty << 5) | (low5 & 31)


def w(hi, lo):
    return ((hi & 255) << 8) | (lo & 255)


class G:
    def __init__(self, rng, pi=None):
        self.r = rng
        self.pi = rng.randrange(0x10000) if pi is None else pi
        self.tp = rng.randrange(2)
        self.pty = rng.randrange(32)

    # -- helpers
    def g(self, tc, low5, b3=None, b4=None):
        r = self.r
        if r.random() < 0.1:
            self.tp, self.pty = r.randrange(2), r.randrange(32)
        if b3 is None:
            b3 = self.pi if tc % 2 else self.w16()
        if b4 is None:
            b4 = self.w16()
        return [self.pi, B2(tc, low5, self.tp, self.pty), b3, b4, 0]

    def w16(self):
        r = self.r
        return r.choice(EDGE16) if r.random() < 0.25 else r.randrange(0x10000)

    def char(self, kind="any"):
        r = self.r
        if kind == "ascii":
            return r.choice(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 -.,")
        x = r.random()
        if x < 0.55:
            return r.choice(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz 0123456789")
        if x < 0.6:
            return 32
        if x < 0.62:
            return r.choice([0, 10, 11, 31, 127, 255])
        c = r.randrange(32, 256)
        return c

    def text(self, n):
        return [self.char() for _ in range(n)]

    def utf8(self, n, bad=0.1):
        """exactly n bytes, usually valid UTF-8"""
        r = self.r
        out = []
        while len(out) < n:
            x = r.random()
            if x < 0.6:
                c = bytes([r.randrange(32, 127)])
            elif x < 0.8:
                c = chr(r.randrange(0x80, 0x800)).encode()
            elif x < 0.95:
                c = chr(r.choice([0x20AC, 0x800, 0xFFFD, 0x4E2D, 0xD7FF, 0xE000])).encode()
            else:
                c = chr(r.choice([0x1F600, 0x10000, 0x10FFFF])).encode()
            if len(out) + len(c) <= n:
                out += list(c)
            elif len(out) < n:
                out += [r.randrange(33, 127)] * (n - len(out))
        if r.random() < bad:
            out[r.randrange(n)] = r.choice([0x80, 0xC0, 0xFF, 0xE2, 0xF5, 0xED])
        return out

    def ucs2(self, n, bad=0.05):
        """n characters of two bytes"""
        r = self.r
        out = []
        for _ in range(n):
            x = r.random()
            c = (r.randrange(32, 127) if x < .4 else r.randrange(0x80, 0x800) if x < .6 else
                 r.choice([0x0D00, 0x0D0D, 0x010D, 0x4E0D, 0, 1, 0x20, 0x100, 0x2000, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0xFEFF, 0xFFFE, 0xD7FF, 0xE000]) if x < .8
                 else r.choice([r.randrange(0x800, 0xD800), r.randrange(0xE000, 0x10000)]))
            out += [c >> 8, c & 255]
        if n and r.random() < bad:
            out[2 * r.randrange(n)] = r.randrange(0xD8, 0xE0)
        return out

    def ert_text(self, ucs2, n=None, term=True):
        """the bytes of an eRT of n bytes, in whole segments"""
        n = self.r.choice([1, 4, 8, 20, 60, 127, 128, self.r.randrange(1, 129)]) if n is None else n
        if ucs2:
            m = self.ucs2(n // 2) + ([0, 13] if term and n < 127 else [])
            return m + [0, 32] * (-len(m) % 4 // 2)
        m = self.utf8(n, bad=0.05) + ([13] if term and n < 128 else [])
        return m + [32] * (-len(m) % 4)

    def reps(self, segs, n=None, order=True):
        """transmit the segments (list of groups) some times, perhaps disturbed"""
        r = self.r
        out = []
        for _ in range(n or r.choice([1, 1, 2, 3])):
            q = list(segs)
            x = r.random()
            if not q:
                continue
            if x < 0.08:
                r.shuffle(q)
            elif x < 0.16 and len(q) > 1:
                del q[r.randrange(len(q))]
            elif x < 0.22:
                k = r.randrange(len(q))
                q.insert(k, q[k])
            elif x < 0.28:
                k = r.randrange(len(q))
                q = q[k:] + q[:k]
            elif x < 0.32:
                q = q[:r.randrange(len(q)) + 1]
            out += [list(g) for g in q]
        return out

    # -- features; each returns a list of groups
    def ps(self):
        r = self.r
        name = self.text(8)
        if r.random() < 0.25:
            name[r.randrange(8)] = 13
        tc = r.choice([0, 0, 0, 1])
        segs = []
        for k in range(4):
            b3 = self.pi if tc else w(r.choice([205, 224, 0, 250, 100]), r.choice([205, 205, 1, 204, 225]))
            segs.append(self.g(tc, (r.randrange(8) << 2) | k, b3, w(name[2 * k], name[2 * k + 1])))
        return self.reps(segs)

    def af(self):
        r = self.r
        out = []
        def fm(): return r.choice([1, 204, 2, 203, 100, 87]) if r.random() < .3 else r.randrange(1, 205)
        for _ in range(r.choice([1, 2, 3])):
            codes = []
            x = r.random()
            if x < 0.35:                                    # method A
                n = r.choice([1, 2, 3, 4, 5, 7, 12, 24, 25, 0])
                codes = [224 + n] + [fm() for _ in range(n)]
            elif x < 0.5:                                   # method A with LF/MF
                n = r.choice([1, 2, 3, 5, 9, 25])
                codes = [224 + n]
                for _ in range(n):
                    if r.random() < 0.4:
                        codes += [250, r.choice([1, 15, 16, 135, 136, 134, 14, 0, r.randrange(256)])]
                    else:
                        codes.append(fm())
            elif x < 0.8:                                   # method B
                k = r.choice([1, 2, 3, 4, 8, 12])
                t = fm()
                codes = [224 + 2 * k + 1, t]
                pool = [fm() for _ in range(k)] if r.random() < .5 else r.sample(range(1, 205), k)
                for o in pool:
                    codes += [t, o] if r.random() < 0.5 else [o, t]
                if r.random() < 0.15:
                    codes[r.randrange(1, len(codes))] = fm()
            else:
                codes = [r.choice([0, 1, 204, 205, 206, 223, 224, 225, 226, 249, 250, 251, 255, r.randrange(256)])
                         for _ in range(r.randrange(2, 12))]
            if r.random() < 0.3:
                codes.insert(r.randrange(1, len(codes) + 1), 205)
            if r.random() < 0.12:
                codes.insert(r.randrange(1, len(codes) + 1), r.choice([0, 206, 223, 251, 255, 225, 226, 249]))
            if r.random() < 0.12:
                codes += [fm(), fm()]                        # overflow
            if len(codes) % 2:
                codes.append(r.choice([205, 205, 205, fm(), 224]))
            segs = [self.g(0, r.randrange(32), w(codes[i], codes[i + 1])) for i in range(0, len(codes), 2)]
            out += segs if r.random() < .7 else self.reps(segs, 1)
        return out

    def di(self):
        r = self.r
        return [self.g(r.choice([0, 1, 31, 31]), r.randrange(32), self.w16()) for _ in range(r.randrange(1, 6))]

    def slc(self):
        r = self.r
        out = []
        for _ in range(r.randrange(1, 8)):
            v = r.randrange(8)
            d = self.w16() & 0xFFF
            if v == 0:
                d = r.choice([0xE0, 0xE1, 0xE2, 0xE3, 0xE4, 0xE5, 0xF0, 0xF1, 0xF2, 0xF3, 0xF4, 0xA0, 0xA1, 0xA4, 0xA5,
                              0xA6, 0xD0, 0xD1, 0xD2, 0xD3, 0xD4, 0, 0xDF, r.randrange(256)]) | (d & 0xF00)
            if v == 3:
                d = (d & 0xF00) | r.choice([0, 1, 0x7F, 0x80, 0x45, 0x2B, r.randrange(256)])
            pin = r.choice([0, w(r.randrange(256), r.randrange(256)),
                            (r.choice([0, 1, 15, 31]) << 11) | (r.choice([0, 12, 23, 24, 25, 31]) << 6) | r.choice([0, 30, 59, 60, 63])])
            out.append(self.g(r.choice([2, 2, 2, 3]), r.randrange(32), (r.randrange(2) << 15) | (v << 12) | d, pin))
        return out

    def rt(self, tc=None, ab=None):
        """RadioText: several messages, maybe changing without and with the flag"""
        r = self.r
        out = []
        if not hasattr(self, "rtab"):
            self.rtab = r.randrange(2)
        for _ in range(r.choice([1, 1, 2, 3])):
            t = tc if tc is not None else r.choice([4, 4, 4, 5])
            per = 4 if t == 4 else 2
            full = 16 * per
            x = r.random()
            n = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, full - 1, full, full - 4, r.randrange(1, full + 1)])
            n = max(1, min(full, n))
            msg = self.text(n) if r.random() < .6 else [self.char("ascii") for _ in range(n)]
            if x < 0.45 and n < full:
                msg = msg + [13]
            elif x < 0.6:
                msg = msg + [32] * (full - n)
            # else: unterminated
            while len(msg) % per:
                msg.append(32)
            msg = msg[:full]
            segs = []
            for k in range(len(msg) // per):
                if per == 4:
                    segs.append(self.g(4, (self.rtab << 4) | k, w(msg[4 * k], msg[4 * k + 1]), w(msg[4 * k + 2], msg[4 * k + 3])))
                else:
                    segs.append(self.g(5, (self.rtab << 4) | k, None, w(msg[2 * k], msg[2 * k + 1])))
            out += self.reps(segs, r.choice([1, 2, 3, 3]))
            if r.random() < 0.6:
                self.rtab ^= 1
        return out

    def oda3a(self, tcs=None, apps=None):
        r = self.r
        app = r.choice(apps) if apps else r.choice([RTP, ERTP, ERT, DAB, TMC, TMC2, 0x4AA1, 0x6A7A, 0, 0x1234, r.randrange(65536)])
        code = r.choice(tcs) if tcs else r.randrange(32)
        msg = self.w16()
        if app == ERT:
            msg |= 1
        return [self.g(6, code, msg, app)]

    def odagroups(self, codes=None):
        r = self.r
        return [self.g(r.choice(codes) if codes else r.randrange(32), r.randrange(32), self.w16(), self.w16())
                for _ in range(r.randrange(1, 6))]

    def clock(self):
        r = self.r
        out = []
        for _ in range(r.randrange(1, 6)):
            mjd = r.choice([15078, 15079, 15080, 15384, 15385, 33282, 40587, 45000, 51544, 51603, 51604, 51605, 51909, 51910, 53064,
                            53065, 57082, 57448, 57449, 57450, 58849, 60000, 61100, 88068, 88069, 88126, 88127, 88128, 131071, 0, 1,
                            r.randrange(15079, 88128), r.randrange(15079, 88128), r.randrange(131072)])
            h = r.choice([0, 1, 11, 12, 22, 23, 24, 31, r.randrange(24)])
            m = r.choice([0, 1, 29, 30, 31, 59, 60, 63, r.randrange(60)])
            off = r.choice([0, 1, 2, 3, 4, 7, 11, 23, 24, 25, 26, 27, 28, 29, 30, 31, r.randrange(32)])
            sg = r.randrange(2)
            b3 = ((mjd & 0x7FFF) << 1) | (h >> 4)
            out.append(self.g(8, (mjd >> 15) | (r.randrange(8) << 2), b3, ((h & 15) << 12) | (m << 6) | (sg << 5) | off))
        return out

    def tdc(self):
        r = self.r
        if r.random() < 0.3:
            return [self.g(r.choice([10, 11]), r.randrange(32)) for _ in range(r.randrange(1, 5))]
        data = self.text(128)
        n = 32
        if r.random() < 0.6:
            n = r.choice([1, 2, 5, 31])
            data[r.randrange(4 * n - 4, 4 * n)] = 13
        segs = [self.g(10, k, w(data[4 * k], data[4 * k + 1]), w(data[4 * k + 2], data[4 * k + 3])) for k in range(n)]
        return self.reps(segs, r.choice([1, 1, 2]))

    def inhouse(self):
        return [self.g(self.r.choice([12, 13]), self.r.randrange(32), self.w16()) for _ in range(self.r.randrange(1, 4))]

    def ptyn(self):
        r = self.r
        if not hasattr(self, "ptynab"):
            self.ptynab = r.randrange(2)
        out = []
        for _ in range(r.choice([1, 2])):
            name = self.text(8)
            if r.random() < 0.2:
                name[r.randrange(8)] = 13
            segs = [self.g(20, (self.ptynab << 4) | (r.randrange(8) << 1) | k, w(name[4 * k], name[4 * k + 1]),
                           w(name[4 * k + 2], name[4 * k + 3])) for k in range(2)]
            out += self.reps(segs)
            if r.random() < 0.6:
                self.ptynab ^= 1
        return out

    def longps(self):
        r = self.r
        n = r.choice([32, 32, 4, 8, 20, 31, r.randrange(1, 33)])
        name = self.utf8(n) + ([13] if n < 32 else [])
        name += [r.choice([32, 65])] * (-len(name) % 4)
        segs = [self.g(30, (r.randrange(4) << 3) | k, w(name[4 * k], name[4 * k + 1]), w(name[4 * k + 2], name[4 * k + 3]))
                for k in range(len(name) // 4)]
        return self.reps(segs)

    def eon(self):
        r = self.r
        if not hasattr(self, "ons"):
            self.ons = [r.randrange(65536) for _ in range(3)]
            if r.random() < 0.3:
                self.ons[0] = self.pi
        streams = []
        for on in r.sample(self.ons, r.choice([1, 2, 3])):
            q = []
            for _ in range(r.choice([1, 2, 3])):
                x = r.random()
                if x < 0.35:
                    name = self.text(8)
                    if r.random() < .15:
                        name[r.randrange(8)] = 13
                    q += self.reps([self.g(28, (r.randrange(2) << 4) | k, w(name[2 * k], name[2 * k + 1]), on) for k in range(4)])
                elif x < 0.65:
                    n = r.choice([1, 2, 3, 4, 5, 9, 25])
                    codes = [224 + n] + [r.randrange(1, 205) for _ in range(n)]
                    if r.random() < .3:
                        codes.insert(r.randrange(1, len(codes)), 250)
                    if r.random() < .2:
                        codes[r.randrange(len(codes))] = r.choice([0, 205, 206, 224, 255, 226])
                    if len(codes) % 2:
                        codes.append(205)
                    q += [self.g(28, 4 | (r.randrange(2) << 4), w(codes[i], codes[i + 1]), on) for i in range(0, len(codes), 2)]
                elif x < 0.75:
                    q.append(self.g(29, r.randrange(32), None, on))
                else:
                    v = r.randrange(5, 16)
                    b3 = self.w16()
                    if v in (5, 6, 7, 8, 9):
                        b3 = w(r.choice([1, 100, 204]), r.choice([0, 1, 204, 205, 255, r.randrange(256)]))
                    if v == 12 and r.random() < .5:
                        b3 = r.choice([0x8000, 0x8001, 0x8FFF, 0x7FFF, 0x0FFF, 0xF000, 0x9000])
                    if v == 14:
                        b3 = r.choice([0, b3, (r.choice([0, 1, 31]) << 11) | (r.choice([0, 23, 24, 25]) << 6) | r.choice([0, 59, 60])])
                    q.append(self.g(28, v | (r.randrange(2) << 4), b3, on))
            streams.append(q)
        return self.merge(*streams)

    def merge(self, *qs):
        r = self.r
        qs = [list(q) for q in qs if q]
        out = []
        while qs:
            k = r.randrange(len(qs))
            out.append(qs[k].pop(0))
            if not qs[k]:
                qs.pop(k)
        return out

    def rtplus(self, ert=False):
        r = self.r
        tc = r.choice([22, 23, 24, 26, 7, 9, 17])
        app = ERTP if ert else RTP
        out = [self.g(6, tc, self.w16(), app)]
        if ert:
            etc = r.choice([25, 27, 15, 19, 21])
            ucs2 = r.random() < .3
            out.append(self.g(6, etc, self.w16() & 0xFFFE | int(not ucs2), ERT))
        for _ in range(r.choice([1, 2, 3])):
            if not hasattr(self, "rtog"):
                self.rtog, self.rrun = 0, 0
            if ert:
                if r.random() < .05:
                    ucs2 = not ucs2
                    out.append(self.g(6, etc, self.w16() & 0xFFFE | int(not ucs2), ERT))
                msg = self.ert_text(ucs2, term=r.random() < .9)
                segs = [self.g(etc, k, w(msg[4 * k], msg[4 * k + 1]), w(msg[4 * k + 2], msg[4 * k + 3])) for k in range(min(32, len(msg) // 4))]
                txt = self.reps(segs, r.choice([1, 1, 2]))
            else:
                txt = self.rt()
            tags = []
            for _ in range(r.choice([1, 2, 4])):
                if r.random() < 0.25:
                    self.rtog, self.rrun = r.randrange(2), r.randrange(2)
                t1, t2 = r.choice([0, 1, 4, 32, 63, r.randrange(64)]), r.choice([0, 1, 31, r.randrange(64)])
                s1, s2 = r.choice([0, 1, 2, 5, 10, 30, 62, 63, r.randrange(64)]), r.choice([0, 1, 3, 8, 60, 63, r.randrange(64)])
                l1, l2 = r.choice([0, 1, 3, 7, 31, 62, 63, r.randrange(64)]), r.choice([0, 1, 2, 15, 31, r.randrange(32)])
                low = (self.rtog << 4) | (self.rrun << 3) | (t1 >> 3)
                b3 = ((t1 & 7) << 13) | (s1 << 7) | (l1 << 1) | (t2 >> 5)
                b4 = ((t2 & 31) << 11) | (s2 << 5) | l2
                tags.append(self.g(tc, low, b3, b4))
            out += txt + tags if r.random() < 0.6 else self.merge(txt, tags)
        return out

    def dab(self):
        r = self.r
        tc = r.choice([24, 22, 26])
        out = [self.g(6, tc, self.w16(), DAB)]
        chans = [174928, 176640, 181936, 239200, 230784, 235776, 237488, 1452960, 1490624, 1471792]
        for _ in range(r.randrange(1, 5)):
            f = r.choice([r.choice(chans) // 16, r.randrange(1 << 18), 0, (1 << 18) - 1, r.choice(chans) // 16 + 1])
            out.append(self.g(tc, (r.random() < .15) << 4 | (r.randrange(4) << 2) | (f >> 16), f & 0xFFFF, self.w16()))
        return out

    # -- TMC
    def tmc_sys(self, enc=None, v=None):
        r = self.r
        if v is None:
            v = r.choice([0, 0, 0, 1, 2, 3])
        if v == 0:
            ltn = 0 if (enc if enc is not None else r.random() < .3) else r.choice([1, 2, 17, 31, 32, 63, r.randrange(1, 64)])
            m = (ltn << 6) | (r.randrange(2) << 5) | r.randrange(16) | (r.randrange(4) << 12)
        elif v == 1:
            m = 0x4000 | r.randrange(0x4000)
            if r.random() < .5:
                m &= 0xFFF0
                m |= r.choice([0, 1, 13, 15, 14])
        elif v == 2:
            m = 0x8000 | (r.randrange(64) << 8) | r.choice([0, 0xE0, 0xE1, 0xE2, 0xE3, 0xE4, 0xA0, r.randrange(256)])
        else:
            m = 0xC000 | r.randrange(0x4000)
        tc = getattr(self, "tmctc", 16)
        return [self.g(6, tc, m, self.r.choice([TMC, TMC, TMC2]))]

    EVENTS = None

    def event(self):
        r = self.r
        if G.EVENTS and r.random() < 0.85:
            return r.choice(G.EVENTS)
        return r.randrange(2048)

    def tmc_u(self, x, y, z):
        return self.g(getattr(self, "tmctc", 16), x, y, z)

    def loc(self):
        r = self.r
        locs = getattr(self, "locs", None)
        if locs and r.random() < 0.8:
            return r.choice(locs)
        return r.choice([0, 1, 65535, r.randrange(65536)])

    def tmc_single(self):
        r = self.r
        y = (r.randrange(2) << 15) | (r.randrange(2) << 14) | (r.randrange(8) << 11) | self.event()
        return [self.tmc_u(8 | r.randrange(8), y, self.loc())]

    def tmc_fields(self, nbits):
        r = self.r
        bits = []
        sizes = [3, 3, 5, 5, 5, 8, 8, 8, 8, 11, 16, 16, 16, 16, 0, 0]
        def put(v, n): bits.extend((v >> (n - 1 - k)) & 1 for k in range(n))
        while True:
            lab = r.choice([1, 1, 2, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9, 9, 10, 13, 14, 0, 11, 12, 15])
            n = sizes[lab]
            if lab == 9:
                v = self.event()
            elif lab == 1:
                v = r.randrange(8)
            elif lab in (7, 8):
                v = r.choice([0, 3, 95, 96, 119, 120, 143, 144, 200, 201, 231, 232, 233, 255, 254, 256 - 1, r.randrange(256)])
            elif lab in (4, 5) and r.random() < .3:
                v = r.choice([0, 1, 4, 5, 10, 11, 14, 15, 22, 23, 28, 29, 30, 31] + ([100, 101, 255, 135, 136, 204, 205] if lab == 5 else []))
            else:
                v = r.randrange(1 << n) if n else 0
            if len(bits) + 4 + n > nbits:
                break
            put(lab, 4)
            put(v, n)
            if r.random() < 0.1:
                break
        pad = nbits - len(bits)
        if r.random() < .85:
            bits += [0] * pad
        else:
            bits += [r.randrange(2) for _ in range(pad)]
        return bits

    def tmc_multi(self):
        r = self.r
        ci = r.randrange(1, 7) if r.random() < .9 else r.randrange(8)
        y0 = 0x8000 | (r.randrange(2) << 14) | (r.randrange(8) << 11) | self.event()
        parts = r.choice([2, 2, 3, 4, 5])
        bits = self.tmc_fields(28 * (parts - 1))
        gs = [self.tmc_u(ci, y0, self.loc())]
        for k in range(1, parts):
            gsi = parts - 1 - k
            f = bits[28 * (k - 1):28 * k]
            v = 0
            for b in f:
                v = 2 * v + b
            y = ((1 if k == 1 else 0) << 14) | (gsi << 12) | (v >> 16)
            gs.append(self.tmc_u(ci, y, v & 0xFFFF))
        x = r.random()
        if x < 0.1:
            del gs[r.randrange(len(gs))]
        elif x < 0.16:
            k = r.randrange(len(gs))
            gs.insert(k, list(gs[k]))
        elif x < 0.2:
            r.shuffle(gs)
        elif x < 0.24:
            k = r.randrange(len(gs))
            gs[k][1] = (gs[k][1] & ~7) | r.randrange(8)
        return gs

    def tmc_tuning(self):
        r = self.r
        out = []
        for _ in range(r.randrange(1, 4)):
            v = r.choice([4, 5, 6, 8, 9, r.randrange(16)])
            if v in (4, 5):
                name = self.text(8)
                if r.random() < .15:
                    name[r.randrange(8)] = 13
                out += self.reps([self.tmc_u(0x14 + k, w(name[4 * k], name[4 * k + 1]), w(name[4 * k + 2], name[4 * k + 3])) for k in range(2)])
            elif v == 6:
                out.append(self.tmc_u(0x16, w(r.choice([0, 1, 204, 205, 255, 100]), r.choice([0, 1, 204, 205, 250, 77])), self.w16()))
            elif v == 8:
                a = self.w16()
                out.append(self.tmc_u(0x18, a, r.choice([a, 0, self.w16()])))
            else:
                out.append(self.tmc_u(0x10 | v, self.w16(), self.w16()))
        return out

    def tmc_enc(self):
        r = self.r
        encs = getattr(self, "encids", list(range(32)))
        ltns = getattr(self, "ltns", list(range(64)))
        return [self.tmc_u(0, (r.randrange(64) << 5) | r.choice(encs) | (r.randrange(4) << 11 if r.random() < .2 else 0),
                           (r.choice(ltns) << 10) | r.randrange(1024))]

    def tmc(self, n=None):
        r = self.r
        if not hasattr(self, "tmctc"):
            self.tmctc = r.choice([16, 16, 16, 24, 22])
        out = []
        if r.random() < 0.9:
            out += self.tmc_sys(v=0)
        for _ in range(n or r.choice([2, 4, 8])):
            f = r.choice([self.tmc_single, self.tmc_single, self.tmc_multi, self.tmc_multi, self.tmc_multi, self.tmc_tuning, self.tmc_enc, self.tmc_sys])
            if f == self.tmc_multi and r.random() < .2:
                out += self.merge(self.tmc_multi(), self.tmc_multi())
            else:
                out += f()
        return out

    # -- RDS2
    def c(self, b1, b2, b3, b4):
        return [b1, b2, b3, b4, self.r.choice([1, 2, 3])]

    def rft_size(self, pipe, size):
        r = self.r
        return self.c(0x8000 | pipe, r.choice([0xFF7F, 0xFF80, 0xFF81, self.w16()]),
                      (r.randrange(2) << 11) | (r.randrange(8) << 8) | (r.randrange(64) << 2) | (size >> 16), size & 0xFFFF)

    def rft_seg(self, pipe, tog, addr, bs):
        return self.c(0x2000 | (pipe << 8) | (tog << 7) | (addr >> 8), ((addr & 255) << 8) | bs[0], w(bs[1], bs[2]), w(bs[3], bs[4]))

    def rft_file(self, pipe=None, maxlen=40):
        r = self.r
        if not hasattr(self, "rfttog"):
            self.rfttog = [0] * 16
        pipe = r.randrange(16) if pipe is None else pipe
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 9, 10, 11, r.randrange(1, maxlen)])
        data = [r.randrange(256) for _ in range(n)]
        nseg = (n + 4) // 5
        if r.random() < .6:
            self.rfttog[pipe] ^= 1
        tog = self.rfttog[pipe]
        segs = []
        for a in range(nseg):
            bs = (data[5 * a:5 * a + 5] + [r.randrange(256) for _ in range(5)])[:5]
            segs.append(self.rft_seg(pipe, tog, a, bs))
        if r.random() < .2:
            segs.append(self.rft_seg(pipe, tog, r.choice([nseg, nseg + 1, 32767, 32766]), [r.randrange(256) for _ in range(5)]))
        size = self.rft_size(pipe, n if r.random() < .93 else r.choice([163840, 163841, 262143, n + 1, max(0, n - 5)]))
        out = []
        x = r.random()
        if x < .5:
            out += [size] + segs
        elif x < .7:
            out += segs[:len(segs) // 2] + [size] + segs[len(segs) // 2:]
        elif x < .85:
            q = segs + [r.choice(segs)] if segs else segs
            r.shuffle(q)
            out += [size] + q
        else:
            out += segs + [size] + segs[-1:]
        for _ in range(r.choice([0, 0, 1])):
            q = list(segs)
            if r.random() < .5:
                r.shuffle(q)
            out += q
        if segs and r.random() < .15:
            del out[r.randrange(len(out))]
        return [list(g) for g in out]

    def rft(self):
        r = self.r
        k = r.choice([1, 1, 2, 3])
        files = []
        for _ in range(k):
            q = []
            p = r.randrange(16)
            for _ in range(r.choice([1, 2, 3])):
                q += self.rft_file(p)
            files.append(q)
        return self.merge(*files)

    def typec(self):
        r = self.r
        out = []
        for _ in range(r.randrange(1, 5)):
            x = r.random()
            if x < .2:
                out.append(self.c(0x4000 | r.randrange(0x4000), self.w16(), self.w16(), self.w16()))
            elif x < .6:
                out.append(self.c(0x8000 | (r.choice([0, 0, 0, 1, 2, 3]) << 6) | r.choice([0, 1, 15, 16, 17, 63, r.randrange(64)]),
                                  r.choice([0xFF7F, 0x4BD7, self.w16()]),
                                  (r.choice([0, 1, 1, 2, 7, 8, 15]) << 12) | r.randrange(0x1000), self.w16()))
            elif x < .7:
                out.append(self.c(r.randrange(0x100), self.w16(), self.w16(), self.w16()))
            else:
                out.append(self.c(self.w16(), self.w16(), self.w16(), self.w16()))
            # sizes from random assignments must not make files that are never finished matter
        return out

    def noise(self):
        return [[self.pi, self.w16(), self.w16(), self.w16(), 0] for _ in range(self.r.randrange(1, 4))]


def lose(rng, groups, p):
    """lose blocks (each with probability p) and whole groups"""
    out = []
    for g in groups:
        g = list(g)
        for k in range(4):
            if rng.random() < p:
                g[k] = None
        out.append(g)
    return out


def lossy(rng, groups):
    x = rng.random()
    if x < 0.45:
        return [list(g) for g in groups]
    return lose(rng, groups, rng.choice([0.02, 0.05, 0.1, 0.2]))


def disturb(rng, groups, pi):
    """what real reception adds: isolated wrong PI codes, repeated and swapped groups, groups of other
    kinds and other data streams in between, a short change to another station and back"""
    if rng.random() < .4:
        return groups
    out = []
    p = {k: rng.choice([0, 0, .03, .1]) for k in ("pi", "rep", "swap", "other", "c")}
    for g in groups:
        g = list(g)
        if len(g) < 5:
            g.append(0)
        if rng.random() < p["pi"] and g[4] == 0 and g[0] is not None:
            g[0] = rng.choice([pi ^ 1 << rng.randrange(16), rng.randrange(65536), (pi + 0x1000) & 0xFFFF])
        out.append(g)
        if rng.random() < p["rep"]:
            out.append(list(g))
        if rng.random() < p["swap"] and len(out) > 1:
            out[-1], out[-2] = out[-2], out[-1]
        if rng.random() < p["other"]:
            out.append([pi, rng.choice([0xF800, 0x0000, 0xB000, 0x7000]) | rng.randrange(32), rng.randrange(65536), rng.randrange(65536), 0])
        if rng.random() < p["c"]:
            out.append([rng.choice([pi, 0x4000 | rng.randrange(0x4000), 0x2000 | rng.randrange(0x1000)]), rng.randrange(65536),
                        rng.randrange(65536), rng.randrange(65536), rng.randrange(1, 4)])
    if rng.random() < .15:
        k = rng.randrange(len(out) + 1)
        other = rng.choice([pi ^ 0x100, rng.randrange(65536)])
        n = rng.choice([2, 3, 4, 6])
        out[k:k] = [[other, 0xF800 | rng.randrange(32), other, rng.randrange(65536), 0] for _ in range(n)]
    return out


def preamble(pi):
    return [[pi, 0x0408 | (1 << 11), pi, 0x2020, 0] for _ in range(3)]
