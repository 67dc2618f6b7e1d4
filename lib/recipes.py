"""What is run and compared for every property.  Each recipe yields batches (lists of Scenarios)."""
import random
import bits, core, envs, gen
from core import Opt, Scenario, rand_opt
from gen import G, B2, w, RTP, ERTP, ERT, DAB, TMC, TMC2

FEATS = "ps af di slc rt oda3a odagroups clock tdc inhouse ptyn longps eon rtplus ertplus dab tmc rft typec noise".split()


class Ctx:
    def __init__(self, prop, tier, seed, tables):
        self.prop, self.tier, self.seed, self.T = prop, tier, seed, tables
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.quick = tier == "quick"
        self._envs = []
        G.EVENTS = [int(k) for k in tables["event"]]

    def rounds(self, thorough):
        """rounds of a recipe; the time limit of the tier ends them earlier"""
        return 8 if self.quick else 3 * thorough

    def env(self):
        if not self._envs:
            self._envs = [envs.make(self.rng) for _ in range(4)] + \
                [envs.make(self.rng, ntables=1, nkeys=8), envs.make(self.rng, ntables=2, nkeys=4)]
        return self.rng.choice(self._envs)

    def close(self):
        for e in self._envs + getattr(self, "_damaged", []):
            e.close()


def feat(g, f):
    return g.rtplus(True) if f == "ertplus" else getattr(g, f)()


def use_env(g, env):
    g.ltns = [t["ltn"] for t in env.tables] + [0, 5]
    g.encids = [k[0] for k in env.keys] + [0, 7]
    g.locs = [p[1] for t in env.tables for p in t["points"]][:40] + [9]


def mixed(ctx, feats, n, length=60, keys=("*",), loss=True, switch=.3, env=None, opt=None, extra=()):
    """n traces, each a transmission made of the features"""
    rng = ctx.rng
    out = []
    for i in range(n):
        g = G(rng)
        f = rng.choice(feats)
        e = None
        if env or (env is None and (f == "tmc" or "tmc" in feats and rng.random() < .2)):
            e = ctx.env()
            use_env(g, e)
        gs = []
        while len(gs) < length:
            if rng.random() < switch:
                f = rng.choice(feats)
            q = feat(g, f)
            if extra and rng.random() < .3:
                q = g.merge(q, feat(g, rng.choice(list(extra))))
            gs += q
        if loss:
            gs = gen.disturb(rng, gen.lossy(rng, gs), g.pi)
        gs = (gs)
        o = opt(rng) if opt else rand_opt(rng)
        out.append(Scenario("%s-%d" % (f, i), "groups", gen.preamble(g.pi) + gs, o, env=e, keys=keys))
    return out


def one_loss(ctx, make, n, keys=("*",), opt=None, pairs=False, env=None):
    """transmissions (from make(g)) with every single block, or every single group, lost in turn"""
    rng = ctx.rng
    out = []
    for i in range(n):
        g = G(rng)
        if env:
            use_env(g, env)
        base = (make(g))
        o = opt(rng) if opt else rand_opt(rng)
        cases = []
        for k in range(len(base)):
            for b in range(4):
                cases.append([(k, b)])
            cases.append([(k, b) for b in range(4)])
            cases.append([(k, 2), (k, 3)])
        if pairs:
            for _ in range(60):
                cases.append([(rng.randrange(len(base)), rng.randrange(1, 4)) for _ in range(2)])
        for c in cases:
            gs = [list(x) for x in base]
            for k, b in c:
                gs[k][b] = None
            out.append(Scenario("loss-%d-%s" % (i, c[0]), "groups", gen.preamble(g.pi) + gs, o, keys=keys, env=env))
    return out


def sweep(ctx, masks, types=range(32), n=1, keys=("*",), opt=None, assign=True, env=None, name="sweep"):
    """every group type with every value of the last five bits of block 2 and every given set of lost blocks"""
    rng = ctx.rng
    out = []
    for _ in range(n):
        cases = [(tc, low, m) for tc in types for low in range(32) for m in masks]
        rng.shuffle(cases)
        for k in range(0, len(cases), 240):
            g = G(rng)
            if env:
                use_env(g, env)
            pre = []
            if assign:
                for app in rng.sample([RTP, ERTP, ERT, DAB, TMC, TMC2, 0x1234], 4):
                    pre.append(g.g(6, rng.choice([10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 22, 23, 24, 25, 26, 27, 30, 7, 9]), rng.randrange(1 << 14), app))
                pre.append(g.g(6, 16, 0x0440 | rng.randrange(1 << 6), TMC))
            gs = []
            for tc, low, m in cases[k:k + 240]:
                x = g.g(tc, low, g.w16(), g.w16() if rng.random() < .7 else rng.choice([g.pi, 0x3001, 0x3002]))
                for b in range(4):
                    if m >> b & 1:
                        x[b] = None
                gs.append(x)
            o = opt(rng) if opt else rand_opt(rng)
            out.append(Scenario("%s-%d" % (name, k), "groups", (gen.preamble(g.pi) + pre + gs), o, keys=keys, env=env))
    return out


FLAG_KEYS = ("group", "tp", "prog_type", "ta", "is_music", "di")
SLC_KEYS = ("has_linkage", "country", "tmc_id", "language", "slc_broadcaster_bits", "ews", "prog_item_number", "prog_item_started",
            "other_network/prog_item")
TMC_ON = [(6, 16, 0x0440, 0xCD46)]
EV = 0x0800 | 101


def rft_on(pipe):
    return lambda g: [g.c(0x8000 | pipe, 0xFF7F, 0, 0)]


# property -> [(name, keys, groups before, word -> group(s))]: every value of one 16-bit word
WORDS = {
    "C06": [("b2-no34", ("*",), (), lambda g, v: [g.pi, v, None, None, 0]),
            ("b2-no3", ("*",), (), lambda g, v: [g.pi, v, None, g.r.randrange(65536), 0]),
            ("b2-no4", ("*",), (), lambda g, v: [g.pi, v, g.r.randrange(65536), None, 0])],
    "C07": [("b2", FLAG_KEYS, (), lambda g, v: [g.pi, v, 0x1234, 0x5678, 0])],
    "C11": [("af", ("alt_frequencies_a", "alt_frequencies_b"), (),
             lambda g, v: [g.g(0, 0, 0xE200 | v >> 8, 0x2020), g.g(0, 1, (v & 255) << 8 | 205, 0x2020)]),
            ("lfmf", ("alt_frequencies_a", "alt_frequencies_b"), (), lambda g, v: [g.g(0, 0, 0xE1FA, 0x2020), g.g(0, 1, v, 0x2020)])],
    "C12": [("low", ("clock_time",), (), lambda g, v: g.g(8, 1, 0xD4D1 - (v & 1), v)),
            ("high", ("clock_time",), (), lambda g, v: g.g(8, g.r.choice([0, 1, 1]), v, g.r.randrange(65536) & 0xFFDF))],
    "C13": [("app", ("open_data_app",), (), lambda g, v: g.g(6, 22, g.r.randrange(65536) | 1, v)),
            ("msg", ("open_data_app",), (), lambda g, v: g.g(6, 22, v, 0x1234))],
    "C14": [("eon-%d" % n, ("other_network",), (), lambda g, v, n=n: g.g(28, n, v, 0x3001)) for n in (4, 5, 12, 13, 14, 15)],
    "C15": [("event", ("tmc/message.",), TMC_ON, lambda g, v: g.g(16, 8 | g.r.randrange(8), v, 0x1234)),
            ("field", ("tmc/message.",), TMC_ON, lambda g, v: [g.g(16, 1, 0x8000 | EV, 0x1234), g.g(16, 1, 0x4000 | v >> 4, (v & 15) << 12)])],
    "C16": [("sys", ("tmc",), (), lambda g, v: g.g(6, 16, v, 0xCD46)),
            ("loc", ("tmc",), TMC_ON, lambda g, v: g.g(16, 8, EV, v)),
            ("tune", ("tmc",), TMC_ON, lambda g, v: g.g(16, 0x10 | g.r.choice([4, 5, 6, 7, 8, 9]), v, g.r.choice([0, 0x4242])))],
    "C17": [("info", ("rft", "open_data_app"), (), lambda g, v: g.c(0x8000, 0xFF7F, v, 0x1234)),
            ("seg", ("rft",), (), lambda g, v: g.c(0x2000, v, 0x1234, 0x5678))],
    "C22": [("slc", SLC_KEYS, (), lambda g, v: g.g(2, 0, v, 0)),
            ("pin", SLC_KEYS, (), lambda g, v: g.g(3, 0, 0, v)),
            ("pin-a", SLC_KEYS, (), lambda g, v: g.g(2, 0, 0x2000, v)),
            ("pin-on", SLC_KEYS, (), lambda g, v: g.g(28, 14, v, 0x3001))],
    "C23": [("tdc", ("transparent_data",), (), lambda g, v: g.g(10, 30, v, 0x4142)),
            ("inhouse", ("in_house_data",), (), lambda g, v: g.g(12, v & 31, v, v ^ 0xFFFF)),
            ("dab", ("dab",), [(6, 24, 0, 0x0093)], lambda g, v: g.g(24, (v >> 14) << 2 | g.r.randrange(2), v, 0xE1C0)),
            ("tdc-b", ("transparent_data",), (), lambda g, v: g.g(11, v & 31, 0, v))],
}


def words(ctx, prop, size=1024):
    """all values of the words that the property's fields are taken from, in pieces and in random order"""
    pieces = [(w_, k) for w_ in WORDS.get(prop, ()) for k in range(0, 65536, size)]
    ctx.rng.shuffle(pieces)
    batch = []
    for (name, keys, before, mk), k in pieces:
        g = G(ctx.rng, ctx.rng.randrange(1, 65536))
        q = gen.preamble(g.pi) + [g.g(*x) for x in before]
        for v in range(k, k + size):
            x = mk(g, v)
            q += x if isinstance(x[0], list) else [x]
        batch.append(Scenario("words-%s-%04X" % (name, k), "groups", q, Opt(), keys=keys))
        if len(batch) == 24:
            yield batch
            batch = []
    if batch:
        yield batch


def repeat(segs, n):
    return [list(s) for _ in range(n) for s in segs]


# ---------------------------------------------------------------- clean transmissions of one item
def clean_ps(g, tc=0, name=None):
    name = name or g.text(8)
    return [g.g(tc, (g.r.randrange(8) << 2) | k, w(205, 205) if tc == 0 else g.pi, w(name[2 * k], name[2 * k + 1])) for k in range(4)]


def clean_rt(g, n=None, tc=4, ab=0, term=True):
    per = 4 if tc == 4 else 2
    full = per * 16
    n = n if n is not None else g.r.randrange(1, full)
    msg = [g.char("ascii") for _ in range(n)]
    if term and n < full:
        msg.append(13)
    msg += [32] * (-len(msg) % per)
    if tc == 4:
        return [g.g(4, (ab << 4) | k, w(msg[4 * k], msg[4 * k + 1]), w(msg[4 * k + 2], msg[4 * k + 3])) for k in range(len(msg) // 4)]
    return [g.g(5, (ab << 4) | k, None, w(msg[2 * k], msg[2 * k + 1])) for k in range(len(msg) // 2)]


def clean_ptyn(g, ab=0):
    n = g.text(8)
    return [g.g(20, (ab << 4) | k, w(n[4 * k], n[4 * k + 1]), w(n[4 * k + 2], n[4 * k + 3])) for k in range(2)]


def clean_longps(g, n=20):
    name = g.utf8(n, bad=0) + [13]
    name += [32] * (-len(name) % 4)
    return [g.g(30, k, w(name[4 * k], name[4 * k + 1]), w(name[4 * k + 2], name[4 * k + 3])) for k in range(len(name) // 4)]


def clean_eonps(g, on=None):
    on = g.w16() if on is None else on
    n = g.text(8)
    return [g.g(28, k, w(n[2 * k], n[2 * k + 1]), on) for k in range(4)]


def af_codes(g, codes, tc=0, on=None):
    if len(codes) % 2:
        codes = codes + [205]
    if tc == 28:
        return [g.g(28, 4, w(codes[i], codes[i + 1]), on) for i in range(0, len(codes), 2)]
    return [g.g(0, g.r.randrange(32), w(codes[i], codes[i + 1])) for i in range(0, len(codes), 2)]


def clean_af(g, method="a"):
    r = g.r
    if method == "a":
        n = r.choice([1, 2, 3, 4, 5, 6])
        return af_codes(g, [224 + n] + [r.randrange(1, 205) for _ in range(n)])
    k = r.choice([1, 2, 3])
    t, *oth = r.sample(range(1, 205), k + 1)
    c = [224 + 2 * k + 1, t]
    for o in oth:
        c += [t, o] if r.random() < .5 else [o, t]
    return af_codes(g, c)


def clean_sp(g):
    """TMC service provider name"""
    n = g.text(8)
    return [g.tmc_u(0x14 + k, w(n[4 * k], n[4 * k + 1]), w(n[4 * k + 2], n[4 * k + 3])) for k in range(2)]


def clean_rtplus(g, ert=False, ucs2=False):
    tc, etc = 22, 24
    out = [g.g(6, tc, 0, ERTP if ert else RTP)]
    if ert:
        out.append(g.g(6, etc, 0 if ucs2 else 1, ERT))
        m = g.ucs2(11, 0) + [0, 13] if ucs2 else g.utf8(22, bad=0) + [13]
        m += [0, 32] * (-len(m) % 4 // 2) if ucs2 else [32] * (-len(m) % 4)
        out += [g.g(etc, k, w(m[4 * k], m[4 * k + 1]), w(m[4 * k + 2], m[4 * k + 3])) for k in range(len(m) // 4)]
    else:
        out += clean_rt(g, 24)
    tag = g.g(tc, 0x08, 0x8000 | (2 << 7) | (5 << 1), (4 << 11) | (9 << 5) | 3)
    return out + [tag, list(tag)]


def tag_losses(ctx, batch, n, keys=("*",), opt=None):
    """tags on a full text, under every loss of the blocks that carry them"""
    for i in range(n):
        rng = ctx.rng
        g = G(rng)
        ert = i % 2
        q = [g.g(6, 22, 0, ERTP if ert else RTP)]
        if ert:
            m = [rng.randrange(33, 127) for _ in range(64)]
            q += [g.g(6, 24, 1, ERT)] + [g.g(24, k, w(m[4 * k], m[4 * k + 1]), w(m[4 * k + 2], m[4 * k + 3])) for k in range(16)]
            q.append(g.g(24, 16, w(13, 32), w(32, 32)))
        else:
            q += clean_rt(g, 64)
        for t in range(24):
            x = rtp_tag(g, 22, 0, 0, rng.randrange(1, 64), rng.choice([0, rng.randrange(40)]), rng.randrange(20),
                        rng.choice([rng.randrange(1, 64), rng.randrange(32, 64)]), rng.randrange(40), rng.randrange(20))
            mask = rng.choice([0, 4, 8, 8, 12, 1, 9])
            for k in range(4):
                if mask >> k & 1 and not (k == 1):
                    x[k] = None
            q.append(x)
        batch.append(Scenario("tagloss", "groups", gen.preamble(g.pi) + q, (opt or opt_plain)(rng), keys=keys))


def cprime_losses(ctx, batch, n):
    """block 3 with offset C' while block 2 is lost, and block 4 looking like the block 2 of any group"""
    for i in range(n):
        rng = ctx.rng
        g = G(rng)
        out = transmit(rng, gen.preamble(g.pi))
        for _ in range(40):
            tc = rng.choice([rng.randrange(32), 30, 30, 31, 31])
            b3 = rng.choice([g.pi, g.pi, w(rng.choice([13, 65]), rng.choice([13, 66])), rng.randrange(65536)])
            b4 = rng.choice([B2(tc, rng.choice([0, 0, rng.randrange(32)]), rng.randrange(2), rng.randrange(32)), B2(tc, 13, 0, 0), rng.randrange(65536)])
            ws = [bits.block(g.pi, 0), bits.block(B2(rng.choice([31, 30, rng.randrange(32)]), rng.randrange(32)), 1), bits.block(b3, rng.choice([2, 3, 3, 3])), bits.block(b4, 4)]
            for k in range(4):
                if rng.random() < (.7 if k == 1 else .06):
                    ws[k] ^= 0x15 << rng.randrange(20)
            for wd in ws:
                out += bits.word_bits(wd)
        batch.append(bit_scen("cprime", out, Opt(partial=rng.random() < .5, raw=rng.random() < .5, rbds=rng.random() < .3)))


def opt_plain(rng):
    return Opt()


def opt_partial(rng):
    return rand_opt(rng, partial=True)


# ---------------------------------------------------------------- bits
def err_word(rng, kind):
    if kind == "one":
        return 1 << rng.randrange(26)
    if kind == "two":
        return 3 << rng.randrange(25)
    if kind == "three":
        return 7 << rng.randrange(24)
    if kind == "gap":
        return 5 << rng.randrange(24)
    if kind == "pair":
        a, b = rng.sample(range(26), 2)
        return 1 << a | 1 << b
    return rng.randrange(1, 1 << 26)


def transmit(rng, groups, p=0.0, slips=0.0, kinds=("one", "two", "three", "gap", "pair", "rand"), lead=0, cut=0):
    out = [rng.randrange(2) for _ in range(lead)]
    for g in groups:
        for wd in bits.blocks_of(g):
            if rng.random() < p:
                wd ^= err_word(rng, rng.choice(kinds))
            out += bits.word_bits(wd)
            if slips and rng.random() < slips:
                if rng.random() < .5:
                    out.pop()
                else:
                    out.append(rng.randrange(2))
    if cut:
        out = out[:len(out) - cut]
    return out


def bit_scen(name, out, opt, keys=("*",), junk=None, rng=None):
    data = bits.ascii_bits(out)
    if junk:
        q = bytearray()
        for c in data:
            q.append(c)
            if rng.random() < junk:
                q += rng.choice([b"\n", b" ", b"2", b"x", b"\x00", b"\xff", b"\r\n", b"abc"])
        data = bytes(q)
    return Scenario(name, "bits", data, opt, keys=keys)


def feature_groups(ctx, feats, n):
    g = G(ctx.rng)
    gs = gen.preamble(g.pi)
    while len(gs) < n:
        gs += feat(g, ctx.rng.choice(feats))
    return (gs[:n])


def syndrome_errors():
    """for each of the 1024 syndromes, an error pattern of least weight"""
    best = {0: 0}
    layer = {0: 0}
    one = [bits_rem(1 << k) for k in range(26)]
    while len(best) < 1024:
        nxt = {}
        for s, e in layer.items():
            for k in range(26):
                if e >> k & 1:
                    continue
                s2, e2 = s ^ one[k], e | 1 << k
                if s2 not in best and s2 not in nxt:
                    nxt[s2] = e2
        best.update(nxt)
        layer = nxt
    return [best[s] for s in range(1024)]


def bits_rem(v):
    for k in range(25, 9, -1):
        if v >> k & 1:
            v ^= bits.GEN << (k - 10)
    return v


# ================================================================ recipes
def c01(ctx):
    rng = ctx.rng
    syn = syndrome_errors()
    for rnd in range(ctx.rounds(40)):
        batch = []
        # every syndrome at every kind of block: A B C C' D
        for fec in (True, False):
            cases = [(pos, cp, e) for e in syn[1:] for pos, cp in ((0, 0), (1, 0), (2, 0), (2, 1), (3, 1))]
            if not fec:
                cases = rng.sample(cases, 500)
            rng.shuffle(cases)
            for part in range(0, len(cases), 320):
                out = []
                pi = rng.randrange(65536)
                for k in range(4):
                    for wd in bits.blocks_of([pi, rng.randrange(65536), rng.randrange(65536), rng.randrange(65536)]):
                        out += bits.word_bits(wd)
                for pos, cp, e in cases[part:part + 320]:
                    b2 = (rng.randrange(65536) & ~0x800) | (cp << 11)
                    ws = bits.blocks_of([pi, b2, rng.randrange(65536), rng.randrange(65536)])
                    if rnd:        # other patterns with the same syndrome
                        for _ in range(rng.randrange(4)):
                            e ^= bits.block(rng.randrange(65536), 0) ^ bits.OFF[0]
                    ws[pos] ^= e
                    for wd in ws:
                        out += bits.word_bits(wd)
                batch.append(bit_scen("syn-%d" % part, out, Opt(hex=True, fec=fec)))
        # all errors of up to two bits and all bursts, several blocks of the group hit
        pats = [1 << a for a in range(26)] + [1 << a | 1 << b for a in range(26) for b in range(a)] + \
               [p << k for n in range(3, 7) for p in range(1 << (n - 1) | 1, 1 << n, 2) for k in range(27 - n)]
        rng.shuffle(pats)
        pats = pats[:600 if ctx.quick else 3000]
        out = []
        for i, e in enumerate(pats):
            g = [rng.randrange(65536) for _ in range(4)]
            ws = bits.blocks_of(g)
            ws[i % 4] ^= e
            if rng.random() < .3:
                ws[rng.randrange(4)] ^= rng.choice(pats)
            for wd in ws:
                out += bits.word_bits(wd)
        for fec in (True, True, False):
            batch.append(bit_scen("pat", out, Opt(hex=True, fec=fec)))
        # a block with another block's offset word, wrong offset plus errors
        out = []
        for _ in range(150):
            g = [rng.randrange(65536) for _ in range(4)]
            ws = bits.blocks_of(g)
            k = rng.randrange(4)
            if rng.random() < .6:
                ws[k] = bits.block(g[k], rng.randrange(5)) ^ (err_word(rng, rng.choice(["one", "two"])) if rng.random() < .6 else 0)
            for wd in ws:
                out += bits.word_bits(wd)
        batch.append(bit_scen("offs", out, Opt(hex=True)))
        batch.append(bit_scen("offs", out, Opt(hex=True, fec=False)))
        for i in range(12):
            gs = feature_groups(ctx, ["ps", "rt", "di", "slc"], 40)
            batch.append(bit_scen("feat", transmit(rng, gs, rng.choice([.05, .2, .4])), rand_opt(rng, streams=False, raw=True, fec=rng.random() < .7)))
        yield batch


def planted(rng, seq):
    """random bits with blocks of given offsets at given distances: seq = [(gap in bits, offset)]"""
    out = []
    for gap, off in seq:
        out += [rng.randrange(2) for _ in range(gap)]
        out += bits.word_bits(bits.block(rng.randrange(65536), off))
    return out


def c02(ctx):
    rng = ctx.rng
    H = lambda **k: Opt(hex=True, fec=rng.random() < .7, **k)
    for rnd in range(ctx.rounds(60)):
        batch = []
        for i in range(60):
            gs = feature_groups(ctx, ["ps", "rt", "di", "noise"], rng.choice([2, 5, 12, 25]))
            out = transmit(rng, gs, rng.choice([0, 0, .05, .2, .5, .8]), slips=rng.choice([0, 0, .005, .02]),
                           lead=rng.choice([0, 1, 5, 13, 25, 26, 27, 60, 200]), cut=rng.randrange(110))
            batch.append(bit_scen("mix", out, H(), junk=rng.choice([None, None, .02]), rng=rng))
        # acquisition: few blocks at chosen distances, in and out of order
        for i in range(90):
            seq = []
            order = [0, 1, rng.choice([2, 3]), 4]
            pos = rng.randrange(4)
            for k in range(rng.randrange(3, 9)):
                skip = rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7])
                pos = (pos + skip + 1) % 4
                off = order[pos] if rng.random() < .8 else rng.randrange(5)
                gap = 26 * skip + (rng.choice([-1, 1, 13]) if rng.random() < .12 and (skip or True) else 0)
                seq.append((max(0, gap), off))
            out = planted(rng, [(rng.choice([0, 3, 40]), order[0])] + seq)
            out += [rng.randrange(2) for _ in range(26 * rng.randrange(5))]
            batch.append(bit_scen("acq", out, H()))
        # loss: runs of bad blocks around the limit, then another phase
        for i in range(40):
            good = feature_groups(ctx, ["noise"], 16)
            out = transmit(rng, good)
            nbad = rng.choice([40, 41, 42, 43, 44, 45, 60, 100])
            mode = rng.choice(["run", "spread", "burst"])
            blocks = []
            if mode == "run":
                blocks = [0] * nbad
            elif mode == "spread":
                q = rng.choice([5, 6, 7, 8, 9, 10])
                blocks = [1 if k % q == 0 else 0 for k in range(120)]
            else:
                blocks = [1 if rng.random() < rng.choice([.1, .15, .2]) else 0 for _ in range(150)]
            k = 0
            for ok in blocks:
                off = [0, 1, 2, 4][k % 4]
                wd = bits.block(rng.randrange(65536), off)
                if not ok:
                    wd ^= err_word(rng, "rand") if rng.random() < .7 else err_word(rng, "one")
                out += bits.word_bits(wd)
                k += 1
            if rng.random() < .7:
                out += [rng.randrange(2) for _ in range(rng.choice([0, 1, 7, 26, 30]))]
            out += transmit(rng, feature_groups(ctx, ["noise"], rng.choice([3, 8])), cut=rng.randrange(104))
            batch.append(bit_scen("loss-" + mode, out, H()))
        # the end of the input at every bit of a group
        gs = feature_groups(ctx, ["noise"], 4)
        full = transmit(rng, gs)
        for cut in range(0, 105) if not ctx.quick else range(rnd % 3, 105, 3):
            batch.append(bit_scen("cut", full[:len(full) - cut] if cut else full, H()))
        # a late beginning: thousands of bits that are no blocks, then groups
        for i in range(3):
            n = rng.choice([256, 4096, 32768, 65536, 65536]) - rng.randrange(26, 160)
            out = [0] * n + transmit(rng, feature_groups(ctx, ["noise"], 6), rng.choice([0, .1]), cut=rng.randrange(104))
            batch.append(bit_scen("late", out, H()))
        # synchronisation lost and found again at each block of the same station, in JSON
        for i in range(16):
            g = G(rng)
            gs = gen.preamble(g.pi)
            while len(gs) < 20:
                gs += feat(g, rng.choice(["ps", "rt", "slc", "noise", "di", "tdc", "inhouse", "longps"]))
            gs = [x for x in gs if not (len(x) > 4 and x[4])]
            out = transmit(rng, gs[:10])
            for _ in range(rng.choice([44, 50, 57])):
                out += bits.word_bits(rng.randrange(1 << 26))
            back = transmit(rng, gs[10:])
            out += back[26 * (i % 4) + rng.choice([0, 0, rng.randrange(26)]):]
            batch.append(bit_scen("again", out, rand_opt(rng, streams=False, raw=True)))
        # JSON from bits
        for i in range(10):
            gs = feature_groups(ctx, ["ps", "rt", "di", "slc", "clock"], 30)
            batch.append(bit_scen("json", transmit(rng, gs, .1, .004, cut=rng.randrange(104)), rand_opt(rng, streams=False, raw=True)))
        yield batch


def pi_walk(ctx, length=80, bitmode=False):
    """groups of several stations with wrong and missing PI codes"""
    rng = ctx.rng
    pis = [rng.randrange(1, 65536) for _ in range(2)] + [rng.choice([0, 1, 0xFFFF])]
    if rng.random() < .2:
        pis[1] = pis[0] ^ (1 << rng.randrange(16))
    gen_ = {p: G(rng, p) for p in pis}
    queue = {p: [] for p in pis}
    feats = "ps rt af longps ptyn eon oda3a odagroups rtplus tdc dab tmc rft slc di".split()
    fav = rng.choice(feats)
    out = []
    cur = pis[0]
    while len(out) < length:
        x = rng.random()
        if x < .35:
            cur = rng.choice(pis)
        n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 8])
        for _ in range(n):
            while not queue[cur]:
                queue[cur] = feat(gen_[cur], fav if rng.random() < .6 else rng.choice(feats))
            g = list(queue[cur].pop(0))
            y = rng.random()
            if len(g) > 4 and g[4] and bitmode:
                continue
            if not (len(g) > 4 and g[4]):
                if y < .12:
                    g[0] = None
                elif y < .2:
                    g[0] = rng.choice(pis + [rng.randrange(65536)])
            out.append(g)
        if rng.random() < .15:
            for _ in range(rng.choice([1, 2, 3])):
                g = gen_[cur].noise()[0]
                g[0] = None
                if rng.random() < .3:
                    g = [None] * 4 + [0]
                out.append(g)
    return (out)


def c03(ctx):
    rng = ctx.rng
    for rnd in range(ctx.rounds(60)):
        batch = []
        for i in range(110):
            batch.append(Scenario("walk-%d" % i, "groups", pi_walk(ctx), rand_opt(rng, raw=True)))
        # all histories of PI codes of length 6 over {A, B, lost}, and of length 4 over {A, B, C, 0}
        hs = [[]]
        for _ in range(6):
            hs = [h + [x] for h in hs for x in (0x1111, 0x2222, None)]
        hs2 = [[]]
        for _ in range(5):
            hs2 = [h + [x] for h in hs2 for x in (0x1111, 0x2222, 0x3333, 0)]
        for pre in ([], [0x1111] * 3):
            for h in (rng.sample(hs, 200) if ctx.quick else hs) + (rng.sample(hs2, 150) if ctx.quick else hs2):
                name = G(rng).text(8)
                gs = []
                for k, p in enumerate(pre + h + [rng.choice([0x1111, 0x2222])] * 2):
                    gs.append([p, B2(0, k % 4, 0, 1), w(225, k + 1), w(name[2 * (k % 4)], name[2 * (k % 4) + 1]), 0])
                batch.append(Scenario("hist", "groups", gs, Opt(partial=True, raw=True)))
        for i in range(8):
            gs = pi_walk(ctx, 40, bitmode=True)
            gs = [[(x if x is not None else 0) for x in g] for g in gs]
            out = []
            for g in gs:
                ws = bits.blocks_of(g)
                if rng.random() < .2:
                    ws[0] ^= 0x155
                if (g[1] >> 11) & 1:
                    ws[2] = bits.block(g[0] if rng.random() < .8 else rng.randrange(65536), 3)
                for wd in ws:
                    out += bits.word_bits(wd)
            batch.append(bit_scen("bits", out, rand_opt(rng, streams=False, raw=True)))
        yield batch


def c04(ctx):
    rng = ctx.rng
    for rnd in range(ctx.rounds(60)):
        batch = []
        for i in range(60):
            gs = []
            for _ in range(60):
                g = [rng.choice([0, 1, 0xABCD, 0xFFFF, rng.randrange(65536)]) for _ in range(4)] + [rng.choice([0, 0, 0, 1, 2, 3])]
                for k in range(4):
                    if rng.random() < .25:
                        g[k] = None
                if rng.random() < .05:
                    g = [None] * 4 + [g[4]]
                gs.append(g)
            batch.append(Scenario("hex-%d" % i, "groups", gs, rand_opt(rng, hex=True)))
        for i in range(16):
            gs = feature_groups(ctx, ["ps", "rt", "noise", "slc"], 50)
            batch.append(bit_scen("bits", transmit(rng, gs, rng.choice([0, .1, .3]), lead=rng.choice([0, 7]), cut=rng.randrange(104)),
                                  Opt(hex=True, fec=rng.random() < .7, raw=rng.random() < .5, bler=rng.random() < .5)))
            lines = [l for g in gs for l in tef_lines(rng, g)]
            batch.append(Scenario("tef", "tef", lines, Opt(hex=True)))
        for i in range(24):
            batch += mixed(ctx, FEATS, 1, 60, opt=lambda r: Opt(hex=True, streams=True))
        yield batch
        # decoding the output again
        again = []
        for s in batch:
            if s.stdout is None or s.rc != 0:
                continue
            lines = s.stdout.split(b"\n")[:-1]
            again.append(Scenario("again-" + s.name, "hex", lines, Opt(hex=True)))
            if rng.random() < .35:
                again.append(Scenario("again-json-" + s.name, "hex", lines, Opt(raw=True, streams=rng.random() < .5)))
        for s in again:
            s.expect_same = None
        yield again


def hex_line(rng, g):
    bl = ["----" if b is None else "%04X" % b if rng.random() < .9 else rng.choice(["----", "12G4", "    ", "ZZZZ", "12-4", "-", "..", "%04x" % b, "0x12", "+123"])
          for b in g[:4]]
    l = rng.choice([" ", " ", "", "  "]).join(bl)
    y = rng.random()
    if y < .12:
        l = rng.choice(["#S1 ", "#S2 ", "#S3 ", "#S0 ", "#S4 ", "#s1 ", "#S1", "#S12 "]) + l
    elif y < .22:
        l += rng.choice([" @2020/01/01 10:00:00.00", " 1234", "  ", "\t", "\r", "1", " ABCD ABCD"])
    elif y < .34:
        l = l[:rng.randrange(len(l) + 1)]
    elif y < .38:
        l = " " + l
    elif y < .46:
        k = rng.randrange(len(l) + 1)
        l = l[:k] + rng.choice("g-#@ \tx\x80\xff/:G`") + l[k:]
    return l.replace("\n", "").encode("latin-1")


def tef_lines(rng, g, err=.4):
    out = []
    b1 = g[0] if g[0] is not None else 0
    if rng.random() < .1:
        out += [b"P%04X" % (rng.randrange(65536) if rng.random() < .5 else b1 ^ (1 << rng.randrange(16)))] * rng.choice([1, 1, 2])
    if rng.random() < .85:
        p = b"P%04X" % b1
        if rng.random() < .15:
            p = rng.choice([b"P", b"PXYZW", b"P%04X?" % b1, b"P%04x" % b1, b"P%04X\r" % b1])
        out.append(p)
    e = 0 if rng.random() > err else rng.choice([rng.randrange(256), 1 << rng.randrange(8), 0x3F ^ (1 << rng.randrange(6))])
    x = [v if v is not None else 0 for v in g]
    l = b"R%04X%04X%04X%02X" % (x[1], x[2], x[3], e)
    if rng.random() < .1:
        l += b"\r"
    if rng.random() < .1:
        l = b"R" + l[1:].lower()
    if rng.random() < .06:
        l = l[:rng.randrange(len(l) + 1)]
    out.append(l)
    if rng.random() < .1:
        out.append(rng.choice([b"", b"Ss30,0,0", b"X", b"T98500", b"R", b"r123"]))
    return out


def c05(ctx):
    rng = ctx.rng
    for rnd in range(ctx.rounds(60)):
        batch = []
        for i in range(80):
            gs = feature_groups(ctx, ["ps", "di", "rt", "slc", "clock", "noise", "af", "tdc"], 60)
            if i % 2:
                batch.append(Scenario("hex-%d" % i, "hex", [hex_line(rng, g) for g in gs],
                                      rand_opt(rng, hex=rng.random() < .6, raw=True, streams=rng.random() < .3)))
            else:
                batch.append(Scenario("tef-%d" % i, "tef", [l for g in gs for l in tef_lines(rng, g)],
                                      rand_opt(rng, hex=rng.random() < .6, raw=True, streams=False)))
        # every error byte
        g = [0x1234, 0x0408, 0xE0CD, 0x4142]
        batch.append(Scenario("tef-err", "tef", [l for e in range(256) for l in (b"P1234", b"R04%02XE0CD4142%02X" % (e & 31, e))],
                              Opt(hex=True)))
        # every character at every position of a line
        for c in ([c for c in range(256) if c != 10] if not ctx.quick else rng.sample([c for c in range(256) if c != 10], 90)):
            base = bytearray(b"1234 5678 9abc DEF0")
            ls = []
            for k in range(len(base)):
                q = bytearray(base)
                q[k] = c
                ls.append(bytes(q))
            batch.append(Scenario("hex-chr-%d" % c, "hex", ls, Opt(hex=True)))
        # every length of line
        batch.append(Scenario("hex-len", "hex", [(b"#S2 " if t else b"") + b"1234 5678 9ABC DEF0 12"[:n] for n in range(23) for t in (0, 1)],
                              Opt(hex=True)))
        batch.append(Scenario("hex-len2", "hex", [(b"#S3 " if t else b"") + b"123456789ABCDEF012"[:n] for n in range(19) for t in (0, 1)],
                              Opt(hex=True)))
        for i in range(14):
            gs = feature_groups(ctx, ["ps", "noise"], 8)
            batch.append(bit_scen("bits", transmit(rng, gs, lead=rng.randrange(30), cut=rng.randrange(60)), Opt(hex=True), junk=rng.choice([.02, .2, .6]), rng=rng))
        yield batch


def lost_content(ctx, batch, n):
    """lost blocks whose (wrong) content is there all the same: TEF error bits, uncorrectable bits"""
    rng = ctx.rng
    for i in range(n):
        gs = feature_groups(ctx, ["ps", "di", "rt", "slc", "clock", "af", "tdc", "eon", "dab", "rtplus", "ertplus", "longps", "ptyn", "tmc"], 60)
        gs = [g for g in gs if not (len(g) > 4 and g[4])]
        batch.append(Scenario("tef-%d" % i, "tef", [l for g in gs for l in tef_lines(rng, g, .5)], rand_opt(rng, streams=False, raw=True)))
        out = []
        for g in gs[:40]:
            ws = bits.blocks_of(g)
            for k in range(4):
                if rng.random() < .12:
                    ws[k] ^= rng.choice([0x15 << rng.randrange(20), rng.randrange(1, 1 << 26)])
            for wd in ws:
                out += bits.word_bits(wd)
        batch.append(bit_scen("bits-%d" % i, out, rand_opt(rng, streams=False, raw=True)))


def c06(ctx):
    rng = ctx.rng
    for rnd in range(ctx.rounds(40)):
        batch = []
        e = ctx.env()
        makers = [lambda g: repeat(clean_ps(g), 2), lambda g: repeat(clean_rt(g, 14), 2), lambda g: repeat(clean_ptyn(g), 2),
                  lambda g: repeat(clean_longps(g, 12), 2), lambda g: repeat(clean_eonps(g), 2), lambda g: clean_af(g, "a") + clean_af(g, "a"),
                  lambda g: clean_af(g, "b") + clean_af(g, "b"), lambda g: clean_rtplus(g), lambda g: clean_rtplus(g, True),
                  lambda g: g.clock(), lambda g: g.dab(), lambda g: g.slc(), lambda g: g.inhouse(), lambda g: g.di()]
        for m in makers:
            batch += one_loss(ctx, m, 1)
        batch += one_loss(ctx, lambda g: g.tmc_sys(v=0) + g.tmc_multi() + g.tmc_single(), 2, env=e)
        batch += one_loss(ctx, lambda g: g.rft_file(0, 20), 2)
        batch += sweep(ctx, [4, 8, 12, 1, 5, 9] if ctx.quick else range(1, 16))
        batch += mixed(ctx, FEATS, 60, 60)
        for s in batch[-60:]:
            s.items = s.items[:3] + (gen.lose(rng, s.items[3:], rng.choice([.1, .25])))
        lost_content(ctx, batch, 12)
        tag_losses(ctx, batch, 8)
        cprime_losses(ctx, batch, 12)
        yield batch


def c07(ctx):
    rng = ctx.rng
    keys = ("group", "tp", "prog_type", "ta", "is_music", "di")
    for rnd in range(ctx.rounds(20)):
        batch = []
        # every group type, programme type, flag
        for rbds in (False, True):
            for tc in range(32):
                pi = rng.randrange(1, 65536)
                gs = gen.preamble(pi)
                for pty in range(32):
                    b2 = B2(tc, rng.randrange(32), rng.randrange(2), pty)
                    g = [pi, b2, rng.randrange(65536), rng.randrange(65536), 0]
                    if rng.random() < .15:
                        g[rng.randrange(4)] = None
                    gs.append(g)
                batch.append(Scenario("type", "groups", (gs), Opt(rbds=rbds), keys=keys))
        for tc in (0, 1, 31):
            pi = rng.randrange(1, 65536)
            gs = gen.preamble(pi) + [[pi, B2(tc, low, tp, rng.randrange(32)), rng.randrange(65536), rng.randrange(65536), 0]
                                     for low in range(32) for tp in (0, 1)]
            batch.append(Scenario("flags", "groups", gs, Opt(), keys=keys))
            batch.append(Scenario("flags-lost", "groups", gs[:3] + gen.lose(rng, gs[3:], .2), Opt(), keys=keys))
        # from bits: version B with offset C or C', block 2 lost, version A with C'
        for i in range(40):
            pi = rng.randrange(1, 65536)
            out = transmit(rng, gen.preamble(pi))
            for _ in range(60):
                tc = rng.choice([rng.randrange(32), 31, 31, 0, 1, 15])
                b2 = B2(tc, rng.randrange(32), rng.randrange(2), rng.randrange(32))
                g = [pi, b2, rng.choice([pi, rng.randrange(65536)]), rng.choice([b2, rng.randrange(65536), B2(31, rng.randrange(32), 1, 3)])]
                ws = bits.blocks_of(g)
                if rng.random() < .25:
                    ws[2] = bits.block(g[2], rng.choice([2, 3]))
                for k in range(4):
                    if rng.random() < (.3 if k == 1 else .1):
                        ws[k] ^= rng.choice([0x15 << rng.randrange(20), 1 << rng.randrange(26), 3 << rng.randrange(25)])
                for wd in ws:
                    out += bits.word_bits(wd)
            batch.append(bit_scen("bits", out, Opt(rbds=rng.random() < .3, fec=rng.random() < .8), keys=keys))
        cprime_losses(ctx, batch, 10)
        yield batch


def char_sweep(ctx, kind):
    """all 256 character codes through a text"""
    rng = ctx.rng
    gs = []
    pi = rng.randrange(1, 65536)
    g = G(rng, pi)
    codes = list(range(256))
    for i in range(0, 256, 8):
        name = codes[i:i + 8]
        if kind == "ps":
            gs += repeat(clean_ps(g, name=name), 1)
        elif kind == "ptyn":
            gs += [g.g(20, k, w(name[4 * k], name[4 * k + 1]), w(name[4 * k + 2], name[4 * k + 3])) for k in range(2)]
        elif kind == "eon":
            gs += [g.g(28, k, w(name[2 * k], name[2 * k + 1]), 0x1234) for k in range(4)]
        elif kind == "rt":
            m = name + [13, 32, 32, 32]
            gs += [g.g(4, ((i // 8) % 2) << 4 | k, w(m[4 * k], m[4 * k + 1]), w(m[4 * k + 2], m[4 * k + 3])) for k in range(3)]
    return gen.preamble(pi) + gs


C08_KEYS = ("ps", "pty_name", "long_ps", "other_network/ps", "tmc/service_provider")


def c08(ctx):
    rng = ctx.rng
    for rnd in range(ctx.rounds(40)):
        batch = []
        def opt(r): return Opt(partial=r.random() < .3)
        batch += mixed(ctx, ["ps", "ps", "ptyn", "longps", "eon"], 90, 60, C08_KEYS, opt=opt)
        for kind in ("ps", "ptyn", "eon"):
            batch.append(Scenario("chars-" + kind, "groups", char_sweep(ctx, kind), Opt(), keys=C08_KEYS))
        batch += one_loss(ctx, lambda g: repeat(clean_ps(g), 2), 2, C08_KEYS, opt)
        batch += one_loss(ctx, lambda g: clean_ps(g) + clean_ps(g, 1), 1, C08_KEYS, opt)
        batch += one_loss(ctx, lambda g: repeat(clean_ptyn(g), 2) + clean_ptyn(g, 1), 1, C08_KEYS, opt)
        batch += one_loss(ctx, lambda g: repeat(clean_longps(g, rng.choice([3, 12, 31, 28])), 2), 2, C08_KEYS, opt)
        batch += one_loss(ctx, lambda g: repeat(clean_eonps(g), 2), 1, C08_KEYS, opt)
        batch += one_loss(ctx, lambda g: g.tmc_sys(v=0, enc=False) + repeat(clean_sp(g), 2), 1, C08_KEYS, opt)
        for i in range(40):                      # segments in random order
            g = G(rng)
            segs = rng.choice([clean_ps, clean_longps, clean_eonps, clean_ptyn])(g)
            other = rng.choice([clean_ps, clean_longps, clean_eonps, clean_ptyn])(g)
            seq = []
            k = 0
            for _ in range(30):
                seq.append(list(segs[k % len(segs)]))
                k = k + 1 if rng.random() < .8 else rng.randrange(len(segs))
                if rng.random() < .15:
                    seq.append(list(rng.choice(other)))
            batch.append(Scenario("order", "groups", gen.preamble(g.pi) + seq, opt(rng), keys=C08_KEYS))
        for i in range(8):                       # zeros, blanks and control codes in long PS
            g = G(rng)
            q = []
            for _ in range(6):
                n = rng.randrange(1, 33)
                nm = [rng.randrange(32, 127) for _ in range(n)]
                for _ in range(rng.choice([0, 1, 1, 2, 5])):
                    nm[rng.choice([0, n - 1, rng.randrange(n)])] = rng.choice([0, 0, 32, 1, 31, 127])
                nm += [13] if n < 32 else []
                nm += [32] * (-len(nm) % 4)
                q += repeat([g.g(30, k, w(nm[4 * k], nm[4 * k + 1]), w(nm[4 * k + 2], nm[4 * k + 3])) for k in range(len(nm) // 4)], 1)
            batch.append(Scenario("zeros", "groups", gen.preamble(g.pi) + q, opt(rng), keys=C08_KEYS))
        for i in range(30):                      # terminators everywhere, two networks at once
            g = G(rng)
            name = g.text(8)
            name[i % 8] = 13
            a, b = clean_eonps(g, 0x1111), clean_eonps(g, 0x2222)
            q = repeat(clean_ps(g, rng.choice([0, 1]), name), 2) + g.merge(repeat(a, 2), repeat(b, 2))
            nm = [g.r.randrange(33, 127) for _ in range(8)]
            nm[i % 8] = 13
            q += repeat([g.g(20, k, w(nm[4 * k], nm[4 * k + 1]), w(nm[4 * k + 2], nm[4 * k + 3])) for k in range(2)], 2)
            q += g.merge(g.tmc_sys(v=0, enc=False) + repeat(clean_sp(g), 2), repeat(clean_ptyn(g), 1))
            batch.append(Scenario("term", "groups", gen.preamble(g.pi) + q, opt(rng), keys=C08_KEYS))
        yield batch


def c09(ctx):
    rng = ctx.rng
    keys = ("radiotext",)
    for rnd in range(ctx.rounds(50)):
        batch = []
        def opt(r): return Opt(partial=r.random() < .3)
        batch += mixed(ctx, ["rt"], 90, 90, keys, opt=opt, extra=["ps", "di"])
        batch += one_loss(ctx, lambda g: repeat(clean_rt(g, rng.choice([3, 9, 14])), 2), 2, keys, opt)
        batch += one_loss(ctx, lambda g: repeat(clean_rt(g, 14, term=False), 4), 1, keys, opt)
        batch += one_loss(ctx, lambda g: repeat(clean_rt(g, 9, 5), 2), 1, keys, opt)
        batch += one_loss(ctx, lambda g: clean_rt(g, 64, 4), 1, keys, opt)
        batch += one_loss(ctx, lambda g: clean_rt(g, 32, 5), 1, keys, opt)
        batch.append(Scenario("chars", "groups", char_sweep(ctx, "rt"), Opt(), keys=keys))
        for i in range(60):                      # every length, with and without terminator, A/B changes at every point
            g = G(rng)
            tc = rng.choice([4, 4, 5])
            n1, n2 = (i % (64 if tc == 4 else 32)) + 1, rng.randrange(1, 20)
            a, b = clean_rt(g, n1, tc, 0, rng.random() < .6), clean_rt(g, n2, rng.choice([tc, tc, 4, 5]), 1, rng.random() < .6)
            cut = rng.randrange(len(a) + 1)
            q = repeat(a, rng.choice([1, 2, 3])) + a[:cut] + repeat(b, rng.choice([1, 3])) + a[cut:] + repeat(a, 1)
            q = [list(x) for x in q]
            if rng.random() < .3:
                q = gen.lose(rng, q, .03)
            batch.append(Scenario("ab", "groups", gen.preamble(g.pi) + q, opt(rng), keys=keys))
        for i in range(60):                      # 2A and 2B taking turns on one text
            g = G(rng)
            a, b = clean_rt(g, rng.choice([64, 64, rng.randrange(30, 64)]), 4), clean_rt(g, rng.choice([32, 32, rng.randrange(2, 32)]), 5)
            q = []
            for _ in range(3):
                k, m = rng.randrange(len(a) + 1), rng.randrange(len(b) + 1)
                q += a[rng.choice([0, 0, rng.randrange(len(a))]):k]
                x = rng.choice([0, 0, max(0, m - 2), rng.randrange(len(b))])
                q += b[x:rng.choice([m, x + 1])]
                q += a[max(0, k + rng.choice([-2, -1, -1, 0, 1])):rng.choice([len(a), len(a), rng.randrange(len(a) + 1)])]
                if rng.random() < .5:
                    q += b[rng.choice([m, max(0, m - 1)]):]
            batch.append(Scenario("turns", "groups", gen.preamble(g.pi) + [list(x) for x in q], opt(rng), keys=keys))
        for i in range(40):                      # unterminated text repeated with changes in one character
            g = G(rng)
            a = clean_rt(g, rng.choice([4, 8, 12, 16]), 4, 0, False)
            b = [list(x) for x in a]
            k = rng.randrange(len(b))
            b[k][rng.choice([2, 3])] ^= rng.choice([1, 0x100])
            seq = []
            for _ in range(6):
                seq += repeat(rng.choice([a, a, b]), 1)
            if rng.random() < .4:
                del seq[rng.randrange(len(seq))]
            batch.append(Scenario("unterm", "groups", gen.preamble(g.pi) + seq, opt(rng), keys=keys))
        yield batch


def rtp_tag(g, tc, tog, run, t1, s1, l1, t2, s2, l2):
    return g.g(tc, (tog << 4) | (run << 3) | (t1 >> 3), ((t1 & 7) << 13) | (s1 << 7) | (l1 << 1) | (t2 >> 5), ((t2 & 31) << 11) | (s2 << 5) | l2)


def c10(ctx):
    rng = ctx.rng
    keys = ("radiotext_plus", "ert_plus", "enhanced_radiotext", "open_data_app")
    for rnd in range(ctx.rounds(50)):
        batch = []
        def opt(r): return Opt(partial=r.random() < .2)
        batch += mixed(ctx, ["rtplus", "ertplus"], 70, 80, keys, opt=opt)
        tag_losses(ctx, batch, 8, keys, opt)
        batch += one_loss(ctx, lambda g: clean_rtplus(g), 1, keys, opt)
        batch += one_loss(ctx, lambda g: clean_rtplus(g, True), 1, keys, opt)
        batch += one_loss(ctx, lambda g: clean_rtplus(g, True, True), 1, keys, opt)
        for i in range(40):                      # start/length against texts of every length; all content types
            g = G(rng)
            ert = i % 2
            n = rng.choice([1, 2, 10, 31, 32, 63, 64, rng.randrange(1, 65)])
            tc, etc = 22, 24
            q = [g.g(6, tc, 0, ERTP if ert else RTP)]
            if ert:
                ucs2 = i % 4 == 3
                m = g.ucs2(n, 0) + [0, 13] * (n < 64) if ucs2 else g.utf8(n, bad=0) + [13]
                m += [0, 32] * (-len(m) % 4 // 2) if ucs2 else [32] * (-len(m) % 4)
                q += [g.g(6, etc, 0 if ucs2 else 1, ERT)] + [g.g(etc, k, w(m[4 * k], m[4 * k + 1]), w(m[4 * k + 2], m[4 * k + 3])) for k in range(len(m) // 4)]
            else:
                q += clean_rt(g, n)
            for t in range(32):
                s = rng.choice([0, 1, n - 1, n, n // 2, max(0, n - 2), rng.randrange(64)]) % 64
                l = rng.choice([0, 1, max(0, n - s - 1), max(0, n - s), max(0, n - s - 2)])
                q.append(rtp_tag(g, tc, 0, 0, (2 * t + i) % 64, s, l % 64, (2 * t + 1 + i) % 64, rng.randrange(64), rng.randrange(32)))
            batch.append(Scenario("slice", "groups", gen.preamble(g.pi) + q, opt(rng), keys=keys))
        for i in range(24):                      # eRT in UCS-2: every kind of character, encoding changed between and within texts
            g = G(rng)
            ucs2 = i % 3 != 0
            q = [g.g(6, 24, 0, ERTP), g.g(6, 26, int(not ucs2), ERT)]
            for _ in range(5):
                if rng.random() < .3:
                    ucs2 = not ucs2
                    q.append(g.g(6, 26, (rng.randrange(8) << 1) | int(not ucs2), ERT))
                m = g.ert_text(ucs2 if rng.random() < .9 else not ucs2, term=rng.random() < .8)
                t = [g.g(26, k, w(m[4 * k], m[4 * k + 1]), w(m[4 * k + 2], m[4 * k + 3])) for k in range(min(32, len(m) // 4))]
                k = rng.randrange(len(t) + 1) if rng.random() < .3 else len(t)
                q += t[:k]
                if rng.random() < .2:
                    q.append(g.g(6, 26, rng.randrange(2), ERT))
                    ucs2 = not q[-1][2] & 1
                q += t[k + (rng.random() < .1):]
                q += [rtp_tag(g, 24, 0, 0, rng.randrange(1, 64), rng.choice([0, rng.randrange(64)]), rng.randrange(20), 5, rng.randrange(4), rng.randrange(6)) for _ in range(2)]
            batch.append(Scenario("ucs2", "groups", gen.preamble(g.pi) + [list(x) for x in q], opt(rng), keys=keys))
        for i in range(8):                       # zeros, blanks and control codes in eRT
            g = G(rng)
            q = [g.g(6, 24, 0, ERTP), g.g(6, 26, 1, ERT)]
            for _ in range(4):
                n = rng.choice([rng.randrange(1, 40), 124, 127, 128])
                m = [rng.randrange(32, 127) for _ in range(n)]
                for _ in range(rng.choice([0, 1, 1, 2, 5])):
                    m[rng.choice([0, n - 1, rng.randrange(n)])] = rng.choice([0, 0, 32, 1, 31, 127])
                m += [13] if n < 128 else []
                m += [32] * (-len(m) % 4)
                q += repeat([g.g(26, k, w(m[4 * k], m[4 * k + 1]), w(m[4 * k + 2], m[4 * k + 3])) for k in range(len(m) // 4)], 1)
                q += [rtp_tag(g, 24, 0, 0, rng.randrange(1, 64), rng.choice([0, rng.randrange(64)]), rng.randrange(64), 5, rng.randrange(4), rng.randrange(6)) for _ in range(3)]
            batch.append(Scenario("zeros", "groups", gen.preamble(g.pi) + q, opt(rng), keys=keys))
        for i in range(10):                      # texts without terminator between tags, A/B changed when one begins again
            g = G(rng)
            q = [g.g(6, 22, 0, RTP)]
            ab = 0
            for _ in range(8):
                t = clean_rt(g, rng.choice([64, 64, rng.randrange(5, 40)]), 4, ab, rng.random() < .2)
                q += repeat(t, rng.choice([1, 2, 2, 3]))
                if rng.random() < .5:
                    u = clean_rt(g, rng.randrange(5, 40), 4, ab, False)
                    q += repeat(u, rng.choice([2, 3]))
                ab ^= rng.random() < .6
                q += clean_rt(g, rng.randrange(5, 64), 4, ab, False)[:rng.choice([1, 1, 2, 5])]
                q += [rtp_tag(g, 22, 0, 0, rng.randrange(1, 64), rng.randrange(5), rng.randrange(8), rng.randrange(1, 64), rng.randrange(30), rng.randrange(8))
                      for _ in range(2)]
            batch.append(Scenario("noterm", "groups", gen.preamble(g.pi) + [list(x) for x in q], opt(rng), keys=keys))
        for i in range(40):                      # toggles, running bit, A/B and new text between tags
            g = G(rng)
            q = [g.g(6, 22, 0, RTP), g.g(6, 24, 0, ERTP), g.g(6, 26, 1, ERT)]
            ab = 0
            tog = run = 0
            for _ in range(25):
                x = rng.random()
                if x < .25:
                    if rng.random() < .4:
                        ab ^= 1
                    t = clean_rt(g, rng.randrange(4, 20), rng.choice([4, 4, 5]), ab, rng.random() < .8)
                    q += t if rng.random() < .8 else t[:rng.randrange(len(t)) + 1]
                elif x < .35:
                    m = g.utf8(rng.randrange(4, 20), bad=0) + [13]
                    m += [32] * (-len(m) % 4)
                    t = [g.g(26, k, w(m[4 * k], m[4 * k + 1]), w(m[4 * k + 2], m[4 * k + 3])) for k in range(len(m) // 4)]
                    q += t if rng.random() < .8 else t[:rng.randrange(len(t)) + 1]
                else:
                    if rng.random() < .25:
                        tog ^= 1
                    if rng.random() < .15:
                        run ^= 1
                    q.append(rtp_tag(g, rng.choice([22, 22, 24]), tog, run, rng.randrange(64), rng.randrange(6), rng.randrange(8),
                                     rng.randrange(64), rng.randrange(10), rng.randrange(8)))
            batch.append(Scenario("toggle", "groups", gen.preamble(g.pi) + (q), opt(rng), keys=keys))
        yield batch


def c11(ctx):
    rng = ctx.rng
    keys = ("alt_frequencies_a", "alt_frequencies_b")
    for rnd in range(ctx.rounds(50)):
        batch = []
        def opt(r): return Opt(partial=r.random() < .2)
        batch += mixed(ctx, ["af"], 110, 80, keys, opt=opt, extra=["di"])
        batch += one_loss(ctx, lambda g: clean_af(g, "a") + clean_af(g, "a"), 2, keys, opt)
        batch += one_loss(ctx, lambda g: clean_af(g, "b") + clean_af(g, "b"), 3, keys, opt)
        # every code as a frequency, FM and LF/MF
        g = G(rng)
        q = []
        for c in range(256):
            q += af_codes(g, [225, c])
            q += af_codes(g, [226, 250, c, 7])
            q += af_codes(g, [225, 250, c, 205])
        batch.append(Scenario("codes", "groups", gen.preamble(g.pi) + q, Opt(), keys=keys))
        # every list length
        for m in "ab":
            q = []
            for n in range(1, 26):
                codes = rng.sample(range(1, 205), n)
                if m == "b" and n % 2 and n >= 3:
                    t = codes[0]
                    codes = [t]
                    for o in rng.sample([c for c in range(1, 205) if c != t], (n - 1) // 2):
                        codes += [t, o] if rng.random() < .5 else [o, t]
                q += af_codes(g, [224 + n] + codes)
                if rng.random() < .3:
                    q += af_codes(g, [224 + n] + codes[:-1])
            batch.append(Scenario("lens-" + m, "groups", gen.preamble(g.pi) + q, Opt(), keys=keys))
        # small alphabets: every kind of code at every place
        alpha = [225, 226, 227, 229, 1, 2, 204, 205, 224, 250, 0, 206, 10, 10, 10]
        for i in range(80):
            gg = G(rng)
            n = rng.choice([2, 3, 3, 5])
            f = rng.sample(range(1, 136), 3)
            q = []
            for _ in range(14):
                if rng.random() < .6:
                    t = f[0]
                    c = [224 + n] + [rng.choice(f) for _ in range(n)]
                    if rng.random() < .5 and n % 2:
                        c = [224 + n, t]
                        for _ in range(n // 2):
                            o = rng.choice(f)
                            c += [t, o] if rng.random() < .5 else [o, t]
                    if rng.random() < .3:
                        c.insert(rng.randrange(len(c) + 1), rng.choice(alpha))
                else:
                    c = [rng.choice(alpha) for _ in range(4)]
                q += af_codes(gg, c)
            if rng.random() < .4:
                q = gen.lose(rng, q, .08)
            batch.append(Scenario("alpha", "groups", gen.preamble(gg.pi) + q, opt(rng), keys=keys))
        # method B lists with fillers between, block 3 lost at any point
        for i in range(30):
            gg = G(rng)
            f = rng.sample(range(1, 205), 4)
            q = []
            for _ in range(12):
                n = rng.choice([3, 3, 5, 7])
                c = [224 + n, f[0]]
                for _ in range(n // 2):
                    o = rng.choice(f[1:])
                    c += ([f[0], o] if rng.random() < .5 else [o, f[0]]) if rng.random() < .9 else [o, rng.choice(f)]
                for _ in range(rng.choice([0, 1, 1, 2, 3])):
                    c.insert(rng.randrange(len(c) + 1), 205)
                q += [(x[0], x[1], None, x[3]) if rng.random() < .1 else x for x in af_codes(gg, c)]
                if rng.random() < .5:
                    q.insert(len(q) - rng.randrange(4), (gg.pi, rng.randrange(32), None, 0x2020))
            batch.append(Scenario("loseb", "groups", gen.preamble(gg.pi) + q, opt(rng), keys=keys))
        yield batch


def ct_group(g, mjd, h, m, sg, off):
    return g.g(8, (mjd >> 15) | (g.r.randrange(8) << 2), ((mjd & 0x7FFF) << 1) | (h >> 4), ((h & 15) << 12) | (m << 6) | (sg << 5) | off)


ZONES = ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Apia", "EST5EDT", "XXX-14", "XXX12", "Europe/Helsinki", "XXX3:30YYY,M3.2.0,M11.1.0"]


def c12(ctx):
    rng = ctx.rng
    keys = ("clock_time",)
    # firsts and lasts of months of all years
    import datetime
    d0 = datetime.date(1858, 11, 17)
    ends = []
    for y in range(1900, 2100):
        for mth in range(1, 13):
            d = (datetime.date(y, mth, 1) - d0).days
            ends += [d - 1, d]
    ends = [d for d in ends if d >= 15079] + [15078, 15079, 15080, 88127, 88126, 88125]
    times = [(h, m, sg, off) for h in (0, 1, 12, 22, 23, 24, 31) for m in (0, 29, 30, 59, 60, 63) for sg in (0, 1) for off in range(32)]
    for rnd in range(ctx.rounds(40)):
        batch = []
        def chunk(cases, name):
            for k in range(0, len(cases), 250):
                g = G(rng)
                s = Scenario(name, "groups", gen.preamble(g.pi) + [ct_group(g, *c) for c in cases[k:k + 250]], Opt(), keys=keys)
                s.procenv = {"TZ": rng.choice(ZONES)}
                batch.append(s)
        def t(): return rng.choice([0, 23, rng.randrange(24)]), rng.choice([0, 59, rng.randrange(60)]), rng.randrange(2), rng.choice([0, 0, 1, 2, 4, 23, 24, 28, rng.randrange(32)])
        chunk([(d, *t()) for d in ends], "months")
        chunk([(rng.choice([51543, 58849, 15079, 15080, 88127, rng.randrange(15079, 88128)]), *x) for x in (times if not ctx.quick else rng.sample(times, 1500))], "times")
        chunk([(rng.randrange(15079, 88128), *t()) for _ in range(2500)], "days")
        batch += mixed(ctx, ["clock"], 20, 60, keys)
        yield batch
    if not ctx.quick:
        for lo in range(15079, 88128, 20000):
            batch = []
            for k in range(lo, min(lo + 20000, 88128), 250):
                g = G(rng)
                s = Scenario("alldays", "groups", gen.preamble(g.pi) + [ct_group(g, d, rng.randrange(24), rng.randrange(60), rng.randrange(2), rng.randrange(29))
                                                                         for d in range(k, min(k + 250, 88128))], Opt(), keys=keys)
                s.procenv = {"TZ": rng.choice(ZONES)}
                batch.append(s)
            yield batch


C13_KEYS = ("open_data_app", "unknown_oda", "dab", "radiotext_plus", "ert_plus", "enhanced_radiotext", "tmc", "transparent_data", "in_house_data",
            "long_ps", "group", "ps", "radiotext", "clock_time", "pty_name", "other_network", "ta", "di", "is_music", "has_linkage", "prog_item_number")


def c13(ctx):
    rng = ctx.rng
    apps = [RTP, ERTP, ERT, DAB, TMC, TMC2, 0x4AA1, 0x1234, 0]
    names = [int(k) for k in ctx.T["app"]]
    for rnd in range(ctx.rounds(40)):
        batch = []
        g = G(rng)
        q = [g.g(6, rng.randrange(32), g.w16() | 1, a) for a in names + [a ^ 1 for a in names[:40]] + [rng.randrange(65536) for _ in range(40)]]
        batch.append(Scenario("apps", "groups", gen.preamble(g.pi) + (q), Opt(), keys=C13_KEYS))
        for tc in range(32):
            for _ in range(2 if ctx.quick else 4):
                g = G(rng)
                q = []
                for _ in range(3):
                    q += [g.g(tc, rng.randrange(32)) for _ in range(2)]
                    q += [g.g(6, tc, g.w16() | 1, rng.choice(apps))]
                    if rng.random() < .3:
                        q += [g.g(6, rng.randrange(32), g.w16() | 1, rng.choice(apps))]
                    q += [g.g(tc, rng.randrange(32)) for _ in range(2)]
                    q += [g.g(tc ^ 1, rng.randrange(32))]
                if rng.random() < .3:
                    q = gen.lose(rng, q, .1)
                batch.append(Scenario("assign-%d" % tc, "groups", gen.preamble(g.pi) + (q), Opt(), keys=C13_KEYS))
        for i in range(70):
            g = G(rng)
            q = []
            codes = rng.sample(range(32), 4) + [22, 11]
            for _ in range(30):
                q += g.oda3a(codes, apps) if rng.random() < .3 else g.odagroups(codes)
            if rng.random() < .4:
                q = gen.lose(rng, q, .08)
            batch.append(Scenario("mix-%d" % i, "groups", gen.preamble(g.pi) + (q), Opt(), keys=C13_KEYS))
        yield batch


def c14(ctx):
    rng = ctx.rng
    keys = ("other_network",)
    for rnd in range(ctx.rounds(40)):
        batch = mixed(ctx, ["eon"], 130, 90, keys)
        batch += one_loss(ctx, lambda g: g.merge(repeat(clean_eonps(g, 0x1111), 2), clean_eonps(g, 0x2222)), 1, keys)
        batch += one_loss(ctx, lambda g: af_codes(g, [228, 1, 2, 3, 4], 28, 0x4444), 1, keys)
        for v in range(16):
            g = G(rng)
            vals = [0, 1, 0x8000, 0x7FFF, 0xFFFF, 0x0FFF, 0x8FFF, 0x9000] + [rng.randrange(65536) for _ in range(30)] + [1 << k for k in range(16)]
            if 5 <= v <= 9:
                vals = [(rng.randrange(256) << 8) | c for c in range(256)]
            if v == 14:
                vals += [(d << 11) | (h << 6) | m for d in (0, 1, 31) for h in (0, 23, 24, 25, 31) for m in (0, 59, 60, 63)]
            if v == 13:
                vals += [p << 11 | ta for p in range(32) for ta in (0, 1)]
            q = [g.g(28, (rng.randrange(2) << 4) | v, x, rng.choice([0x1111, 0xFFFF, 0])) for x in vals]
            batch.append(Scenario("variant-%d" % v, "groups", gen.preamble(g.pi) + q, Opt(rbds=rng.random() < .4), keys=keys))
        g = G(rng)
        batch.append(Scenario("14B", "groups", gen.preamble(g.pi) + [g.g(29, k, g.w16(), g.w16()) for k in range(32) for _ in range(2)], Opt(), keys=keys))
        for i in range(30):                     # several networks at once: names and lists interleaved
            g = G(rng)
            ons = [rng.randrange(65536) for _ in range(rng.choice([2, 3, 6, 6, 12, 40]) if i % 10 else 20)]
            if rng.random() < .3:
                ons[1] = ons[0] ^ 0x100
            qs = []
            for on in ons:
                n = rng.randrange(1, 6)
                qs.append(repeat(clean_eonps(g, on), 2) + af_codes(g, [224 + n] + [rng.randrange(1, 205) for _ in range(n)], 28, on) + repeat(clean_eonps(g, on), 1))
            batch.append(Scenario("inter", "groups", gen.preamble(g.pi) + g.merge(*qs), Opt(), keys=keys))
        # a network that continues where a similar one stopped
        for k in range(5):
            g = G(rng)
            base, q = rng.randrange(65536), []
            for bit in rng.sample(range(16), 16):
                a, b = base ^ (rng.randrange(1 << 16) & ~(1 << bit)), 0
                b = a ^ (1 << bit)
                a, b = (a, b) if rng.random() < .8 else (g.pi, g.pi ^ (1 << bit))
                q += clean_eonps(g, a)[:k] + clean_eonps(g, b)[rng.choice([0, k, k, k]) if k < 4 else rng.randrange(1, 4):]
                l = af_codes(g, [228, 1, 2, 3, 4, 205], 28, a)
                q += l[:k % 3 + 1] + [x[:3] + [b] + x[4:] for x in l[k % 3 + (rng.random() < .7):]]
            batch.append(Scenario("similar", "groups", gen.preamble(g.pi) + q, Opt(), keys=keys))
        g = G(rng)                              # very many networks, one segment of each in turn
        ons = rng.sample(range(65536), 300)
        cols = [clean_eonps(g, on) for on in ons]
        lists = [af_codes(g, [226, rng.randrange(1, 205), rng.randrange(1, 205), 205], 28, on) for on in ons]
        q = [c[k] for k in range(4) for c in cols] + [l[k] for k in range(2) for l in lists]
        batch.append(Scenario("many", "groups", gen.preamble(g.pi) + q, Opt(), keys=keys))
        yield batch


C15_KEYS = ("tmc/message.",)


def tmc_parts(g, ci, y0, loc, bitlist, parts):
    gs = [g.tmc_u(ci, y0, loc)]
    for k in range(1, parts):
        v = 0
        for b in bitlist[28 * (k - 1):28 * k]:
            v = 2 * v + b
        gs.append(g.tmc_u(ci, ((1 if k == 1 else 0) << 14) | ((parts - 1 - k) << 12) | (v >> 16), v & 0xFFFF))
    return gs


def fields(*fs):
    sizes = [3, 3, 5, 5, 5, 8, 8, 8, 8, 11, 16, 16, 16, 16, 0, 0]
    out = []
    for lab, v in fs:
        for val, n in ((lab, 4), (v, sizes[lab])):
            out += [(val >> (n - 1 - k)) & 1 for k in range(n)]
    return out


def msg(g, *fs, ev=None, ext=None, ci=None, loc=None):
    b = fields(*fs)
    parts = max(2, 1 + (len(b) + 27) // 28)
    b += [0] * (28 * (parts - 1) - len(b))
    y0 = 0x8000 | (g.r.randrange(2) << 14) | ((g.r.randrange(8) if ext is None else ext) << 11) | (g.event() if ev is None else ev)
    return tmc_parts(g, g.r.randrange(1, 7) if ci is None else ci, y0, g.loc() if loc is None else loc, b, parts)


def c15(ctx):
    rng = ctx.rng
    evs = [int(k) for k in ctx.T["event"]]
    quant = [int(k) for k, v in ctx.T["event"].items() if v.get("q")]
    for rnd in range(ctx.rounds(40)):
        batch = []
        for i in range(70):
            g = G(rng)
            q = g.tmc_sys(v=0, enc=False)
            while len(q) < 70:
                q += g.tmc(3)
            if rng.random() < .5:
                q = gen.lose(rng, q, rng.choice([.02, .06]))
            batch.append(Scenario("tmc-%d" % i, "groups", gen.preamble(g.pi) + q, Opt(), keys=C15_KEYS))
        # every event (some rounds: a sample)
        es = evs + rng.sample([e for e in range(2048) if e not in evs], 60)
        rng.shuffle(es)
        for k in range(0, len(es), 200):
            g = G(rng)
            g.tmctc = 16
            q = g.tmc_sys(v=0, enc=False)
            for e in es[k:k + 200]:
                q.append(g.tmc_u(8 | rng.randrange(8), (rng.randrange(4) << 14) | (rng.randrange(8) << 11) | e, rng.randrange(65536)))
            batch.append(Scenario("events", "groups", gen.preamble(g.pi) + q, Opt(), keys=C15_KEYS))
        # quantified events with every quantifier
        g = G(rng)
        q = g.tmc_sys(v=0, enc=False)
        types = {}
        for e in quant:
            types.setdefault(ctx.T["event"][str(e)]["qt"], []).append(e)
        for ty, es in sorted(types.items()):
            for lab, rngv in ((4, 32), (5, 256)):
                for v in (range(rngv) if rngv == 32 or not ctx.quick else sorted(rng.sample(range(256), 70) + [0, 1, 100, 101, 204, 205, 255])):
                    q += msg(g, (lab, v), ev=rng.choice(es))
        for k in range(0, len(q), 300):
            batch.append(Scenario("quant", "groups", gen.preamble(g.pi) + (g.tmc_sys(v=0, enc=False) if k else []) + q[k:k + 300], Opt(), keys=C15_KEYS))
        # every value of every other field
        q = []
        for lab, n in ((1, 8), (2, 32), (3, 32), (6, 256), (7, 256), (8, 256), (10, 64), (13, 64), (11, 16), (12, 16), (14, 1), (0, 8)):
            for v in range(n):
                q += msg(g, (lab, v if n < 64 or n == 256 else rng.randrange(65536)), *([(rng.choice([1, 6, 3]), rng.randrange(8))] if rng.random() < .3 else []))
                if lab == 1:
                    for u in range(8):
                        q += msg(g, (1, v), (1, u))
        for k in range(0, len(q), 300):
            batch.append(Scenario("fields", "groups", gen.preamble(g.pi) + g.tmc_sys(v=0, enc=False) + q[k:k + 300], Opt(), keys=C15_KEYS))
        # parts lost, repeated, mixed with another continuity index
        batch += one_loss(ctx, lambda g: g.tmc_sys(v=0, enc=False) + msg(g, (9, 5), (6, 3), (8, 100), (4, 3), (3, 9), (10, 777)) + g.tmc_single(), 2, C15_KEYS, opt_plain)
        for i in range(60):
            g = G(rng)
            q = g.tmc_sys(v=0, enc=False)
            for _ in range(6):
                c1 = rng.randrange(1, 7) if i % 4 else 0
                c2 = c1 if rng.random() < .25 or not i % 4 else rng.randrange(1, 7)
                a = msg(g, *[(rng.choice([1, 3, 6, 7, 8, 9, 4, 5]), rng.randrange(1, 200) % (8 if 0 else 256)) for _ in range(0)], *rand_fields(rng, g), ci=c1)
                b = msg(g, *rand_fields(rng, g), ci=c2)
                x = rng.random()
                if x < .2:
                    # a message whose first part is lost, then one that lacks other parts
                    q += a[1:] + b[:1] + [y for y in b[1:-1] if rng.random() < .5] + b[-1:] + a[:rng.randrange(2)] + b[1:]
                elif x < .4:
                    q += g.merge(a, b)
                elif x < .6:
                    k = rng.randrange(len(a))
                    q += a[:k] + b + a[k:]
                elif x < .8:
                    k = rng.randrange(len(a))
                    q += a[:k + 1] + a[k:] + b
                else:
                    q += a[:rng.randrange(len(a))] + b + a
            batch.append(Scenario("parts", "groups", gen.preamble(g.pi) + q, Opt(), keys=C15_KEYS))
        # several quantified events in a message, all parts filled up
        bysize = {5: [], 8: []}
        for e in quant:
            bysize[5 if ctx.T["event"][str(e)]["qt"] <= 5 else 8].append(e)
        SZ = [3, 3, 5, 5, 5, 8, 8, 8, 8, 11, 16, 16, 16, 16, 0, 0]
        for i in range(12):
            g = G(rng)
            q = g.tmc_sys(v=0, enc=False)
            for _ in range(14):
                z = rng.choice([5, 8])
                ev = rng.choice(bysize[z])
                fs, room = [], 112
                while True:
                    lab = rng.choice([4, 5, 9, 9, 9, 4, 5, 6, 1, 2, 3, 7, 8, 10, 14]) if fs or rng.random() < .3 else (4 if z == 5 else 5)
                    if room < 4 + SZ[lab]:
                        break
                    if lab == 9:
                        z = rng.choice([5, 8])
                        fs.append((9, rng.choice(bysize[z])))
                        room -= 15
                        lab = 4 if (z == 5) == (rng.random() < .85) else 5
                        if room < 4 + SZ[lab] or rng.random() < .2:
                            continue
                    fs.append((lab, rng.randrange(1 << SZ[lab])))
                    room -= 4 + SZ[lab]
                q += msg(g, *fs, ev=ev)
            batch.append(Scenario("full", "groups", gen.preamble(g.pi) + q, Opt(), keys=C15_KEYS))
        # before the service is announced, encrypted without encryption id
        for i in range(16):
            g = G(rng)
            g.tmctc = 16
            q = g.tmc_single() + g.tmc_multi() + g.tmc_sys(v=rng.randrange(1, 4)) + g.tmc_single() + g.tmc_sys(v=0, enc=rng.random() < .7) + \
                g.tmc_single() + g.tmc_multi() + g.tmc_enc() + g.tmc_single() + g.tmc_multi() + g.tmc_sys(v=0) + g.tmc_single()
            batch.append(Scenario("start", "groups", gen.preamble(g.pi) + q, Opt(), keys=C15_KEYS))
        yield batch


def rand_fields(rng, g):
    out = []
    for _ in range(rng.randrange(1, 5)):
        lab = rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14])
        sizes = [3, 3, 5, 5, 5, 8, 8, 8, 8, 11, 16, 16, 16, 16, 0, 0]
        out.append((lab, g.event() if lab == 9 else rng.randrange(1 << sizes[lab])))
    return out


def c16(ctx):
    rng = ctx.rng
    keys = ("tmc", "location_table_info")
    ctx.env()
    ctx._envs += [envs.make(rng, ntables=1, enc0=x) for x in envs.ENCODINGS + ([] if ctx.quick else 2 * envs.ENCODINGS)]
    for rnd in range(ctx.rounds(30)):
        batch = []
        for i in range(70):
            g = G(rng)
            e = ctx.env()
            use_env(g, e)
            q = []
            ltn = rng.choice([t["ltn"] for t in e.tables] or [5])
            for _ in range(8):
                x = rng.random()
                if x < .25:
                    g.tmctc = getattr(g, "tmctc", 16)
                    q += [g.g(6, g.tmctc, (ltn << 6) | rng.randrange(16) | (rng.randrange(2) << 5), TMC)]
                elif x < .4:
                    q += g.tmc_sys(v=0, enc=True) + g.tmc_enc()
                elif x < .5:
                    q += g.tmc_tuning()
                elif x < .6:
                    q += g.tmc_sys()
                else:
                    q += g.tmc_single() + g.tmc_single() + g.tmc_multi()
            if rng.random() < .3:
                q = gen.lose(rng, q, .04)
            batch.append(Scenario("tmc-%d" % i, "groups", gen.preamble(g.pi) + q, Opt(), env=e, keys=keys))
        # every point, both directions, every extent
        for e in ctx._envs:
            for t in e.tables:
                g = G(rng)
                use_env(g, e)
                q = [g.g(6, 16, (t["ltn"] << 6), TMC)]
                for p in t["points"]:
                    for d in (0, 1):
                        for ext in ([0, 1, 7] if ctx.quick else range(8)):
                            q.append(g.tmc_u(8, (d << 14) | (ext << 11) | 101, p[1]))
                batch.append(Scenario("points", "groups", gen.preamble(g.pi) + q, Opt(), env=e, keys=keys))
            # every encryption id
            g = G(rng)
            q = [g.g(6, 16, 0, TMC)]
            for k in range(32):
                q.append(g.tmc_u(0, (rng.randrange(64) << 5) | k, rng.choice([t["ltn"] for t in e.tables] + [9]) << 10))
                q += [g.tmc_u(8, 101, rng.choice([0, 1, 0xFFFF, rng.randrange(65536)])) for _ in range(3)]
            batch.append(Scenario("keys", "groups", gen.preamble(g.pi) + q, Opt(), env=e, keys=keys))
        # system and tuning information
        g = G(rng)
        q = []
        for m in [rng.randrange(65536) for _ in range(200)]:
            q.append(g.g(6, 16, m, rng.choice([TMC, TMC2])))
        for v in range(16):
            q += [g.tmc_u(0x10 | v, rng.choice([0, rng.randrange(65536)]), rng.choice([0, rng.randrange(65536)])) for _ in range(8)]
        for c in range(256):
            q.append(g.tmc_u(0x16, w(c, rng.randrange(256)), 0x4242))
        for ecc in range(256):
            q.append(g.g(6, 16, 0x4000 | rng.randrange(0x4000), TMC))
            q.append(g.g(6, 16, 0x8000 | (rng.randrange(64) << 8) | ecc, TMC))
        for k in range(0, len(q), 300):
            batch.append(Scenario("info", "groups", gen.preamble(g.pi) + [g.g(6, 16, 0x0440, TMC)] + q[k:k + 300], Opt(), keys=keys))
        yield batch


def c17(ctx):
    rng = ctx.rng
    keys = ("rft", "open_data_app")
    for rnd in range(ctx.rounds(40)):
        batch = mixed(ctx, ["rft"], 90, 80, keys, loss=False, extra=["typec", "ps"])
        batch += one_loss(ctx, lambda g: g.rft_file(3, 20) + g.rft_file(3, 20), 3, keys)
        for i in range(50):             # small files: toggles, orders, repetitions, changing sizes, neighbouring pipes
            g = G(rng)
            q = []
            pipes = rng.sample(range(16), 2)
            tog = {p: 0 for p in pipes}
            size = {p: rng.randrange(1, 16) for p in pipes}
            for _ in range(60):
                p = rng.choice(pipes)
                x = rng.random()
                if x < .08:
                    size[p] = rng.choice([0, 1, 5, 6, 10, 11, 15, 16, 163840, 163841, 200000])
                    q.append(g.rft_size(p, size[p]))
                elif x < .14:
                    tog[p] ^= 1
                else:
                    n = max(1, min(4, (size[p] + 4) // 5))
                    a = rng.randrange(n) if rng.random() < .93 else rng.choice([n, n + 1, 32767])
                    q.append(g.rft_seg(p, tog[p], a, [rng.randrange(256) for _ in range(5)]))
            if rng.random() < .3:
                q = gen.lose(rng, q, .03)
            batch.append(Scenario("small-%d" % i, "groups", gen.preamble(g.pi) + q, Opt(streams=rng.random() < .5), keys=keys))
        for n in ([1000, 4999, 163840] if ctx.quick else [1000, 4999, 20000, 163840]):       # large files
            if n > 30000 and rnd:
                continue
            g = G(rng)
            data = [rng.randrange(256) for _ in range(n)]
            segs = [g.rft_seg(9, 1, a, (data[5 * a:5 * a + 5] + [0] * 5)[:5]) for a in range((n + 4) // 5)]
            if rng.random() < .5:
                rng.shuffle(segs)
            batch.append(Scenario("large-%d" % n, "groups", gen.preamble(g.pi) + [g.rft_size(9, n)] + segs, Opt(), keys=keys))
        for i in range(25):             # file and CRC information, all variants
            g = G(rng)
            q = g.typec() + g.typec() + [g.c(0x8000 | rng.randrange(64), rng.randrange(65536), (v << 12) | rng.randrange(4096), rng.randrange(65536))
                                         for v in range(16) for _ in range(2)]
            batch.append(Scenario("info-%d" % i, "groups", gen.preamble(g.pi) + q, Opt(), keys=keys))
        for i in range(6):              # application names of pipes and of other channels
            g = G(rng)
            q = []
            for _ in range(70):
                p = rng.randrange(16)
                if rng.random() < .5:
                    q.append(g.c(0x8000 | rng.choice([p, 16 + p, 32 + p, 48 + p]), rng.choice([0x4BD7, 0x6552, 0xFF7F, 0xFF80, 0xFF81, 0xCD46, g.w16()]),
                                 rng.choice([0, 1, 2, 8]) << 12 | rng.randrange(4096), g.w16()))
                else:
                    q.append(g.rft_seg(p, 0, rng.randrange(8), [rng.randrange(256) for _ in range(5)]))
            batch.append(Scenario("names-%d" % i, "groups", gen.preamble(g.pi) + q, Opt(), keys=keys))
        yield batch


def c18(ctx):
    rng = ctx.rng
    keys = ("bler",)
    for rnd in range(ctx.rounds(40)):
        batch = []
        for i in range(60):
            gs = feature_groups(ctx, FEATS, 60)
            p = rng.choice([0, .02, .1, .3, .6, .9])
            gs = gen.lose(rng, gs, p)
            if rng.random() < .4:
                k = rng.randrange(len(gs))
                other = rng.randrange(65536)
                for g in gs[k:]:
                    if g[0] is not None and not (len(g) > 4 and g[4]):
                        g[0] = other
            s = Scenario("hex-%d" % i, "groups", (gs), rand_opt(rng, bler=True), keys=keys)
            batch.append(s)
        for i in range(50):
            gs = feature_groups(ctx, ["ps", "rt", "noise", "di"], 40)
            out = transmit(rng, gs, rng.choice([0, .02, .1, .3, .6]), cut=rng.randrange(104))
            for fec in (True, False):
                batch.append(bit_scen("bits-%d" % i, out, rand_opt(rng, streams=False, bler=True, fec=fec), keys=keys))
        for i in range(20):
            gs = feature_groups(ctx, ["ps", "rt", "noise"], 50)
            batch.append(Scenario("tef", "tef", [l for g in gs for l in tef_lines(rng, g)], rand_opt(rng, streams=False, bler=True), keys=keys))
        # every sum of errors: 0..48 bad blocks among the last 12 groups, at each age
        for i in range(20):
            pi = rng.randrange(1, 65536)
            gs = gen.preamble(pi)
            for _ in range(80):
                g = [pi, 0x0408, 0xCDCD, 0x2020, 0]
                for k in rng.sample([1, 2, 3], rng.choice([0, 0, 1, 2, 3])):
                    g[k] = None
                if rng.random() < .2:
                    g = [None] * 4 + [0]
                gs.append(g)
            batch.append(Scenario("sums", "groups", gs, Opt(bler=True), keys=keys))
        yield batch


def c22(ctx):
    rng = ctx.rng
    keys = ("has_linkage", "country", "tmc_id", "language", "slc_broadcaster_bits", "ews", "prog_item_number", "prog_item_started",
            "other_network/prog_item")
    for rnd in range(ctx.rounds(30)):
        batch = mixed(ctx, ["slc"], 40, 60, keys)
        for cc in range(16):                        # every country code with every ECC
            pi = (cc << 12) | rng.randrange(1, 4096)
            g = G(rng, pi)
            q = [g.g(2, rng.randrange(32), (rng.randrange(2) << 15) | (rng.randrange(16) << 8) & 0xF00 | ecc, 0) for ecc in range(256)]
            batch.append(Scenario("ecc", "groups", gen.preamble(pi) + q, Opt(), keys=keys))
        g = G(rng)
        q = [g.g(2, 0, 0x3000 | (rng.randrange(16) << 8) | l, 0) for l in range(256)]
        for v in range(8):
            q += [g.g(2, 0, (la << 15) | (v << 12) | rng.choice([0, 1, 0x7FF, 0x800, 0xFFF, rng.randrange(4096)]), 0) for la in (0, 1) for _ in range(12)]
        batch.append(Scenario("variants", "groups", gen.preamble(g.pi) + q, Opt(), keys=keys))
        pins = [(d << 11) | (h << 6) | m for d in range(32) for h in (0, 1, 12, 23, 24, 25, 31) for m in (0, 1, 59, 60, 63)]
        pins += [rng.randrange(65536) for _ in range(300)]
        for k in range(0, len(pins), 350):
            q = []
            for p in pins[k:k + 350]:
                q.append(g.g(rng.choice([2, 3]), rng.randrange(32), rng.randrange(65536), p))
                if rng.random() < .3:
                    q.append(g.g(28, 14, p, 0x4321))
            if rng.random() < .5:
                q = gen.lose(rng, q, .05)
            batch.append(Scenario("pin", "groups", gen.preamble(g.pi) + q, Opt(), keys=keys))
        batch += one_loss(ctx, lambda g: g.slc() + g.slc(), 2, keys)
        yield batch


def c23(ctx):
    rng = ctx.rng
    keys = ("transparent_data", "in_house_data", "dab")
    chans = [int(k) for k in ctx.T["dab"]]
    for rnd in range(ctx.rounds(30)):
        batch = mixed(ctx, ["tdc", "tdc", "inhouse", "dab"], 70, 90, keys)
        batch += one_loss(ctx, lambda g: g.dab() + g.inhouse(), 2, keys)
        g = G(rng)
        data = [g.char() for _ in range(128)]
        data = [c if c != 13 else 65 for c in data]
        full = [g.g(10, k, w(data[4 * k], data[4 * k + 1]), w(data[4 * k + 2], data[4 * k + 3])) for k in range(32)]
        batch.append(Scenario("full", "groups", gen.preamble(g.pi) + full + full, Opt(), keys=keys))
        for k in range(0, 32, 1):
            q = [list(x) for x in full]
            x = rng.random()
            if x < .3:
                q[k][rng.choice([2, 3])] = None
            elif x < .5:
                del q[k]
            elif x < .75:
                q[k][rng.choice([2, 3])] = rng.choice([0x0D41, 0x410D, 0x0D0D])
                q = q + [list(y) for y in full]
            else:
                q = [list(y) for y in full[:k]] + q + [list(y) for y in full[:3]]
            batch.append(Scenario("tdc-%d" % k, "groups", gen.preamble(g.pi) + q, Opt(), keys=keys))
        q = [g.g(10, a, rng.randrange(65536), rng.randrange(65536)) for a in range(32)] + [g.g(11, a, None, rng.randrange(65536)) for a in range(32)]
        q += [g.g(10, 31, w(c, 65), w(66, c)) for c in range(256)]
        batch.append(Scenario("bytes", "groups", gen.preamble(g.pi) + q, Opt(), keys=keys))
        q = [g.g(6, 24, 0, DAB)]
        for c in chans:
            for d in (0, -16, 16):
                f = (c + d) // 16
                q.append(g.g(24, (rng.randrange(4) << 2) | (f >> 16), f & 0xFFFF, rng.randrange(65536)))
        q += [g.g(24, low, rng.randrange(65536), rng.randrange(65536)) for low in range(32)]
        batch.append(Scenario("dab", "groups", gen.preamble(g.pi) + q, Opt(), keys=keys))
        yield batch


def c19_structured(ctx):
    """everything mixed, in all text formats and with all options (run on the sanitised build)"""
    rng = ctx.rng
    for rnd in range(ctx.rounds(40)):
        batch = []
        for i in range(24):
            gs = (gen.lossy(rng, feature_groups(ctx, FEATS, 80)))
            batch.append(Scenario("mixed-%d" % i, "groups", gs, rand_opt(rng, streams=rng.random() < .4), env=ctx.env() if i % 3 == 0 else None))
        for i in range(8):
            gs = (feature_groups(ctx, ["ps", "rt", "slc", "noise", "tmc", "eon", "af"], 60))
            batch.append(Scenario("tef-%d" % i, "tef", [l for g in gs for l in tef_lines(rng, g)], rand_opt(rng, streams=False)))
            gs = (feature_groups(ctx, ["ps", "rt", "slc", "noise", "ptyn", "longps"], 40))
            gs = [[b if b is not None else 0 for b in x[:4]] for x in gs if not (len(x) > 4 and x[4])]
            batch.append(bit_scen("bits-%d" % i, transmit(rng, gs, rng.choice([0, .05, .3]), rng.choice([0, .01])), rand_opt(rng, streams=False, fec=rng.random() < .7)))
        batch += sweep(ctx, [0, 4, 8, 12], n=1) if rnd == 0 and not ctx.quick else []
        yield batch


def c25_sample(ctx):
    rng = ctx.rng
    keys = ("callsign", "callsign_uncertain", "prog_type", "other_network/prog_type")
    batch = []
    for rbds in (True, True, False):
        for _ in range(20):
            gs = []
            for _ in range(25):
                pi = rng.choice([rng.randrange(65536), 0xA000 | rng.randrange(4096), 0xAF00 | rng.randrange(256), 0x9950 + rng.randrange(0x600) - 16,
                                 rng.choice([0xB, 0xD, 0xE]) << 12 | rng.randrange(4096), 0x1000, 0x54A7, 0x54A8, 0x994F, 0x9950])
                g = G(rng, pi)
                gs += [g.g(rng.choice([1, 31]), rng.randrange(32), pi) for _ in range(3)] + [g.g(28, 13, rng.randrange(65536), 0x1234)]
            batch.append(Scenario("mix", "groups", gs, Opt(rbds=rbds), keys=keys))
    return batch


C26_KEYS = ("*",)


def c26(ctx):
    rng = ctx.rng
    feats = ["ps", "rt", "af", "longps"]
    for rnd in range(ctx.rounds(40)):
        batch = []
        for s in mixed(ctx, feats, 55, 70, opt=lambda r: Opt(partial=True)) + mixed(ctx, FEATS, 30, 60, opt=lambda r: Opt(partial=True)):
            batch.append(s)
            s2 = Scenario(s.name + "-without", s.kind, s.items, Opt(), env=s.env)
            batch.append(s2)
        for m in (lambda g: repeat(clean_ps(g), 2), lambda g: repeat(clean_rt(g, 14), 2), lambda g: repeat(clean_rt(g, 9, 5), 2),
                  lambda g: repeat(clean_longps(g, 12), 2), lambda g: clean_af(g, "a") + clean_af(g, "b")):
            batch += one_loss(ctx, m, 1, opt=lambda r: Opt(partial=True))
        for kind in ("ps", "rt"):
            batch.append(Scenario("chars-" + kind, "groups", char_sweep(ctx, kind), Opt(partial=True)))
        for i in range(30):
            g = G(rng)
            segs = rng.choice([lambda: clean_ps(g), lambda: clean_longps(g), lambda: clean_rt(g, 30), lambda: clean_rt(g, 12, 5), lambda: clean_af(g, "b")])()
            seq, k = [], 0
            for _ in range(30):
                seq.append(list(segs[k % len(segs)]))
                k = k + 1 if rng.random() < .75 else rng.randrange(len(segs))
            batch.append(Scenario("order", "groups", gen.preamble(g.pi) + seq, Opt(partial=True)))
        yield batch


def c21_hex(ctx):
    rng = ctx.rng
    for rnd in range(ctx.rounds(20)):
        batch = []
        for i in range(80):
            g = G(rng)
            main = gen.preamble(g.pi)
            while len(main) < 40:
                main += feat(g, rng.choice("ps rt af longps eon rtplus tdc slc di clock dab".split()))
            side = []
            while len(side) < 40:
                side += rng.choice([g.rft, g.typec])() if rng.random() < .6 else \
                    [[rng.choice([g.pi, rng.randrange(65536)])] + x[1:4] + [rng.choice([1, 2, 3])] for x in feat(g, rng.choice(["ps", "rt", "oda3a", "af"]))]
            q = g.merge(main, side)
            if rng.random() < .4:
                q = gen.lose(rng, q, .05)
            batch.append(Scenario("streams-%d" % i, "groups", (q), rand_opt(rng, streams=rng.random() < .6)))
        # a station change on stream 0 only; other PI-like words on the side
        for i in range(30):
            q = pi_walk(ctx, 40)
            out = []
            other = rng.randrange(65536)
            for x in q:
                out.append(x)
                if rng.random() < .5:
                    out.append([other, rng.randrange(65536), other, rng.randrange(65536), rng.choice([1, 2, 3])])
            batch.append(Scenario("walk-%d" % i, "groups", (out), rand_opt(rng, streams=rng.random() < .6)))
        yield batch


def c24_options(ctx):
    """the same input under many combinations of options"""
    rng = ctx.rng
    for rnd in range(ctx.rounds(20)):
        batch = []
        for i in range(10):
            base = mixed(ctx, FEATS, 1, 60)[0]
            for j in range(8):
                o = Opt(partial=rng.random() < .5, rbds=rng.random() < .5, streams=rng.random() < .5, raw=rng.random() < .5, bler=rng.random() < .5,
                        ts=rng.choice([None, "%c", "%s"]), hex=rng.random() < .1, fec=rng.random() < .8)
                if o.hex:
                    o.ts = None
                s = Scenario("opt-%d-%d" % (i, j), "groups", base.items, o, env=base.env)
                if j % 2:
                    long_args(rng, s)
                batch.append(s)
        for i in range(8):
            gs = feature_groups(ctx, ["ps", "rt", "di", "af"], 30)
            out = transmit(rng, gs, .08)
            for j in range(5):
                o = Opt(partial=rng.random() < .5, rbds=rng.random() < .5, raw=rng.random() < .5, bler=rng.random() < .5,
                        ts=rng.choice([None, "%H:%M"]), fec=rng.random() < .5)
                s = bit_scen("opt-bits-%d-%d" % (i, j), out, o)
                if j % 2:
                    long_args(rng, s)
                batch.append(s)
        yield batch


LONG = {"-p": "--show-partial", "-u": "--rbds", "-s": "--streams", "-t": "--timestamp", "-R": "--show-raw", "-E": "--bler", "-o": "--output",
        "-i": "--input", "-l": "--loctable"}


def long_args(rng, s):
    a = s.args()
    if a[:2] == ["-i", "hex"] and rng.random() < .4:
        a = [rng.choice(["-h", "--input-hex"])] + a[2:]
    if a[:2] == ["-i", "bits"] and rng.random() < .4:
        a = [rng.choice(["-b", "--input-bits"])] + a[2:]
    out = []
    i = 0
    while i < len(a):
        x = a[i]
        if x == "-o" and a[i + 1] == "hex" and rng.random() < .5:
            out.append(rng.choice(["-x", "--output-hex"]))
            i += 2
            continue
        if x in LONG and rng.random() < .7:
            if x in ("-t", "-o", "-i", "-l"):
                if rng.random() < .5:
                    out.append(LONG[x] + "=" + a[i + 1])
                else:
                    out += [LONG[x], a[i + 1]]
                i += 2
                continue
            out.append(LONG[x])
        else:
            out.append(x)
            if x in ("-t", "-o", "-i", "-l"):
                out.append(a[i + 1])
                i += 1
        i += 1
    s.args = lambda: out
