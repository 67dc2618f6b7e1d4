"""Service key tables and location tables on disk, with the rows the specification is given."""
import os, shutil, tempfile, tlc


class Env:
    def __init__(self, keys, tables, rng):
        self.keys, self.tables = keys, tables
        self.dir = tempfile.mkdtemp(prefix="env-", dir=tlc.work())
        self.dirs = []
        with open(os.path.join(self.dir, "service_key_table.csv"), "w") as f:
            f.write("# comment\n")
            for k in keys:
                f.write(",".join(map(str, k)) + rng.choice(["", ",note"]) + "\n")
                if rng.random() < .2:
                    f.write(rng.choice(["\n", "1,2\n", "a,b,c,d\n", "1,2,3\n", "3\n"]))
        for n, t in enumerate(tables):
            d = os.path.join(self.dir, "loc%d" % n)
            os.mkdir(d)
            self.dirs.append(d)
            enc = t.get("enc", "UTF-8")
            eol = rng.choice(["\n", "\r\n"])

            def wr(name, cols, rows, enc=enc, eol=eol, d=d):
                perm = list(range(len(cols)))
                rng.shuffle(perm)
                with open(os.path.join(d, name), "wb") as f:
                    pyenc = {"ISO 8859-1": "latin-1", "ISO 8859-15": "iso-8859-15", "ISO-8859-1 (Latin 1)": "latin-1", "UNKNOWN-1": "latin-1"}.get(enc, enc)
                    f.write((";".join(cols[i] for i in perm) + eol).encode(pyenc))
                    for r in rows:
                        f.write((";".join("" if r[i] == -1 else str(r[i]) for i in perm) + eol).encode(pyenc))
                        if rng.random() < .05:
                            f.write((rng.choice(["", "x"]) + eol).encode(pyenc))
            if enc != "UTF-8" or rng.random() < .7:
                with open(os.path.join(d, "README.DAT"), "w") as f:
                    f.write("a;b;c;d;%s;f\n" % enc)
            if t["ltn"] or rng.random() < .5:
                wr("LOCATIONDATASETS.DAT", ["CID", "TABCD", "DCOMMENT"], [[58, t["ltn"], "x"]])
            wr("NAMES.DAT", ["CID", "LID", "NID", "NAME"], [[58, 1, a, b] for a, b in t["names"]])
            wr("ROADS.DAT", ["CID", "TABCD", "LCD", "ROADNUMBER", "RNID"],
               [[58, t["ltn"], a, b or -1, c] for a, b, c in t["roads"]])
            wr("SEGMENTS.DAT", ["CID", "TABCD", "LCD", "ROA_LCD"], [[58, t["ltn"], a, b] for a, b in t["segments"]])
            wr("POINTS.DAT", ["CID", "TABCD", "LCD", "N1ID", "XCOORD", "YCOORD", "ROA_LCD", "SEG_LCD", "RNID"],
               [[58, p[0], p[1], p[2], "%+09d" % p[3], "%+08d" % p[4], p[5], p[6], p[7]] for p in t["points"]])
            wr("POFFSETS.DAT", ["CID", "TABCD", "LCD", "NEG_OFF_LCD", "POS_OFF_LCD"],
               [[58, t["ltn"], a, b, c] for a, b, c in t["poffsets"]])

    def key(self):
        return self.dir

    def files(self):
        out = {}
        for root, _, names in os.walk(self.dir):
            for n in names:
                with open(os.path.join(root, n), "rb") as f:
                    out[os.path.relpath(os.path.join(root, n), self.dir)] = f.read().decode("latin-1")
        return out

    def rec(self):
        """what the specification is given: no table whose character encoding is unknown"""
        return dict(keys=self.keys, tables=[t for t in self.tables if t.get("enc") != "UNKNOWN-1"])

    def args(self):
        a = []
        for d in self.dirs:
            a += ["-l", d]
        return a

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


ENCODINGS = ["UTF-8", "ISO-8859-1", "ISO 8859-1", "ISO-8859-15", "ISO 8859-15", "ISO-8859-1 (Latin 1)", "ISO-8859-2", "UNKNOWN-1"]


def make(rng, ntables=None, nkeys=None, enc0=None):
    nkeys = rng.choice([0, 1, 4, 8]) if nkeys is None else nkeys
    keys = []
    for _ in range(nkeys):
        keys.append([rng.randrange(32), rng.choice([0, 1, 255, rng.randrange(256)]), rng.randrange(16), rng.choice([0, 1, 15, rng.randrange(16)])])
    if keys and rng.random() < .5:
        keys.append([keys[0][0]] + keys[-1][1:3] + [rng.randrange(16)])
    tables = []
    for _ in range(rng.choice([0, 1, 1, 2]) if ntables is None else ntables):
        ltn = rng.choice([1, 2, 17, 31, 63, 63, rng.randrange(1, 64), rng.randrange(1, 64), rng.randrange(0, 64), 0])
        words = ["Helsinki", "Tampere", "Jyväskylä", "Åbo", "Köln", "München", "A1", "Kehä III", "Straße \"Süd\"", "x"]
        enc = rng.choice(ENCODINGS[:-1]) if enc0 is None else enc0
        if enc == "ISO-8859-2":
            words = ["Łódź", "Poznań", "Győr", "x"]
        elif enc == "UTF-8" or "15" in enc:
            words += ["Žižkov", "Œuvre €", "Škoda"] * 2
        names = [[i, rng.choice(words) + " %d" % i if rng.random() < .85 else rng.choice(["x", "Å", "", ""] if enc != "ISO-8859-2" else ["x", "é", ""])] for i in rng.sample(range(1, 60), 20)]
        ids = [n[0] for n in names]
        def nm(): return rng.choice(ids + [-1, 0, 99])
        roads = [[l, rng.choice(["", "E75", "A%d" % l]), nm()] for l in rng.sample(range(1, 30), 5)]
        rl = [r[0] for r in roads]
        segs = [[l, rng.choice(rl + [29])] for l in rng.sample(range(30, 60), 4)]
        sl = [s[0] for s in segs]
        lcds = rng.sample(range(100, 160), 30) + [65535, 1]
        points = []
        for l in lcds:
            points.append([ltn, l, nm(), rng.randrange(-3000000, 3000000), rng.randrange(-3000000, 3000000),
                           rng.choice(rl + [-1, -1, -1, 0, 28]), rng.choice(sl + [-1, 59]), nm()])
        if rng.random() < .1:
            for p in points:
                p[0] = ltn % 63 + 1
        off = []
        chain = lcds[:20]
        for i, l in enumerate(chain):
            off.append([l, chain[i - 1] if i else rng.choice([0, -1]), chain[i + 1] if i + 1 < len(chain) else rng.choice([0, -1])])
        if rng.random() < .3:
            off.append([chain[-1], chain[-2], chain[0]])
        for l in lcds[20:]:
            if rng.random() < .6:
                off.append([l, rng.choice(lcds + [0, 777]), rng.choice(lcds + [0, 777])])
        tables.append(dict(ltn=ltn, enc=enc, names=names, roads=roads, segments=segs, points=points, poffsets=off))
    return Env(keys, tables, rng)


def damage(rng, e):
    """damage the files on disk (for C19: what is printed is not compared then)"""
    fs = sorted(e.files())
    for f in rng.sample(fs, min(len(fs), rng.choice([1, 1, 2, 3]))):
        p = os.path.join(e.dir, f)
        with open(p, "rb") as h:
            b = bytearray(h.read())
        x = rng.random()
        if x < .15:
            os.unlink(p)
            continue
        if x < .5:
            for _ in range(rng.choice([1, 3, 10, 40])):
                if b:
                    b[rng.randrange(len(b))] = rng.choice([rng.randrange(256), 59, 10, 45, 48, 57, 13, 0])
        elif x < .7:
            b = b[:rng.randrange(len(b) + 1)]
        elif x < .85:
            k = rng.randrange(len(b) + 1)
            b[k:k] = rng.choice([b"99999999999999999999;", b"-5;", b"1e9;", b"\xff\xfe", b";" * 50, b"A" * 3000, b"\n\n", b"70000;"])
        else:
            ls = bytes(b).split(b"\n")
            rng.shuffle(ls)
            b = bytearray(b"\n".join(ls))
        with open(p, "wb") as h:
            h.write(bytes(b))
    return e
