"""Scenarios: an input for redsea together with what the specification needs to judge the output."""
import json, os, random, re, shutil, tempfile, hashlib, time, zlib
from concurrent.futures import ThreadPoolExecutor
import build as buildmod, redsea, tlc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOENV = {"keys": [], "tables": []}

BLK = {0: 0, 1: 1, 2: 2, 3: 2, 4: 3}


class Opt:
    def __init__(self, partial=False, rbds=False, streams=False, ts=None, raw=False, bler=False,
                 hex=False, fec=True, nchan=1, chan=0):
        self.partial, self.rbds, self.streams, self.ts, self.raw, self.bler, self.hex, self.fec = \
            partial, rbds, streams, ts, raw, bler, hex, fec
        self.nchan, self.chan = nchan, chan

    def args(self):
        a = []
        if self.partial: a.append("-p")
        if self.rbds: a.append("-u")
        if self.streams: a.append("-s")
        if self.ts: a += ["-t", self.ts]
        if self.raw: a.append("-R")
        if self.bler: a.append("-E")
        if self.hex: a += ["-o", "hex"]
        if not self.fec: a.append("--no-fec")
        return a

    def rec(self):
        return dict(partial=self.partial, rbds=self.rbds, streams=self.streams, ts=bool(self.ts), raw=self.raw,
                    bler=self.bler, hex=self.hex, fec=self.fec, nchan=self.nchan, chan=self.chan)


def rand_opt(rng, **kw):
    o = Opt(partial=rng.random() < 0.3, rbds=rng.random() < 0.2, streams=rng.random() < 0.2,
            raw=rng.random() < 0.3, bler=rng.random() < 0.3)
    for k, v in kw.items():
        setattr(o, k, v)
    return o


class Scenario:
    """kind: 'hex' (lines of bytes), 'tef', 'bits' (bytes of text), or 'groups' (fed to redsea as hex)"""

    def __init__(self, name, kind, items, opt=None, env=None, keys=("*",), args=(), fmt=None):
        self.name, self.kind, self.items, self.opt = name, kind, items, opt or Opt()
        self.env = env              # Env object or None
        self.keys = list(keys)
        self.extra = list(args)
        self.outlines = None        # recorded output (bytes lines)
        self.fmt = fmt

    # -- what redsea is given
    def args(self):
        if self.fmt:
            return self.fmt + self.opt.args() + (self.env.args() if self.env else []) + self.extra
        a = {"groups": ["-i", "hex"], "hex": ["-i", "hex"], "tef": ["-i", "tef"], "bits": ["-i", "bits"]}[self.kind]
        return a + self.opt.args() + (self.env.args() if self.env else []) + self.extra

    def data(self):
        if self.kind == "groups":
            d = b"".join(hexline(g) for g in self.items)
        elif self.kind in ("hex", "tef"):
            d = b"".join(l + b"\n" for l in self.items)
        else:
            return self.items
        if zlib.crc32(d) % 3 == 0:          # the last line is a line with or without its end
            d = d[:-1]
        return d

    # -- what the specification is given
    def inp(self):
        if self.kind == "groups":
            items = []
            for g in self.items:
                b = [-1 if x is None else x for x in g[:4]]
                items.append(dict(b=b, cp=False, nooff=True, stream=g[4] if len(g) > 4 else 0, err=b.count(-1)))
            return dict(kind="groups", items=items)
        if self.kind == "mpx":
            items = [dict(b=list(g[:4]), cp=bool(g[1] >> 11 & 1), nooff=False, stream=g[4] if len(g) > 4 else 0, err=0)
                     for g in self.items]
            return dict(kind="mpx", items=items, lockin=self.lockin, need=self.need, slack=getattr(self, "slack", 0))
        if self.kind in ("hex", "tef"):
            return dict(kind=self.kind, items=[list(l) for l in self.items])
        bits = [c - 48 for c in self.items if c in (48, 49)]
        n = len(bits)
        bits += [0] * (52 - n % 26)
        words = []
        for i in range(0, len(bits) - 25, 26):
            w = 0
            for b in bits[i:i + 26]:
                w = 2 * w + b
            words.append(w)
        return dict(kind="bits", items=words, n=n)

    def steps(self):
        return len(self.items)

    def spec_record(self):
        return dict(kind=self.kind, opt=self.opt.rec(), inp=self.inp(), keys=self.keys,
                    env=self.env.rec() if self.env else None, procenv=getattr(self, "procenv", None))

    def describe(self):
        d = dict(name=self.name, kind=self.kind, args=self.args())
        d["input"] = self.data().decode("latin-1")
        return d


class Replayed(Scenario):
    """a scenario from a replay file"""

    def __init__(self, run, spec, files):
        o = Opt()
        self._rec = spec["opt"]
        o.hex = spec["opt"]["hex"]
        Scenario.__init__(self, run["name"], spec["kind"], [], o, keys=spec["keys"])
        self._args, self._data, self._inp = run["args"], run["input"].encode("latin-1"), spec["inp"]
        if spec.get("procenv"):
            self.procenv = spec["procenv"]
        self.opt.rec = lambda: self._rec
        if spec["env"]:
            self.env = ReplayEnv(spec["env"], files, self)

    def args(self):
        return self._args

    def data(self):
        return self._data

    def inp(self):
        return self._inp

    def close(self):
        if self.env:
            self.env.close()


class ReplayEnv:
    def __init__(self, rec, files, scen):
        self._rec = rec
        self.dir = tempfile.mkdtemp(prefix="env-", dir=tlc.work())
        for name, text in files.items():
            path = os.path.join(self.dir, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as f:
                f.write(text.encode("latin-1"))
        dirs = sorted({name.split("/")[0] for name in files if "/" in name})
        k = 0
        a = list(scen._args)
        for i, x in enumerate(a):
            if x == "-l" and i + 1 < len(a):
                a[i + 1] = os.path.join(self.dir, dirs[k])
                k += 1
        scen._args = a

    def key(self):
        return self.dir

    def rec(self):
        return self._rec

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def hexline(g):
    s = " ".join("----" if x is None else "%04X" % x for x in g[:4])
    if len(g) > 4 and g[4]:
        s = "#S%d " % g[4] + s
    return s.encode() + b"\n"


class Problem:
    def __init__(self, scen, what, detail):
        self.scen, self.what, self.detail = scen, what, detail


def execute(exe, scens, timeout=60, stream="out"):
    """Run all scenarios; returns list of Problems (crashes, invalid lines)"""
    def one(s):
        rc, out, err = redsea.run(exe, s.args(), s.data(), env=getattr(s, "procenv", None), timeout=timeout,
                                    cwd=s.env.dir if s.env else tlc.work())
        return s, rc, out, err
    probs = []
    with ThreadPoolExecutor(8) as ex:
        for s, rc, out, err in ex.map(one, scens):
            s.rc, s.stdout, s.stderr = rc, out, err
            if rc != 0:
                probs.append(Problem(s, "exit", "exit status %s; stderr: %s" % (rc, err.decode("latin-1")[-1500:])))
                s.lines = None
                continue
            try:
                s.lines = [redsea.parse_line(l, s.opt.hex) for l in redsea.lines_of(out)]
            except redsea.BadLine as e:
                probs.append(Problem(s, "badline", str(e)))
                s.lines = None
    return probs


class Validation:
    states = transitions = accepted = 0
    wall = 0.0


def validate(scens, tag="t", max_per_batch=400000, stats=None, timeout=800):
    """Is every recorded run a behaviour of the specification?  Returns list of Problems."""
    probs = []
    todo = [s for s in scens if s.lines is not None]
    batch, size = [], 0
    batches = []
    for s in todo:
        n = sum(len(l) for l in s.lines) + len(s.items)
        if batch and size + n > max_per_batch:
            batches.append(batch); batch, size = [], 0
        batch.append(s); size += n
    if batch:
        batches.append(batch)
    for b in batches:
        probs += _validate(b, tag, stats, timeout)
    return probs


def _validate(scens, tag, stats, timeout):
    envs = [NOENV]
    index = {None: 1}
    traces = []
    for s in scens:
        k = s.env.key() if s.env else None
        if k not in index:
            envs.append(s.env.rec())
            index[k] = len(envs)
        allk = "*" in s.keys
        proj = {}
        for key in s.keys:
            top, _, sub = key.partition("/")
            if sub and proj.get(top) != []:
                proj.setdefault(top, []).append(sub)
            else:
                proj[top] = []
        traces.append(dict(opt=s.opt.rec(), env=index[k], inp=s.inp(), out=s.lines, all=allk, keys=proj))
    return judge_traces(dict(traces=traces, envs=envs), scens, "Trace", tag, stats, timeout)


def judge_traces(data, scens, module, tag, stats, timeout=800):
    fd, path = tempfile.mkstemp(prefix="trace-%s-" % tag, suffix=".json", dir=tlc.work())
    with os.fdopen(fd, "w") as f:
        json.dump(data, f)
    try:
        r = tlc.run(module + ".tla", module + ".cfg", env={"RDS_TRACE": path}, timeout=timeout)
    finally:
        os.unlink(path)
    acc = {int(x) for x in re.findall(r'"ACCEPTED (\d+)"', r.out)}
    bad = {}
    for m in re.finditer(r'"MISMATCH (\d+) (\d+) (\w+) (.*)', r.out):
        i, o = int(m.group(1)), int(m.group(2))
        if i not in bad or o > bad[i][0]:           # MPX: the explanation that gets furthest
            bad[i] = (o, m.group(3), m.group(4))
    for i in acc:
        bad.pop(i, None)                # MPX: one way to explain the output is enough
    missing = set(range(1, len(scens) + 1)) - acc - set(bad)
    if missing or not r.ok:
        raise tlc.TlcError("trace validation did not finish (%d of %d traces judged)\n%s" %
                           (len(acc) + len(bad), len(scens), r.out[-6000:]))
    if stats is not None:
        stats.states += r.states
        stats.transitions += r.transitions
        stats.accepted += len(acc)
        stats.wall += r.wall
    return [Problem(scens[i - 1], "mismatch", "output line %d (%s): %s" % (o + 1, w, d[:3000]))
            for i, (o, w, d) in sorted(bad.items())]
