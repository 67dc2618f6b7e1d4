"""Checks that need more than feeding text: the clock of the host, MPX signals, feed-through, options."""
import hashlib, json, mmap, os, random, re, select, struct, subprocess, tempfile, time, wave
from concurrent.futures import ThreadPoolExecutor
import bits, build as buildmod, core, envs, gen, recipes, redsea, tlc
from core import Opt, Problem, Scenario
from gen import G


class Raw:
    """A run that is not a Scenario, for reports"""

    def __init__(self, name, args, data, env=None, note=""):
        self.name, self._args, self._data, self.procenv, self.note = name, args, data, env, note

    def describe(self):
        d = self._data if len(self._data) < 200000 else b""
        return dict(name=self.name, kind="raw", args=self._args, input=d.decode("latin-1"), input_sha256=hashlib.sha256(self._data).hexdigest(),
                    env=self.procenv or {}, note=self.note)


# ---------------------------------------------------------------- judging with TLC
def judge(module, data, n, stats, timeout=600):
    """run a trace module whose traces print ACCEPTED k / MISMATCH k; returns {k: text} of the rejected"""
    fd, path = tempfile.mkstemp(prefix="trace-", suffix=".json", dir=tlc.work())
    with os.fdopen(fd, "w") as f:
        json.dump(data, f)
    try:
        r = tlc.run(module + ".tla", module + ".cfg", env={"RDS_TRACE": path}, timeout=timeout)
    finally:
        os.unlink(path)
    acc = {int(x) for x in re.findall(r'"ACCEPTED (\d+)"', r.out)}
    bad = {}
    for m in re.finditer(r'"MISMATCH (\d+) (.*)', r.out):
        bad.setdefault(int(m.group(1)), m.group(2)[:1500])
    if not r.ok or (n is not None and len(acc) + len(bad) < n):
        raise tlc.TlcError("%s did not finish\n%s" % (module, r.out[-4000:]))
    stats.states += r.states
    stats.transitions += r.transitions
    stats.accepted += len(acc)
    return bad


# ---------------------------------------------------------------- C25: all PI codes
def c25(ctx, exe, stats):
    chunks = [range(k, k + 4096) for k in range(0, 65536, 4096)]

    def one(ch):
        # two different stations in turn, so that each PI code is new when it is confirmed
        data = b"".join(core.hexline([pi, 0x0C08, pi, 0x2020]) for p in ch for pi in (p, p, p))
        return redsea.run(exe, ["-i", "hex", "-u"], data, timeout=120)
    seen = [set() for _ in range(65536)]
    probs = []
    with ThreadPoolExecutor(8) as ex:
        for ch, (rc, out, err) in zip(chunks, ex.map(one, chunks)):
            if rc != 0:
                probs.append(Problem(Raw("callsigns", ["-i", "hex", "-u"], b""), "exit", "exit status %s" % rc))
                continue
            for l in redsea.lines_of(out):
                d = redsea.parse_line(l)
                pi = int(d["pi"]["_"][1], 16)
                seen[pi].add((d["callsign"]["_"][1] if "callsign" in d else "") +
                             ("?" + d["callsign_uncertain"]["_"][1] if "callsign_uncertain" in d else ""))
    if probs:
        return probs
    table = [" or ".join(sorted(q)) if q else "(no line)" if pi else "" for pi, q in enumerate(seen)]
    ctx.samples.append({"pi": "0x54A8", "callsign": table[0x54A8]})
    bad = judge("FnTrace", {"callsign": table}, None, stats)
    for pi, t in sorted(bad.items())[:5]:
        data = b"".join(core.hexline([pi, 0x0C08, pi, 0x2020]) for _ in range(3))
        probs.append(Problem(Raw("callsign-%04X" % pi, ["-i", "hex", "-u"], data), "mismatch", "PI 0x%04X: %s" % (pi, t)))
    return probs


# ---------------------------------------------------------------- C20: reception times
def shim():
    src = os.path.join(tlc.HERE, "lib", "clockshim.c")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    so = os.path.join(buildmod.CACHE, "clockshim-%s.so" % h)
    if not os.path.exists(so):
        os.makedirs(buildmod.CACHE, exist_ok=True)
        tmp = so + ".tmp%d" % os.getpid()
        subprocess.run(["cc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True)
        os.rename(tmp, so)
    return so


DAY0 = 40587      # MJD of 1 January 1970


def moment(ms):
    return [DAY0 + ms // 86400000, ms % 86400000]


class ClockCell:
    def __init__(self):
        fd, self.path = tempfile.mkstemp(prefix="clk-", dir=tlc.work())
        os.write(fd, b"\0" * 8)
        self.mm = mmap.mmap(fd, 8)
        os.close(fd)

    def set_ms(self, ms):
        self.mm[:] = struct.pack("<q", ms * 1000000)

    def close(self):
        self.mm.close()
        os.unlink(self.path)


class NoHandshake(Exception):
    pass


def interactive(exe, args, pieces, times, env, cell, quiet):
    """give the pieces one by one, each with the clock at times[i]; returns lines (one per piece after `quiet`)"""
    e = dict(redsea.ENV)
    e.update(env)
    cell.set_ms(times[0])
    p = subprocess.Popen([exe] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=tlc.work())
    out = []
    buf = b""
    try:
        for k, piece in enumerate(pieces):
            cell.set_ms(times[k])
            p.stdin.write(piece)
            p.stdin.flush()
            if k < quiet:
                continue
            limit = time.time() + 20
            while b"\n" not in buf:
                r, _, _ = select.select([p.stdout], [], [], max(0, limit - time.time()))
                if not r:
                    raise NoHandshake("no line within 20 s")
                d = os.read(p.stdout.fileno(), 65536)
                if not d:
                    raise NoHandshake("output ended")
                buf += d
            line, buf = buf.split(b"\n", 1)
            out.append(line)
        p.stdin.close()
        rest = buf + p.stdout.read()
        rc = p.wait(20)
    finally:
        if p.poll() is None:
            p.kill()
        p.wait()
        for f in (p.stdin, p.stdout, p.stderr):
            try:
                f.close()
            except OSError:
                pass
    return rc, out, rest


FMTS = [["%Y", "-", "%m", "-", "%d", " ", "%H", ":", "%M", ":", "%S", ".", "%f"], ["%F", "T", "%T", ".", "%f"], ["%H", "%M", "%S"],
        ["%f"], ["%j", " ", "%T"], ["%%", "%S", ".", "%f", " x"], ["%T"], ["%f", "/", "%S"], ["%Y", "%j"], ["%F"],
        ["%f", " ", "%S", ".", "%f"], ["%f", "%f"], ["%%", "f", " ", "%f"]]


def clock_walk(rng, n):
    t = rng.choice([1600000000000, 1583020799990, 1609459199000, 946684799500, 1709164800000, 86399000 + 86400000, 1700000000000]) + rng.randrange(1000)
    out = []
    for _ in range(n):
        out.append(t)
        x = rng.random()
        if x < .3:
            t += rng.choice([1, 5, 9, 10, 11])
        elif x < .5:
            t += rng.randrange(1, 2000)
        elif x < .6:
            t += rng.choice([3600000, 86400000, 60000])
        elif x < .7:
            pass
        else:
            t -= rng.choice([1, 10, 500, 5000, 3600000])
        t = max(t, 1000)
    return out


def c20(ctx, exe, stats):
    rng = ctx.rng
    so = shim()
    probs, traces, scens = [], [], []
    nrun = 150 if ctx.quick else 600

    def setup(i):
        kind = ["hex", "hex", "bits", "tef", "hexout", "bitsout"][i % 6]
        g = G(rng)
        n = 30
        fmt = rng.choice(FMTS) if i >= 6 else FMTS[i % 2]
        zone = rng.choice([0, 0, 120, -300, 330, 765])
        tz = "UTC" if zone == 0 else "XXX%s%d:%02d" % ("-" if zone > 0 else "+", abs(zone) // 60, abs(zone) % 60)
        times = clock_walk(rng, n)
        gs = []
        while len(gs) < n:
            # (version B groups carry the PI in block 3 too, which would make the first line of bit input come earlier)
            gs += [g.g(rng.choice([0, 2] if kind.startswith("bits") else [0, 1, 2, 31]), rng.randrange(32)) for _ in range(4)]
        gs = gs[:n]
        args = ["-t", "".join(fmt)]
        if kind.startswith("hex") and rng.random() < .4:      # all data streams share one time
            args.append("-s")
            gs = gs[:3] + [x[:4] + [rng.choice([0, 0, 1, 2, 3])] for x in gs[3:]]
        quiet = 2
        if kind.startswith("hex"):
            pieces = [core.hexline(x) for x in gs]
            args = ["-i", "hex"] + args
        elif kind == "tef":
            pieces = [b"P%04X\nR%04X%04X%04X00\n" % (x[0], x[1], x[2], x[3]) for x in gs]
            args = ["-i", "tef"] + args
        else:
            pieces = [bits.ascii_bits([b for wd in bits.blocks_of(x) for b in bits.word_bits(wd)]) for x in gs]
            args = ["-i", "bits"] + args
        if kind.endswith("out"):
            args += ["-o", "hex"]
            quiet = 0
        if kind.startswith("bits"):
            quiet = 0 if kind == "bitsout" else 3    # the first group isn't known to be one until its third block
        times[:quiet + 1] = [times[0]] * (quiet + 1)
        if kind in ("hexout",):
            pass
        return kind, args, pieces, times, fmt, zone, tz, quiet

    def one(job):
        kind, args, pieces, times, fmt, zone, tz, quiet = job
        cell = ClockCell()
        try:
            return interactive(exe, args, pieces, times, {"LD_PRELOAD": so, "CLK_FILE": cell.path, "TZ": tz}, cell, quiet)
        except (NoHandshake, BrokenPipeError) as e:
            return None, [], str(e).encode()
        finally:
            cell.close()

    jobs = [setup(i) for i in range(nrun)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    noshake = 0
    for job, (rc, out, rest) in zip(jobs, res):
        kind, args, pieces, times, fmt, zone, tz, quiet = job
        raw = Raw("clock-" + kind, args, b"".join(pieces), {"TZ": tz}, note="clock (ms since 1970) before each group: %r" % (times,))
        if rc is None:
            noshake += 1
            continue
        if rc != 0:
            probs.append(Problem(raw, "exit", "exit status %s" % rc))
            continue
        lines = out
        extra = redsea.lines_of(rest)
        if kind == "bitsout" or kind == "bits":
            pass
        rx = []
        try:
            for l in lines:
                if kind.endswith("out"):
                    # whatever follows the four blocks and a space
                    m = re.match(rb"^(?:#S[123] )?(?:[0-9A-F]{4}|----)(?: (?:[0-9A-F]{4}|----)){3} (.*)$", l)
                    if not m:
                        raise redsea.BadLine("not a hex line with a time: %r" % l)
                    rx.append(m.group(1).decode())
                else:
                    d = redsea.parse_line(l)
                    if "rx_time" not in d:
                        raise redsea.BadLine("no rx_time: %r" % l)
                    rx.append(d["rx_time"]["_"][1])
        except redsea.BadLine as e:
            probs.append(Problem(raw, "badline", str(e)))
            continue
        skip = len(times) - len(rx) - (0)
        # lines correspond to the pieces from `quiet` on
        clk = [moment(t) for t in times[quiet:quiet + len(rx)]]
        traces.append(dict(kind="exact", clock=clk, rx=rx, fmt=fmt, zone=zone))
        scens.append(raw)
    # MPX: the clock runs with the signal
    tr2, sc2, pr2 = mpx_times(ctx, exe, so)
    traces += tr2
    scens += sc2
    probs += pr2
    # without handshake: lines must at least not go backwards and lie within the run
    tr3, sc3, pr3 = burst_times(ctx, exe, so)
    traces += tr3
    scens += sc3
    probs += pr3
    ctx.fuzzed = len(traces) + len(probs)
    if traces:
        ctx.samples.append(traces[0])
        bad = judge("TimeTrace", {"traces": traces}, len(traces), stats)
        for k, t in sorted(bad.items()):
            probs.append(Problem(scens[k - 1], "mismatch", t))
    return probs


def parse_ms(s):
    """'%s.%f' -> ms (hundredths)"""
    a, b = s.split(".")
    return int(a) * 1000 + int(b) * 10


def burst_times(ctx, exe, so):
    """everything at once with the clock standing still"""
    rng = ctx.rng
    traces, scens, probs = [], [], []
    for i in range(3):
        cell = ClockCell()
        t = 1650000000000 + rng.randrange(10 ** 6)
        cell.set_ms(t)
        g = G(rng)
        data = b"".join(core.hexline(x) for x in gen.preamble(g.pi) + g.ps() + g.rt())
        args = ["-i", "hex", "-t", "%s.%f"]
        rc, out, err = redsea.run(exe, args, data, env={"LD_PRELOAD": so, "CLK_FILE": cell.path})
        cell.close()
        raw = Raw("burst", args, data, note="clock fixed at %d ms" % t)
        try:
            rx = [parse_ms(redsea.parse_line(l)["rx_time"]["_"][1]) for l in redsea.lines_of(out)]
        except (redsea.BadLine, KeyError, ValueError) as e:
            probs.append(Problem(raw, "badline", repr(e)))
            continue
        traces.append(dict(kind="bounded", rx=[moment(x) for x in rx], lo=[moment(t - 10)] * len(rx), hi=[moment(t)] * len(rx)))
        scens.append(raw)
    return traces, scens, probs


CHUNK_MS = 200


def mpx_times(ctx, exe, so):
    import mpx
    rng = ctx.rng
    traces, scens, probs = [], [], []
    n = 60
    for i in range(12 if ctx.quick else 60):
        nchan = rng.choice([1, 1, 2])
        g = G(rng)
        gs = [g.g(1, rng.randrange(32), g.pi, rng.randrange(65536)) for _ in range(n)]
        x = mpx.signal({0: mpx.group_bits(gs)}, level=.1, phase=rng.random() * 6)
        import numpy as np
        if nchan == 2:
            x = np.repeat(x, 2)
        data = x.tobytes()
        bps = 171000 * 2 * nchan
        t0 = 1650000000000 + rng.randrange(10 ** 6)
        mode = ["real", "still", "step", "real", "fast"][i % 5]
        step_at = len(data) // 2 if mode == "step" else -1
        step = -rng.choice([100, 5000, 3600000]) if mode == "step" else 0
        rate = 0 if mode == "still" else 1
        speed = 50 if mode == "fast" else 1      # fifty times as fast as real time
        cell = ClockCell()
        cell.set_ms(t0)
        args = ["-i", "mpx", "-r", "171000", "-t", "%s.%f"] + (["-c", "2"] if nchan == 2 else [])
        rc, out, err = redsea.run(exe, args, data, env={"LD_PRELOAD": so, "CLK_FILE": cell.path,
                                                        "CLK_READ": "%d %d %d %d" % (10 ** 9 * rate, bps * speed, step_at, step * 1000000)})
        cell.close()
        raw = Raw("mpx-" + mode, args, data, note="clock mode %s" % mode)
        dur = len(data) * 1000 // bps
        per = {}
        try:
            for l in redsea.lines_of(out):
                d = redsea.parse_line(l)
                per.setdefault(d.get("channel", {}).get("_", ["i", "0"])[1], []).append(parse_ms(d["rx_time"]["_"][1]))
        except (redsea.BadLine, KeyError, ValueError) as e:
            probs.append(Problem(raw, "badline", repr(e)))
            continue
        if rc != 0 or len(per) != nchan:
            probs.append(Problem(raw, "exit", "exit status %s, channels %s" % (rc, sorted(per))))
            continue
        for rx in per.values():
            if mode == "real":
                # the very last groups come from a short last chunk
                tr = dict(kind="spaced", rx=[moment(v) for v in rx], tol=12)
            else:
                lo, hi = t0 - CHUNK_MS, t0
                if mode == "step":
                    lo, hi = t0 - CHUNK_MS, t0 + dur + 10
                if mode == "fast":
                    hi = t0 + dur // speed + 10
                tr = dict(kind="bounded", rx=[moment(v) for v in rx], lo=[moment(lo)] * len(rx), hi=[moment(hi)] * len(rx))
            traces.append(tr)
            scens.append(raw)
    return traces, scens, probs


# ---------------------------------------------------------------- MPX scenarios (C27, C21)
class Mpx(Scenario):
    def __init__(self, name, groups, stream, lines, args, pcm, note="", opt=None, lockin=20, extra=3):
        Scenario.__init__(self, name, "mpx", [list(g[:4]) + [stream] for g in groups], opt or Opt(hex=True))
        self.lines, self._args, self.pcm, self.note = lines, args, pcm, note
        self.lockin, self.need = lockin, len(groups) - extra
        self.rc, self.stdout, self.stderr = 0, b"", b""

    def args(self):
        return self._args

    def data(self):
        return self.pcm

    def describe(self):
        return dict(name=self.name, kind="mpx", args=self._args, note=self.note, groups=[g[:4] for g in self.items],
                    input="", input_sha256=hashlib.sha256(self.pcm).hexdigest())


def split_hex(out):
    """hex lines -> {stream: lines of the specification}; a last unfinished group is dropped"""
    per = {}
    for l in redsea.lines_of(out):
        d = redsea.parse_line(l, True)
        s = d["hex"]["_"][1]
        per.setdefault(int(s[2]) if s.startswith("#S") else 0, []).append(d)
    for q in per.values():
        if q and "-" in q[-1]["hex"]["_"][1]:
            q.pop()
    return per


def mpx_groups(rng, n, pi=None):
    g = G(rng, pi)
    out = gen.preamble(g.pi)
    while len(out) < n:
        out += recipes.feat(g, rng.choice("ps rt af slc di clock noise".split()))
    return [[b if b is not None else 0 for b in x[:4]] for x in out[:n]]


def run_pieces(exe, args, data, pieces, timeout=60):
    """like redsea.run, but the input arrives in pieces of the given sizes"""
    p = subprocess.Popen([exe] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=redsea.ENV, cwd=tlc.work())
    import threading
    outs = []
    th = threading.Thread(target=lambda: outs.append(p.stdout.read()))
    th.start()
    try:
        k = 0
        i = 0
        while k < len(data):
            n = pieces[i % len(pieces)]
            p.stdin.write(data[k:k + n])
            p.stdin.flush()
            k += n
            i += 1
        p.stdin.close()
    except BrokenPipeError:
        pass
    th.join(timeout)
    if p.poll() is None:
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    err = p.stderr.read()
    p.stdout.close()
    p.stderr.close()
    return p.returncode, outs[0] if outs else b"", err


def wav_file(path, x, rate, nchan=1):
    with wave.open(path, "wb") as f:
        f.setnchannels(nchan)
        f.setsampwidth(2)
        f.setframerate(rate)
        f.writeframes(x.tobytes())


def interruption(lead, rate, seed):
    """what comes before the signal: [an earlier signal,] silence or noise"""
    import mpx
    import numpy as np
    kind, seconds, before = lead
    rng = random.Random("%s/%s" % (lead, seed))
    rs = np.random.RandomState(seed)
    n = int(seconds * rate)
    if kind == "zero":
        x = np.zeros(n, "<i2")
    elif kind == "noise":
        x = (rs.randn(n) * 300).astype("<i2")
    elif kind == "lsb":
        x = rs.randint(-1, 2, n).astype("<i2")
    elif kind == "pilot":
        x = np.round(3000 * np.cos(2 * np.pi * 19000 * np.arange(n) / rate)).astype("<i2")
    else:                                         # another station follows at once
        before, x = True, np.zeros(0, "<i2")
    if not before:
        return [x]
    y = mpx.signal({0: mpx.group_bits(mpx_groups(rng, 35))}, rate=rate, level=rng.choice([.01, .05, .2]), phase=rng.random() * 6, pilot=rng.choice([0, .09]))
    return [y[:len(y) - rng.randrange(2000)], x]


def c27(ctx, exe, stats):
    import mpx
    import numpy as np
    rng = ctx.rng
    probs = []
    jobs = []
    rates = [128000, 130000, 150000, 171000, 171000, 176400, 192000, 200000, 228000, 240000, 250000, 256000, 300000, 384000, 400000, 512000, 1000000]
    n = 48 if ctx.quick else 400
    for i in range(n):
        rate = rates[i % len(rates)] if i % 4 else rng.choice([rng.randrange(128000, 400000), rng.randrange(170600, 171400), 171001, 170999, 342000, rng.randrange(171000, 180000)])
        streams = (i % 3 == 0) and rate >= 171000
        ng = rng.choice([40, 60])
        if rate > 600000:
            ng = 30
        par = dict(level=rng.choice([.003, .01, .03, .1, .2]), phase=rng.random() * 6.28, pilot=rng.choice([0, .05, .09]), audio=rng.choice([0, .2, .4]),
                   delay=rng.choice([0, 0, rng.random() * .001]))
        if streams:
            par["level"] = rng.choice([.03, .1])
        how = ["stdin", "pieces", "file"][i % 5 % 3]
        lead = None
        if not streams and i % 3 == 1:           # the signal begins, or begins again, after silence or noise
            ng = 75
            lead = [rng.choice(["zero", "noise", "lsb", "pilot", "other"]), rng.choice([.05, .3, .6, 1, 3, 6, 12]), rng.random() < .6]
        elif i % 24 == 2:                        # a long run
            ng, rate, streams = 900, rng.choice([171000, 192000]), False
        elif i % 24 == 5:
            ng, rate = 27, rng.choice([2400000, 2048000, 3200000])
        jobs.append((i, rate, streams, {s: mpx_groups(rng, ng) for s in ([0, 1, 2, 3] if streams else [0])}, par, how,
                     [rng.choice([1, 2, 3, 511, 1000, 4095, 16384, 65537, 100001]) for _ in range(5)] if rng.random() < .7 else [rng.choice([16384, 8191])], lead))

    def one(job):
        i, rate, streams, gs, par, how, pieces, lead = job
        x = mpx.signal({s: mpx.group_bits(q) for s, q in gs.items()}, rate=rate, **par)
        if lead:
            x = np.concatenate(interruption(lead, rate, i) + [x])
        data = x.tobytes()
        args = ["-o", "hex"] + (["-s"] if streams else [])
        path = None
        if how == "file":
            fd, path = tempfile.mkstemp(suffix=".wav", dir=tlc.work())
            os.close(fd)
            wav_file(path, x, rate)
            args = ["-f", path] + args
            rc, out, err = redsea.run(exe, args, b"")
            os.unlink(path)
        elif how == "pieces":
            args = ["-i", "mpx", "-r", str(rate)] + args
            if min(pieces) < 500:
                pieces = [p if p > 400 else p + 4096 * (k % 2) for k, p in enumerate(pieces)]
            rc, out, err = run_pieces(exe, args, data, pieces)
        else:
            args = rng_rate(rate) + args
            rc, out, err = redsea.run(exe, args, data)
        return args, rc, out, err, data, par

    scens = []
    with ThreadPoolExecutor(8) as ex:
        for job, (args, rc, out, err, data, par) in zip(jobs, ex.map(one, jobs)):
            i, rate, streams, gs, _, how, pieces, lead = job
            note = "rate %d %s how=%s after=%s" % (rate, par, how, lead)
            if rc != 0:
                probs.append(Problem(Raw("mpx-%d" % i, args, data, note=note), "exit", "exit status %s %s" % (rc, err[-300:])))
                continue
            try:
                per = split_hex(out)
            except redsea.BadLine as e:
                probs.append(Problem(Raw("mpx-%d" % i, args, data, note=note), "badline", str(e)))
                continue
            if set(per) - set(gs):
                probs.append(Problem(Raw("mpx-%d" % i, args, data, note=note), "mismatch", "groups on streams %s" % sorted(per)))
            for s, q in gs.items():
                if lead:                          # the last groups, after 40 groups to lock in again
                    scens.append(Mpx("mpx-%d-again" % i, q, s, per.get(s, [])[-(len(q) - 43):], args, data, note, lockin=50))
                else:
                    scens.append(Mpx("mpx-%d-s%d" % (i, s), q, s, per.get(s, []), args, data, note))
    probs += core.validate(scens, "c27", stats=stats)
    ctx.fuzzed = len(jobs)
    ctx.samples.append(dict(args=scens[0].args(), note=scens[0].note, groups=len(scens[0].items), lines=len(scens[0].lines)))
    return probs


def carrier_lost(ctx, exe, stats, n):
    """the signal is interrupted; after more than ten seconds nothing received before may be used"""
    import mpx
    import numpy as np
    rng = ctx.rng
    probs, scens = [], []
    jobs = []
    for i in range(n):
        r = random.Random("%d/%d" % (rng.randrange(10 ** 9), i))
        jobs.append((i, r, rng.choice([171000, 171000, 128000, 192000, 250000]), rng.choice([12.5, 13, 14.2])))

    def one(job):
        i, r, rate, gap = job
        g = G(r)
        neutral = lambda k: [g.g(2, 0, r.randrange(1 << 12) | r.choice([1, 3, 6, 7]) << 12, 0) for _ in range(k)]
        texts = [recipes.clean_ps(g), recipes.clean_rt(g), recipes.clean_ptyn(g), recipes.clean_longps(g), recipes.clean_eonps(g)]
        r.shuffle(texts)
        cuts = [r.randrange(max(0, len(t) - 3), len(t)) for t in texts]
        flat = lambda q: [[b if b is not None else 0 for b in x[:4]] for x in q]
        first = flat(gen.preamble(g.pi) + neutral(24) + [x for t, k in zip(texts, cuts) for x in t[:k]] + neutral(4))
        second = flat(neutral(50) + [x for t, k in zip(texts, cuts) for x in t[k:]] + neutral(2) + [x for t in texts for x in t] + neutral(4))
        sig = [mpx.signal({0: mpx.group_bits(q)}, rate=rate, level=r.choice([.03, .1]), phase=r.random() * 6, pilot=.09) for q in (first, second)]
        x1 = np.concatenate([sig[0], np.zeros(int(gap * rate), "<i2")])
        data = np.concatenate([x1, sig[1]])
        args = ["-i", "mpx", "-R", "-r", str(rate)]
        if i % 3 == 2:                              # the same as one channel of two
            c = i // 3 % 2
            x1, data = (np.stack([0 * x, x][::1 if c else -1], axis=1) for x in (x1, data))
            args += ["-c", "2"]
        data = data.tobytes()
        return second, args, data, redsea.run(exe, args, x1.tobytes()), redsea.run(exe, args, data)

    with ThreadPoolExecutor(8) as ex:
        for (i, r, rate, gap), (two, args, data, (rc1, out1, _), (rc, out, err)) in zip(jobs, ex.map(one, jobs)):
            raw = Raw("lost-%d" % i, args, data, note="carrier lost for %s s, rate %d" % (gap, rate))
            if rc != 0 or rc1 != 0:
                probs.append(Problem(raw, "exit", "exit status %s %s" % (rc, err[-300:])))
                continue
            try:
                lines = [redsea.parse_line(l) for l in redsea.lines_of(out)]
            except redsea.BadLine as e:
                probs.append(Problem(raw, "badline", str(e)))
                continue
            lines = lines[len(redsea.lines_of(out1)):]
            if lines and "-" in str(lines[-1].get("raw_data")):        # the signal ends within a group
                lines.pop()
            opt = Opt(raw=True, nchan=2, chan=i // 3 % 2) if i % 3 == 2 else Opt(raw=True)
            scens.append(Mpx("lost-%d" % i, two, 0, lines, args, data, raw.note, opt=opt, lockin=46, extra=2))
            scens[-1].slack = 3
    probs += core.validate(scens, "lost", stats=stats)
    ctx.fuzzed = getattr(ctx, "fuzzed", 0) + len(jobs)
    return probs


def rng_rate(rate):
    if rate % 1000 == 0 and rate % 3 == 0:
        return ["-r", "%dk" % (rate // 1000), "-i", "mpx"]
    return ["-i", "mpx", "--samplerate", str(rate)]


def c21_long(ctx, exe, stats, i):
    """a channel whose signal is lost for more than ten seconds, one that never has a signal, and one that always has"""
    import mpx
    import numpy as np
    rng = ctx.rng
    rate = rng.choice([171000, 192000])
    gs = [mpx_groups(rng, 245), mpx_groups(rng, 30), mpx_groups(rng, 75)]
    sig = [mpx.signal({0: mpx.group_bits(q)}, rate=rate, level=rng.choice([.03, .1, .2]), phase=rng.random() * 6, pilot=rng.choice([0, .09])) for q in gs]
    gap = np.zeros(int(rng.choice([11.5, 12.3]) * rate), "<i2")
    n = len(sig[0])
    cols = [sig[0], np.concatenate([sig[1], gap, sig[2]])[:n], np.zeros(n, "<i2")]
    order = [0, 1, 2]
    rng.shuffle(order)
    x = np.zeros((n, 3), dtype="<i2")
    for c in range(3):
        y = cols[order[c]]
        x[:len(y), c] = y
    args = ["-i", "mpx", "-c", "3", "-R", "-r", str(rate)]
    raw = Raw("channels-long-%d" % i, args, x.tobytes(), note="channels %s (0: continuous, 1: interrupted, 2: no signal), rate %d" % (order, rate))
    with ThreadPoolExecutor(2) as ex:
        f = ex.submit(redsea.run, exe, args, x.tobytes())
        rc1, out1, _ = redsea.run(exe, ["-i", "mpx", "-R", "-r", str(rate)], sig[0].tobytes())
        rc, out, err = f.result()
    if rc != 0:
        return [Problem(raw, "exit", "exit status %s %s" % (rc, err[-300:]))], []
    per = {0: [], 1: [], 2: []}
    try:
        for l in redsea.lines_of(out):
            d = redsea.parse_line(l)
            per[order[int(d["channel"]["_"][1])]].append(d)
    except (redsea.BadLine, KeyError, IndexError) as e:
        return [Problem(raw, "badline", "%r (a line without a valid channel number?)" % (e,))], []
    probs, scens = [], []
    alone = [redsea.parse_line(l) for l in redsea.lines_of(out1)]
    if [{k: v for k, v in d.items() if k != "channel"} for d in per[0]] != alone:
        probs.append(Problem(raw, "mismatch", "the continuous channel gives other groups than decoded alone"))
    if per[2]:
        probs.append(Problem(raw, "mismatch", "the channel without signal prints groups"))
    hexes = [{"hex": {"_": ["s", d["raw_data"]["_"][1]]}} for d in per[1] if "raw_data" in d]
    if hexes and "-" in hexes[-1]["hex"]["_"][1]:
        hexes.pop()
    m = min(len(gs[2]), int((n - len(sig[1]) - len(gap)) / rate * 1187.5 / 104))      # how much of it is in the signal
    q = gs[2][:m]
    scens.append(Mpx("ch-long-%d" % i, q, 0, hexes[-(m - 43):], args, x.tobytes(), raw.note, lockin=50))
    return probs, scens


def c21_mpx(ctx, exe, stats):
    """channels decoded together against the same channels decoded alone, and against what was transmitted"""
    import mpx
    import numpy as np
    rng = ctx.rng
    probs, scens = [], []
    for i in range(7 if ctx.quick else 80):
        if i % 7 == 5:
            p, q = c21_long(ctx, exe, stats, i)
            probs += p
            scens += q
            continue
        nchan = [2, rng.choice([3, 5]), rng.choice([4, 6]), 2, rng.choice([3, 5, 6, 7]), 0, rng.choice([9, 16, 17, 18, 31, 32])][i % 7]
        rate = rng.choice([171000, 192000, 250000])
        streams = i % 7 == 1 or rng.random() < .3 and nchan < 8
        ng = rng.choice([30, 45]) if nchan < 8 else 27
        sets, sigs = [], []
        for c in range(nchan):
            if rng.random() < .15:
                sets.append(None)
                sigs.append((np.random.RandomState(rng.randrange(10 ** 6)).randn(1000) * 100).astype("<i2"))
                continue
            gs = {s: mpx_groups(rng, ng) for s in ([0, 1, 2, 3] if streams else [0])}
            sets.append(gs)
            sigs.append(mpx.signal({s: mpx.group_bits(q) for s, q in gs.items()}, rate=rate, level=rng.choice([.03, .1, .2]), phase=rng.random() * 6,
                                   pilot=rng.choice([0, .09]), delay=rng.random() * .002))
        n = max(len(s) for s in sigs)
        x = np.zeros((n, nchan), dtype="<i2")
        for c, s in enumerate(sigs):
            x[:len(s), c] = s
        base = ["-r", str(rate)] + (["-s"] if streams else [])
        if rng.random() < .3:
            fd, path = tempfile.mkstemp(suffix=".wav", dir=tlc.work())
            os.close(fd)
            wav_file(path, x, rate, nchan)
            args = ["-f", path, "-R"] + (["-s"] if streams else [])
            rc, out, err = redsea.run(exe, args, b"")
            os.unlink(path)
        else:
            args = ["-i", "mpx", "-c", str(nchan), "-R"] + base
            rc, out, err = redsea.run(exe, args, x.tobytes())
        raw = Raw("channels-%d" % i, args, x.tobytes(), note="%d channels, rate %d" % (nchan, rate))
        if rc != 0:
            probs.append(Problem(raw, "exit", "exit status %s %s" % (rc, err[-300:])))
            continue
        per = {c: [] for c in range(nchan)}
        try:
            for l in redsea.lines_of(out):
                d = redsea.parse_line(l)
                c = int(d["channel"]["_"][1])
                per[c].append(d)
        except (redsea.BadLine, KeyError) as e:
            probs.append(Problem(raw, "badline", "%r (a line without a valid channel number?)" % (e,)))
            continue
        for c in range(nchan):
            rc, out1, err = redsea.run(exe, ["-i", "mpx", "-R"] + base, np.ascontiguousarray(x[:, c]).tobytes())
            alone = [redsea.parse_line(l) for l in redsea.lines_of(out1)]
            if streams:
                # data streams are decoded chunk by chunk, and the chunks have other lengths: compare each stream by itself
                key = lambda q: {s: [d for d in q if d["stream"]["_"][1] == s] for s in "0123"}
            else:
                key = lambda q: q
            together = [{k: v for k, v in d.items() if k != "channel"} for d in per[c]]
            if streams:
                a, b = key(together), key(alone)
                # what is printed for data streams depends on nothing but the stream's own groups once the PI is known
                same = all([x["raw_data"] for x in a[s]][-15:] == [x["raw_data"] for x in b[s]][-15:] for s in "123") and a["0"] == b["0"]
            else:
                same = together == alone
            if not same:
                probs.append(Problem(raw, "mismatch", "channel %d gives other groups than the same channel decoded alone" % c))
            if sets[c] is None:
                if together:
                    probs.append(Problem(raw, "mismatch", "channel %d has no signal but prints groups" % c))
                continue
            stats.transitions += len(together)
            # against the transmission
            for s, q in sets[c].items():
                lines = [dict(d) for d in per[c] if not streams or d["stream"]["_"][1] == str(s)]
                hexes = [{"hex": {"_": ["s", ("#S%d " % s if s else "") + d["raw_data"]["_"][1]]}} for d in lines if "raw_data" in d]
                if hexes and "-" in hexes[-1]["hex"]["_"][1]:
                    hexes.pop()
                scens.append(Mpx("ch-%d-%d-s%d" % (i, c, s), q, s, hexes, args, x.tobytes(), raw.note, lockin=22))
    probs += core.validate(scens, "c21", stats=stats)
    return probs


# ---------------------------------------------------------------- C24
def digest(data, text):
    if text:
        return list(data)
    return [hashlib.sha256(data[k:k + 4096]).hexdigest()[:16] + ":%d" % len(data[k:k + 4096]) for k in range(0, len(data), 4096)]


def c24_feed(ctx, exe, stats):
    """feed-through: what is printed on standard output is the input, and the lines are on standard error"""
    rng = ctx.rng
    scens, probs = [], []
    jobs = []
    def opts():
        return Opt(raw=rng.random() < .8, hex=rng.random() < .3, partial=rng.random() < .3, rbds=rng.random() < .3, bler=rng.random() < .3)

    for i in range(32 if ctx.quick else 240):
        k = i % 4
        if k == 0:
            gs = recipes.feature_groups(ctx, ["ps", "rt", "di"], 12)
            s = recipes.bit_scen("feed-bits", recipes.transmit(rng, gs, .05, cut=rng.randrange(100)), opts(), junk=rng.choice([None, .1]), rng=rng)
            data = s.items + rng.choice([b"", b"\n", b"x", b"00"])
            s.items = data
        elif k in (1, 2):
            gs = recipes.feature_groups(ctx, ["ps", "rt", "di", "slc"], 25)
            lines = [recipes.hex_line(rng, g) for g in gs] if k == 1 else [l for g in gs for l in recipes.tef_lines(rng, g)]
            s = Scenario("feed-text", "hex" if k == 1 else "tef", lines, opts())
            nl = rng.random() < .7
            data = b"\n".join(lines) + (b"\n" if nl else b"")
            s.data = (lambda d: (lambda: d))(data)
        else:
            import mpx
            gs = mpx_groups(rng, 30)
            x = mpx.signal({0: mpx.group_bits(gs)}, rate=171000, level=rng.choice([.05, .3, .9]), phase=rng.random() * 6, noise=.001, seed=rng.randrange(1000))
            import numpy as np
            x = x[:len(x) - rng.randrange(3000)]
            if rng.random() < .6:       # every sample value once, somewhere behind
                x = np.concatenate([x, np.arange(-32768, 32768).astype("<i2"), x[:rng.randrange(3000)]])
            nchan = rng.choice([1, 1, 2])
            if i % 8 == 7:              # lengths at and near the ends of blocks
                x = x[:len(x) // 8192 * 8192 // nchan * nchan + rng.choice([0, 1, 2, 3, 31, 64, 99, 512])]
            elif i % 32 == 3:
                x = x[5000:5000 + rng.choice([0, 1, 2, 5, 60, 100, 4095, 4096, 4097])]
            data = (np.repeat(x, 2) if nchan == 2 else x).tobytes()
            s = Raw("feed-pcm", ["-i", "mpx", "-r", "171000"] + rng.choice([["-x"], [], ["-R"]]) + (["-c", "2"] if nchan == 2 else []), data)
        if k != 3 and rng.random() < .5:            # a location table: its description is a line like any other
            s.env = ctx.env()
        jobs.append((k, s, data))

    def one(job):
        k, s, data = job
        args = (s._args if k == 3 else s.args())
        a = redsea.run(exe, args + [ctx.rng.choice(["-e", "--feed-through"])], data, cwd=s.env.dir if k != 3 and s.env else tlc.work())
        b = redsea.run(exe, args, data, cwd=s.env.dir if k != 3 and s.env else tlc.work())
        return a, b
    traces = []
    owners = []
    with ThreadPoolExecutor(8) as ex:
        for (k, s, data), (a, b) in zip(jobs, ex.map(one, jobs)):
            raw = s if k == 3 else Raw(s.name, s.args() + ["-e"], data)
            if k != 3:
                raw.env = s.env
            if a[0] != 0 or b[0] != 0:
                probs.append(Problem(raw, "exit", "exit status %s / %s" % (a[0], b[0])))
                continue
            traces.append(dict(fin=digest(data, k != 3), fout=digest(a[1], k != 3), lin=b[1].decode("latin-1").split("\n"), lout=a[2].decode("latin-1").split("\n")))
            owners.append(raw)
            if k != 3:
                try:
                    s.lines = [redsea.parse_line(l, s.opt.hex) for l in redsea.lines_of(a[2])]
                    if k in (1, 2):
                        pass
                    scens.append(s)
                except redsea.BadLine as e:
                    probs.append(Problem(raw, "badline", str(e)))
    bad = judge("FeedTrace", {"traces": traces}, len(traces), stats)
    for k, t in sorted(bad.items()):
        probs.append(Problem(owners[k - 1], "mismatch", t))
    probs += core.validate(scens, "c24", stats=stats)
    return probs


def c24_invalid(ctx, exe, stats):
    """every combination of option values that the model enumerates"""
    rng = ctx.rng
    r = tlc.run("MC_Options.tla", "MC_Options.cfg")
    if not r.ok:
        raise tlc.TlcError("MC_Options\n" + r.out[-3000:])
    stats.states += r.states
    stats.transitions += r.transitions
    cases = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'"CASE (.*)"', r.out)]
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    import numpy as np
    hexdata = b"".join(core.hexline([0x1234, 0x0408, 0xCDCD, 0x4142]) for _ in range(6))
    tefdata = b"P1234\nR0408CDCD414200\n" * 6
    bitdata = bits.ascii_bits([b for _ in range(6) for wd in bits.blocks_of([0x1234, 0x0408, 0xCDCD, 0x4142]) for b in bits.word_bits(wd)])
    pcm = np.zeros(200000, dtype="<i2").tobytes()
    fd, wav = tempfile.mkstemp(suffix=".wav", dir=tlc.work())
    os.close(fd)
    wav_file(wav, np.zeros(100000, dtype="<i2"), 192000)
    good = [c for c in cases if c["runs"]]
    near = []                                       # one option away from an accepted one
    for c in cases:
        o = c["o"]
        bad = (o["input"] not in ("mpx", "hex", "bits", "tef", "file")) + (o["output"] == "xml") + (o["rate"] in (-1, 1, 127999, 41000000)) + \
              (o["channels"] in (-1, 33)) + o["extra"]
        if not c["runs"] and bad <= 1:
            near.append(c)
    far = [c for c in cases if not c["runs"]]
    if ctx.quick:
        cases = rng.sample(good, 150) + rng.sample(near, 450) + rng.sample(far, 100)
    probs = []

    def one(c):
        o = c["o"]
        r2 = __import__("random").Random(json.dumps(c, sort_keys=True))
        args = []
        if o["input"] == "file":
            args += [r2.choice(["-f", "--file"]), wav]
        else:
            args += [r2.choice(["-i", "--input"]), o["input"]]
        if o["output"] != "json" or r2.random() < .5:
            args += [r2.choice(["-o", "--output"]), o["output"]]
        if o["rate"]:
            v = r2.choice(["abc", "nan", "192000x", "192kk", "k", "192 000", "0.2Mk"]) if o["rate"] < 0 else str(o["rate"])
            if o["rate"] > 0 and o["rate"] % 1000 == 0 and r2.random() < .5:
                v = "%dk" % (o["rate"] // 1000)
            if o["rate"] == 40000000 and r2.random() < .5:
                v = "40M"
            args += [r2.choice(["-r", "--samplerate"]), v]
        if o["channels"]:
            args += [r2.choice(["-c", "--channels"]), {-1: r2.choice(["abc", "-1", "0", "4294967297", "-4294967295", "-2", "2x", "1.5", "2 ", "1,2"])}.get(o["channels"], str(o["channels"]))]
        if o["streams"]:
            args.append(r2.choice(["-s", "--streams"]))
        if o["feed"]:
            args.append(r2.choice(["-e", "--feed-through"]))
        # options first or last
        if o["extra"]:
            args.append("stray")
        data = {"hex": hexdata, "bits": bitdata, "tef": tefdata}.get(o["input"], pcm)
        return args, data, redsea.run(exe, args, data)
    try:
        with ThreadPoolExecutor(8) as ex:
            for c, (args, data, (rc, out, err)) in zip(cases, ex.map(one, cases)):
                raw = Raw("option", args, data[:2000], note="the model says: %s" % ("accepted" if c["runs"] else "refused"))
                stats.accepted += 1
                if c["runs"]:
                    if rc != 0:
                        probs.append(Problem(raw, "mismatch", "accepted options end with status %s: %s" % (rc, err[-300:])))
                else:
                    said = err.strip() or b"stray" in b" ".join(a.encode() for a in args) and out
                    if rc in (0, None) or rc < 0:
                        probs.append(Problem(raw, "mismatch", "refused options end with status %s" % rc))
                    elif not said:
                        probs.append(Problem(raw, "mismatch", "no message for refused options"))
                    elif b'{"' in out or re.search(rb"^[0-9A-F]{4} [0-9A-F]{4} ", out, re.M):
                        probs.append(Problem(raw, "mismatch", "refused options, but groups were decoded"))
    finally:
        os.unlink(wav)
    ctx.samples.append(cases[0])
    return probs


# ---------------------------------------------------------------- C19
def c19(ctx, exe_asan, stats, seconds):
    """random and structured inputs of every format on the sanitised build; returns problems"""
    rng = ctx.rng
    probs = []
    end = time.time() + seconds
    total = 0
    while time.time() < end and not probs:
        jobs = []
        for _ in range(96):
            jobs.append(fuzz_case(ctx))

        def one(j):
            args, data, hexmode, env, e = j
            return redsea.run(exe_asan, args, data, env=env, cwd=e.dir if e else tlc.work(), timeout=60)
        with ThreadPoolExecutor(8) as ex:
            for j, (rc, out, err) in zip(jobs, ex.map(one, jobs)):
                args, data, hexmode, env, e = j
                total += 1
                raw = Raw("fuzz", args, data, env)
                if e:
                    raw.env = e
                feed = "-e" in args
                if rc != 0:
                    probs.append(Problem(raw, "exit", "exit status %s: %s" % (rc, err.decode("latin-1")[-1500:])))
                    continue
                text = err if feed else out
                if text and not text.endswith(b"\n"):
                    probs.append(Problem(raw, "badline", "the output does not end with a complete line"))
                try:
                    for l in redsea.lines_of(text):
                        if feed and l.startswith(b"warning:"):
                            continue
                        if hexmode and "-t" in args:
                            m = re.match(rb"^((?:#S. )?\S{4} \S{4} \S{4} \S{4})( .*)?$", l)
                            l = m.group(1) if m else l
                        redsea.parse_line(l, hexmode)
                except redsea.BadLine as e:
                    probs.append(Problem(raw, "badline", str(e)))
    stats.accepted += total - len(probs)
    ctx.fuzzed = total
    return probs


def damaged(ctx):
    if not hasattr(ctx, "_damaged"):
        ctx._damaged = [envs.damage(ctx.rng, envs.make(ctx.rng, ntables=ctx.rng.choice([1, 2]), nkeys=5)) for _ in range(60 if ctx.quick else 400)]
    return ctx._damaged


def fuzz_case(ctx):
    rng = ctx.rng
    env = {"ASAN_OPTIONS": "abort_on_error=0:detect_leaks=0:exitcode=99", "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98"}
    kind = rng.choice(["hex", "hex", "hex", "tef", "bits", "mpx", "hexraw"])
    e = None
    opt = core.rand_opt(rng, hex=rng.random() < .15, streams=False)
    args = opt.args()
    if rng.random() < .15:
        args += ["-t", rng.choice(["%c", "%f", "", "%Y-%m-%dT%H:%M:%S.%f" * 2, "\xe4%f", "%%f", "x" * 100])]
    if kind in ("hex", "hexraw"):
        g = G(rng)
        q = gen.preamble(g.pi)
        n = rng.choice([20, 100, 300])
        while len(q) < n:
            x = rng.random()
            if x < .5:
                q += recipes.feat(g, rng.choice(recipes.FEATS))
            elif x < .8:
                q += [[g.pi, rng.randrange(65536), rng.choice([rng.randrange(65536), 0xFFFF, 0]), rng.randrange(65536), rng.choice([0, 0, 0, 1, 2, 3])] for _ in range(10)]
            elif x < .9:
                a = rng.choice([gen.RTP, gen.ERTP, gen.ERT, gen.DAB, gen.TMC, gen.TMC2])
                tc = rng.choice([22, 24, 26, 16])
                q += [g.g(6, tc, rng.randrange(65536), a)] + [g.g(tc, rng.randrange(32)) for _ in range(12)]
            else:
                q += [g.c(0x2000 | rng.randrange(0x1000), rng.randrange(65536), rng.randrange(65536), rng.randrange(65536)) for _ in range(4)] + \
                     [g.rft_size(rng.randrange(16), rng.choice([1, 5, 6, 163840, 163841, 262143, rng.randrange(262144)]))]
        q = gen.lossy(rng, q)
        data = b"".join(core.hexline(x) for x in q)
        if kind == "hexraw":
            data = mutate(rng, data)
        if rng.random() < .4:
            args.append("-s")
        if rng.random() < .4:
            e = ctx.env() if rng.random() < .5 else rng.choice(damaged(ctx))
            args += e.args()
            q = gen.preamble(g.pi)
            for t in e.tables:
                q.append(g.g(6, 16, t["ltn"] << 6, gen.TMC))
                for p in rng.sample(t["points"], 12):
                    q += [g.tmc_u(8, (rng.randrange(2) << 14) | (x << 11) | 101, p[1]) for x in (0, 7)]
            data = b"".join(core.hexline(x) for x in q) + data
        args = ["-i", "hex"] + args
    elif kind == "tef":
        gs = recipes.feature_groups(ctx, ["ps", "rt", "slc", "noise", "tmc"], 60)
        data = b"".join(l + b"\n" for x in gs for l in recipes.tef_lines(rng, x))
        if rng.random() < .7:
            data = mutate(rng, data)
        args = ["-i", "tef"] + args
    elif kind == "bits":
        gs = recipes.feature_groups(ctx, ["ps", "rt", "slc", "noise", "eon"], 30)
        out = recipes.transmit(rng, [[b if b is not None else 0 for b in x[:4]] for x in gs], rng.choice([0, .1, .5]), rng.choice([0, .02]))
        data = bits.ascii_bits(out)
        if rng.random() < .5:
            data = mutate(rng, data)
        args = ["-i", "bits"] + args + (["--no-fec"] if rng.random() < .3 else [])
    else:
        n = rng.choice([0, 1, 2, 3, 100, 8191, 16384, 60000, 200001])
        data = rng.choice([lambda: rng.randbytes(n), lambda: b"\0" * n, lambda: b"\xff\x7f" * (n // 2), lambda: bytes([rng.randrange(256)]) * n])()
        args = ["-i", "mpx", "-r", rng.choice(["171000", "128000", "192k", "250k", "1M"])] + args
        c = rng.choice([1, 1, 2, 5, 32])
        if c > 1:
            args += ["-c", str(c)]
        if "-r" in args and args[3] != "128000" and rng.random() < .3:
            args.append("-s")
        if n < 100 or len(data) == 0:
            data = data + b"\0" * 50000
    if rng.random() < .1:
        args.append("-e")
    return args, data, opt.hex, env, e


def mutate(rng, data):
    q = bytearray(data)
    for _ in range(rng.choice([1, 5, 30, 200])):
        if not q:
            break
        k = rng.randrange(len(q))
        x = rng.random()
        if x < .4:
            q[k] = rng.randrange(256)
        elif x < .6:
            q[k] = rng.choice(b"0123456789ABCDEF-# \nPRS\r\0")
        elif x < .75:
            del q[k:k + rng.choice([1, 1, 4, 40])]
        elif x < .9:
            q[k:k] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 1, 5])))
        else:
            j = rng.randrange(len(q))
            q[k:k] = q[j:j + rng.randrange(80)]
    return bytes(q)


# ---------------------------------------------------------------- C28: output keeps up with the input
import fcntl, termios, array


def waits(pid, fd):
    """the program has taken everything from its standard input and all its threads sleep"""
    a = array.array("i", [0])
    fcntl.ioctl(fd, termios.FIONREAD, a)
    if a[0]:
        return False
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            with open("/proc/%d/task/%s/stat" % (pid, t)) as f:
                if f.read().rsplit(")", 1)[1].split()[0] != "S":
                    return False
    except OSError:
        return True                 # has ended
    return True


def watch(exe, args, pieces, cwd, stream="out", settle=0.0):
    """give the pieces one by one; after each wait until the program waits for more.
    Returns (exit status, output, number of lines printed after each piece)"""
    rest = tempfile.TemporaryFile(dir=tlc.work())
    p = subprocess.Popen([exe] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE if stream == "out" else rest,
                         stderr=subprocess.PIPE if stream == "err" else rest, env=redsea.ENV, cwd=cwd, bufsize=0)
    o = p.stdout if stream == "out" else p.stderr
    os.set_blocking(o.fileno(), False)
    buf = bytearray()
    counts = []

    def drain():
        n = len(buf)
        while True:
            try:
                d = os.read(o.fileno(), 65536)
            except BlockingIOError:
                break
            if not d:
                break
            buf.extend(d)
        return len(buf) > n
    try:
        for piece in pieces:
            k = 0
            while k < len(piece):                       # (never more than a pipe holds at a time)
                p.stdin.write(piece[k:k + 32768])
                k += 32768
                if k < len(piece):
                    limit = time.time() + 60
                    while not waits(p.pid, p.stdin.fileno()) and time.time() < limit and p.poll() is None:
                        drain()
                        time.sleep(.0005)
            limit = time.time() + 60
            calm = 0
            since = time.time()
            while time.time() < limit and p.poll() is None:
                if drain() or not waits(p.pid, p.stdin.fileno()):
                    calm, since = 0, time.time()
                else:
                    calm += 1
                    if calm >= 3 and time.time() - since >= settle:
                        break
                time.sleep(.0005)
            drain()
            counts.append(buf.count(b"\n"))
        p.stdin.close()
        limit = time.time() + 60
        while p.poll() is None and time.time() < limit:
            drain()
            time.sleep(.001)
        drain()
        rc = p.poll()
    except BrokenPipeError:
        rc = p.wait(20)
        drain()
    finally:
        if p.poll() is None:
            p.kill()
        p.wait()
        for f in (p.stdin, o):
            try:
                f.close()
            except OSError:
                pass
        rest.close()
    return rc, bytes(buf), counts


def cut_pieces(rng, data, marks):
    """cut data at some of the marks (mostly) and at other places"""
    at = set()
    style = rng.choice(["all", "some", "some", "odd"])
    for m in marks:
        if style == "all" or rng.random() < .5:
            at.add(m)
        if style == "odd" and rng.random() < .7 or rng.random() < .1:
            at.add(max(0, min(len(data), m + rng.choice([-1, 1, -2, 7, -13]))))
    at = sorted(at - {0, len(data)})
    return [data[a:b] for a, b in zip([0] + at, at + [len(data)])]


class Live(Scenario):
    """a scenario whose input arrived in pieces; seen: see LiveTrace.tla"""
    pieces = seen = ()
    stream = "out"


def live_run(exe, s, settle=0.0):
    rc, out, counts = watch(exe, s.args() + (["-e"] if s.stream == "err" else []), s.pieces, s.env.dir if s.env else tlc.work(), s.stream, settle)
    s.rc, s.stdout, s.stderr = rc, out, b""
    s.lines = None
    if rc != 0:
        return [Problem(s, "exit", "exit status %s" % rc)]
    try:
        s.lines = [redsea.parse_line(l, s.opt.hex) for l in redsea.lines_of(out)]
    except redsea.BadLine as e:
        return [Problem(s, "badline", str(e))]
    if s.kind == "mpx" and s.lines and "-" in str(s.lines[-1]):        # the signal ends within a group
        s.lines.pop()
    given = 0
    s.seen = []
    for piece, c in zip(s.pieces, counts):
        given += len(piece)
        lo, hi = s.given(given)
        s.seen.append([lo, hi, c])
    return []


def given_text(data):
    def f(n):
        k = data[:n].count(b"\n")
        return k, k
    return f


def given_bits(data):
    def f(n):
        k = sum(1 for c in data[:n] if c in (48, 49))
        return k, k
    return f


def given_mpx(rate, delay=.5):
    def f(n):
        t = n / 2 / rate
        d = 104 / 1187.5
        return max(0, int((t - delay) / d)), int(t / d + .5)
    return f


def c28_batch(ctx, i0, n):
    import mpx
    rng = ctx.rng
    out = []
    for i in range(i0, i0 + n):
        k = ["hex", "bits", "tef", "hex", "bits", "mpx"][i % 6]
        opt = core.rand_opt(rng, streams=rng.random() < .2 and k == "hex", hex=rng.random() < .25)
        g = G(rng)
        feats = rng.sample(recipes.FEATS, 3)
        env = ctx.env() if rng.random() < .15 and k != "mpx" else None
        gs = gen.preamble(g.pi)
        while len(gs) < 40:
            gs += recipes.feat(g, rng.choice(feats))
        if k == "hex":
            lines = [recipes.hex_line(rng, x) for x in gs] if i % 12 else [core.hexline(x)[:-1] for x in gs]
            s = Live("live-hex", "hex", lines, opt, env=env)
        elif k == "tef":
            s = Live("live-tef", "tef", [l for x in gs for l in recipes.tef_lines(rng, x)], opt, env=env)
        elif k == "bits":
            opt.fec = rng.random() < .7
            b = recipes.transmit(rng, [[y if y is not None else 0 for y in x[:4]] for x in gs[:24]], rng.choice([0, .05]), lead=rng.choice([0, 0, 60]))
            s0 = recipes.bit_scen("live-bits", b, opt, junk=rng.choice([None, None, .1]), rng=rng)
            s = Live("live-bits", "bits", s0.items, opt, env=env)
        else:
            rate = rng.choice([171000, 171000, 128000, 192000, 250000])
            q = mpx_groups(rng, 44)
            s = Live("live-mpx", "mpx", [x + [0] for x in q], Opt(hex=True))
            s.pcm = mpx.signal({0: mpx.group_bits(q)}, rate=rate, level=rng.choice([.03, .1]), phase=rng.random() * 6, pilot=rng.choice([0, .09])).tobytes()
            s.lockin, s.need = 20, len(q) - 3
            s.args = (lambda a: lambda: a)(["-i", "mpx", "-r", str(rate), "-o", "hex"])
            s.data = (lambda d: lambda: d)(s.pcm)
            s.describe = (lambda s: lambda: dict(name=s.name, kind="mpx", args=s.args(), note="rate %s" % s.args()[3], groups=s.items, input=""))(s)
            s.given = given_mpx(rate)
            size = rng.choice([.05, .1, .2])
            marks = [int(rate * size * j) * 2 for j in range(1, int(len(s.pcm) / 2 / rate / size) + 1)]
            s.pieces = cut_pieces(rng, s.pcm, marks)
        if k != "mpx":
            data = s.data()
            if k != "bits" and not data.endswith(b"\n"):
                data += b"\n"
                s.data = (lambda d: lambda: d)(data)
            if k == "bits":
                marks, c = [], 0
                first = rng.randrange(104)
                for j, ch in enumerate(data):
                    if ch in (48, 49):
                        c += 1
                        if c % 26 == 0 or c % 104 == first:
                            marks.append(j + 1)
                s.given = given_bits(data)
            else:
                marks = [j + 1 for j, ch in enumerate(data) if ch == 10]
                s.given = given_text(data)
            s.pieces = cut_pieces(rng, data, marks)
            if i % 5 == 4:
                s.stream = "err"
        out.append(s)
    return out


def live_validate(scens, stats):
    todo = [s for s in scens if s.lines is not None]
    if not todo:
        return []
    traces = []
    for s in todo:
        traces.append(dict(opt=s.opt.rec(), env=1, inp=s.inp(), out=s.lines, all=True, keys={}, seen=s.seen))
    envs = [core.NOENV]
    for t, s in zip(traces, todo):
        if s.env:
            envs.append(s.env.rec())
            t["env"] = len(envs)
    bad = core.judge_traces(dict(traces=traces, envs=envs), todo, "LiveTrace", "live", stats)
    return bad


def c28(ctx, exe, stats, late):
    probs = []
    ctx.fuzzed = 0
    first = True
    i = 0
    while first or not late():
        first = False
        scens = c28_batch(ctx, i, 48)
        i += 48
        with ThreadPoolExecutor(6) as ex:
            bad = [p for q in ex.map(lambda s: live_run(exe, s), scens) for p in q]
        ctx.fuzzed += len(scens)
        bad += live_validate(scens, stats)
        if bad:
            # what counts is what happens again when the program is given plenty of time
            again = [p.scen for p in bad][:6]
            with ThreadPoolExecutor(6) as ex:
                probs = [p for q in ex.map(lambda s: live_run(exe, s, .4), again) for p in q]
            probs += live_validate(again, stats)
            if probs:
                return probs
        if len(ctx.samples) < 3:
            s = scens[0]
            ctx.samples.append(dict(args=s.args(), pieces=len(s.pieces), seen=s.seen[:20], lines=len(s.lines or [])))
    return probs
