"""The model-checking runs (spec/MC_*.tla) and the behaviours taken from them.

A walk model (one that EXTENDS Walk) has its claims checked by TLC on every sequence of groups from its
alphabet, up to a bound or until no new state appears; its transitions are also printed, and walks that
go through all of them (or a random part) are fed to redsea and judged by Trace.tla."""
import collections, json, os, random, re
import bits, core, envs, tlc

# model -> (bound for quick, bound for thorough [None: to the end], bound for replay quick, thorough)
WALKS = {
    "MC_Ps": (6, None, 4, 6),
    "MC_Pi": (6, 9, 5, 7),
    "MC_Af": (3, 5, 3, 4),
    "MC_Rt": (5, 7, 4, 5),
    "MC_Eon": (4, 6, 3, 5),
    "MC_Oda": (5, 8, 4, 6),
    "MC_Tmc": (None, None, 12, None),
    "MC_Enc": (None, None, 12, None),
    "MC_Rft": (5, 7, 4, 5),
    "MC_Mix": (3, 4, 3, 4),
    "MC_Sync": (3, 6, 3, 5),
    "MC_Bler": (5, 9, 5, 7),
    "MC_Tdc": (6, None, 5, 8),
}
FOR = {
    "C01": ["MC_Fec"], "C02": ["MC_Sync"], "C03": ["MC_Pi"], "C04": ["MC_Hex"], "C05": ["MC_Hex"], "C06": ["MC_Loss"],
    "C07": ["MC_Word:flags"], "C08": ["MC_Ps"], "C09": ["MC_Rt"], "C10": ["MC_Rt"], "C11": ["MC_Af"], "C12": ["MC_Cal"],
    "C13": ["MC_Oda"], "C14": ["MC_Eon", "MC_Word:eon"], "C15": ["MC_Tmc"], "C16": ["MC_Enc"], "C17": ["MC_Rft"], "C18": ["MC_Bler"],
    "C19": ["MC_Loss"], "C20": ["MC_Rx"], "C21": ["MC_Mix"], "C22": ["MC_Word:slc"], "C23": ["MC_Tdc"], "C25": ["MC_Call"],
    "C26": ["MC_Ps", "MC_Mix"], "C27": [], "C28": ["MC_Live:hex", "MC_Live:tef", "MC_Live:bits"],
}
REPLAY = {p: [m for m in ms if m in WALKS] for p, ms in FOR.items()}
REPLAY["C06"] = REPLAY["C24"] = ["MC_Mix"]


def run(name, ctx, bound=None, emit=False, timeout=800):
    env = {}
    full = name
    if ":" in name:
        name, env["RDS_WHICH"] = name.split(":")
    if ctx.quick:
        env["RDS_SMALL"] = "1"
    if name in WALKS and not emit:
        bound = WALKS[name][0 if ctx.quick else 1]
    if name == "MC_Live":
        bound = {"hex": (4, 6), "tef": (4, 7), "bits": (6, 9)}[env["RDS_WHICH"]][0 if ctx.quick else 1]
    if bound:
        env["RDS_BOUND"] = str(bound)
    if emit:
        env["RDS_EMIT"] = "1"
    cfg = name + ".cfg" if os.path.exists(os.path.join(tlc.SPEC, name + ".cfg")) else "MC.cfg"
    r = tlc.run(name + ".tla", cfg, env=env, timeout=timeout)
    if not r.ok:
        raise tlc.TlcError("%s: %s\n%s" % (name, r.violated, r.out[-4000:]))
    r.summary = dict(model=full, bound=bound or "all reachable states", states=r.states, transitions=r.transitions,
                     wall_s=round(r.wall, 1))
    return r


class Graph:
    def __init__(self, out):
        self.setup = None
        self.edges = collections.defaultdict(dict)       # node -> input -> node
        first = None
        for line in out.splitlines():
            if line.startswith('"EDGE '):
                _, a, i, b = line.strip('"').split()
                if first is None:
                    first = a
                self.edges[a][int(i)] = b
            elif line.startswith('"SETUP '):
                self.setup = json.loads(line[7:-1].replace('\\"', '"'))
        self.start = first
        # with several workers the first edge printed may not be the initial state's
        targets = {b for e in self.edges.values() for b in e.values()}
        roots = [a for a in self.edges if a not in targets]
        if len(roots) == 1:
            self.start = roots[0]

    def walks(self, rng, limit, length):
        """lists of inputs that together take every transition (at most limit of them)"""
        todo = {a: list(e) for a, e in self.edges.items()}
        for v in todo.values():
            rng.shuffle(v)
        # reachable part in breadth-first order, with the way there
        way = {self.start: []}
        order = [self.start]
        for a in order:
            for i, b in sorted(self.edges.get(a, {}).items()):
                if b not in way:
                    way[b] = way[a] + [i]
                    order.append(b)
        done = 0
        heads = [a for a in order if todo.get(a)]
        rng.shuffle(heads)
        for a in heads:
            while todo.get(a) and done < limit:
                w = list(way[a])
                at = a
                while at is not None and len(w) < length:
                    if todo.get(at):
                        i = todo[at].pop()
                        done += 1
                    else:
                        near = self._near(at, todo)
                        if near is None:
                            break
                        for i in near:
                            w.append(i)
                            at = self.edges[at][i]
                        continue
                    w.append(i)
                    at = self.edges[at][i]
                yield w
            if done >= limit:
                return

    def _near(self, a, todo, far=200):
        seen = {a: []}
        q = collections.deque([a])
        while q and len(seen) < far:
            x = q.popleft()
            for i, y in self.edges.get(x, {}).items():
                if y in seen:
                    continue
                seen[y] = seen[x] + [i]
                if todo.get(y):
                    return seen[y]
                q.append(y)
        return None


def opt_of(rec):
    o = core.Opt()
    for k in ("partial", "rbds", "streams", "raw", "bler", "hex", "fec"):
        setattr(o, k, rec[k])
    return o


def group(g):
    return [None if x < 0 else x for x in g["b"]] + [g["stream"]]


def replay(name, ctx, run_, keys=None):
    """batches of scenarios that take redsea through the transitions of the model"""
    w = WALKS[name]
    r = run(name, ctx, bound=w[2 if ctx.quick else 3], emit=True)
    gr = Graph(r.out)
    total = sum(len(e) for e in gr.edges.values())
    limit = (300 if name == "MC_Sync" else 6000) if ctx.quick else 60000
    rng = random.Random("%s/%s/%s" % (name, ctx.prop, ctx.seed))
    make = sync_scens if name == "MC_Sync" else group_scens
    walks = list(gr.walks(rng, limit, 400))
    run_.models.append(dict(model=name, replayed_transitions=min(total, limit), of=total, inputs=sum(map(len, walks)),
                            bound=r.summary["bound"]))
    scens = list(make(name, gr.setup, walks, keys))
    step = 100
    for k in range(0, len(scens), step):
        yield scens[k:k + step]


class KeyEnv(envs.Env):
    def __init__(self, rows):
        envs.Env.__init__(self, rows, [], random.Random(1))


def group_scens(name, s, walks, keys=None):
    alpha = [group(g) for g in s["alphabet"]]
    prelude = [group(g) for g in s["prelude"]]
    keys = keys or s["keys"]
    env = KeyEnv(s["rows"]) if s.get("rows") else None

    def scen(k, gs):
        return core.Scenario("%s-walk-%d" % (name, k), "groups", [list(g) for g in gs], opt_of(s["opt"]), keys=keys, env=env)
    if not prelude:                                  # the model begins with the program
        for k, wk in enumerate(walks):
            yield scen(k, [alpha[i - 1] for i in wk])
        return
    other = prelude[0][0] ^ 0x1f3f                   # another station in between: everything starts afresh
    reset = [[other, 0x6000, 0, 0, 0]] * 3 + prelude
    gs, k = list(prelude), 0
    for wk in walks:
        gs += [alpha[i - 1] for i in wk]
        if len(gs) > 400:
            yield scen(k, gs)
            gs, k = list(prelude), k + 1
        else:
            gs += reset
    yield scen(k, gs)


def sync_scens(name, s, walks, keys=None):
    for k, wk in enumerate(walks):
        out, phase = [], 0
        for i in wk:
            kind, n = s["steps"][i - 1]
            if kind == "slip":
                out.append(0)
            elif kind == "jump":
                phase = (phase + n) % 4
            else:
                for _ in range(n):
                    out += bits.word_bits(s["bad"] if kind == "bad" else s[kind][phase])
                    phase = (phase + 1) % 4
        yield core.Scenario("%s-walk-%d" % (name, k), "bits", bits.ascii_bits(out), core.Opt(fec=False, hex=k % 2 == 0, bler=True, raw=True),
                            keys=["*"])
