#!/opt/veriftools/pyvenv/bin/python3
"""Decide one property of redsea with the TLA+ specification.

  check.py --property C08            (VERIF_TIER=quick|thorough, VERIF_SEED=n)
  check.py --replay replays/x.json   run a reported case again and judge it

Exit 0: held on everything explored.  1: VIOLATION line printed.  2: the check itself failed.
"""
import argparse, json, os, sys, time, traceback, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build as buildmod, core, recipes, redsea, special, tlc, models

LIMIT = {"quick": 30, "thorough": 500}      # seconds (after the build) after which no new batch is begun


def note(*a):
    print(*a, flush=True)


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = self.t1 = time.time()
        self.stats = core.Validation()
        with open(os.path.join(HERE, "spec", "tables.json")) as f:
            self.ctx = recipes.Ctx(prop, tier, seed, json.load(f))
        self.ctx.samples = []
        self.executed = 0
        self.groups = 0
        self.models = []
        self.exhaustive = []

    def elapsed(self):
        return time.time() - self.t0

    def late(self):
        return time.time() - self.t1 > LIMIT[self.tier]

    # -- batches of scenarios
    def batches(self, gen, exe):
        for batch in gen:
            probs = self.batch(batch, exe)
            if probs:
                return probs
            if self.late():
                break
        return []

    def batch(self, batch, exe):
        self.executed += len(batch)
        probs = core.execute(exe, batch)
        probs += core.validate(batch, self.prop, stats=self.stats)
        self.groups += sum(s.steps() for s in batch)
        if len(self.ctx.samples) < 3:
            for s in batch[::max(1, len(batch) // 2)][:2]:
                d = s.describe()
                d["input"] = d["input"][:600]
                d["output"] = (s.stdout or b"").decode("latin-1")[:600]
                self.ctx.samples.append(d)
        return self.confirm(probs, exe)

    def confirm(self, probs, exe):
        """a run that was cut short (time limit, killed) counts only if it happens again"""
        out = []
        for p in probs:
            if p.what == "exit" and getattr(p.scen, "rc", 1) in (None, -9):
                q = core.execute(exe, [p.scen], timeout=240)
                if not q:
                    q = core.validate([p.scen], self.prop, stats=self.stats)
                out += q
            else:
                out.append(p)
        return out

    def model(self, name):
        r = models.run(name, self.ctx)
        self.models.append(r.summary)
        self.stats.states += r.states
        self.stats.transitions += r.transitions
        return r

    # -- the whole check
    def go(self):
        prop, ctx = self.prop, self.ctx
        exe = buildmod.build("plain") if prop != "C19" else None
        self.t1 = time.time()
        quick = self.tier == "quick"
        probs = []
        for name in models.FOR.get(prop, ()):
            self.model(name)
        self.t1 = time.time()
        for name in models.REPLAY.get(prop, ()):
            probs += self.batches(models.replay(name, ctx, self), exe)
            if probs:
                return probs
        self.t1 = time.time()
        if prop == "C19":
            exe = buildmod.build("asan")
            self.t1 = time.time()
            probs = special.c19(ctx, exe, self.stats, 25 if quick else 400)
            self.executed += ctx.fuzzed
            if not probs:
                self.t1 = time.time() - (LIMIT["quick"] - 15 if quick else 250)
                probs = self.batches(recipes.c19_structured(ctx), exe)
        elif prop == "C20":
            probs = special.c20(ctx, exe, self.stats)
            self.executed += ctx.fuzzed
        elif prop == "C21":
            probs = special.c21_mpx(ctx, exe, self.stats)
            if not probs:
                probs = self.batches(recipes.c21_hex(ctx), exe)
        elif prop == "C24":
            probs = special.c24_invalid(ctx, exe, self.stats)
            if not probs:
                probs = special.c24_feed(ctx, exe, self.stats)
            if not probs:
                probs = self.batches(recipes.c24_options(ctx), exe)
        elif prop == "C25":
            probs = special.c25(ctx, exe, self.stats)
            if not probs:
                probs = self.batch(recipes.c25_sample(ctx), exe)
        elif prop == "C28":
            probs = special.c28(ctx, exe, self.stats, self.late)
            self.executed += ctx.fuzzed
        elif prop == "C27":
            probs = special.c27(ctx, exe, self.stats)
            self.executed += ctx.fuzzed
        elif prop == "C03":
            probs = special.carrier_lost(ctx, exe, self.stats, 4 if quick else 40)
            self.executed += ctx.fuzzed
            if not probs:
                probs = self.batches(recipes.c03(ctx), exe)
        else:
            probs = self.batches(getattr(recipes, prop.lower())(ctx), exe)
        if not probs and prop in recipes.WORDS:
            self.t1 = time.time() - (LIMIT["quick"] - 12 if quick else 200)
            probs = self.batches(recipes.words(ctx, prop), exe)
        return probs

    def evidence(self, nviol):
        d = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                 coverage=dict(states=self.stats.states, transitions=self.stats.transitions,
                               traces_validated_against_impl=self.stats.accepted,
                               implementation_runs=self.executed, input_items=self.groups,
                               models=self.models, samples=self.ctx.samples[:4]),
                 assumptions=["spec/*.tla says what redsea should do; its tables (spec/tables.json, spec/code.json) were taken from the standards' "
                              "tables in the source at the verified commit",
                              "runs are sampled from generated inputs except where the model enumerates them"],
                 wall_s=round(self.elapsed(), 1), violations=nviol)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(d, f, indent=1)

    def report(self, probs):
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s-%s.json" % (self.prop, self.tier, self.seed))
        cases = []
        for p in probs[:5]:
            s = p.scen
            d = dict(what=p.what, detail=p.detail, run=s.describe())
            if isinstance(s, core.Scenario) and s.kind != "mpx":
                d["spec"] = s.spec_record()
                d["files"] = s.env.files() if s.env else {}
            cases.append(d)
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, cases=cases, total=len(probs)), f, indent=1)
        for p in probs[:3]:
            note("%s: %s: %s" % (p.what, p.scen.name, p.detail[:1200]))
        note("VIOLATION property=%s replay=%s" % (self.prop, path))


def replay(path):
    """run the cases of a replay file with the current build; 1 if one is still rejected"""
    with open(path) as f:
        d = json.load(f)
    exe = buildmod.build("asan" if d["property"] == "C19" else "plain")
    bad = 0
    for c in d["cases"]:
        r = c["run"]
        note("--", r["name"], " ".join(r["args"]))
        if "spec" not in c:
            if r.get("input"):
                rc, out, err = redsea.run(exe, r["args"], r["input"].encode("latin-1"), env=r.get("env"))
                note("exit status", rc)
                sys.stdout.buffer.write(out[:4000] + err[-2000:])
            note(c["detail"][:2000])
            continue
        s = core.Replayed(r, c["spec"], c["files"])
        try:
            probs = core.execute(exe, [s])
            probs += core.validate([s], "replay")
        finally:
            s.close()
        for p in probs:
            bad = 1
            note("%s: %s" % (p.what, p.detail))
        if not probs:
            note("accepted")
    return bad


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    run = Run(a.property, tier, seed)
    try:
        probs = run.go()
    except (tlc.TlcError, buildmod.BuildError) as e:
        note("ERROR (the check could not be carried out): %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.ctx.close()
    run.evidence(len(probs))
    if probs:
        run.report(probs)
        return 1
    note("%s holds on everything explored: %d runs of redsea, %d traces accepted, %d states, %.0f s" %
         (a.property, run.executed, run.stats.accepted, run.stats.states, run.elapsed()))
    return 0


if __name__ == "__main__":
    sys.exit(main())
