"""Run TLC."""
import os, re, subprocess, time, shutil, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


class Result:
    pass


def run(module, cfg, env=None, workers=8, timeout=800, heap="8g", extra=(), workdir=None):
    """Returns a Result with .out, .states (distinct), .transitions, .violated, .ok"""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=workdir or work())
    e = dict(os.environ)
    e["RDS_TABLES"] = os.path.join(SPEC, "tables.json")
    e["RDS_CODE"] = os.path.join(SPEC, "code.json")
    if env:
        e.update(env)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet",
           "-cp", CP, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
           "-config", cfg, *extra, module]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TlcError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Result()
    r.out = p.stdout.decode("utf-8", "replace")
    r.rc = p.returncode
    r.wall = time.time() - t
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
    r.transitions, r.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    r.violated = re.findall(r"Invariant (\S+) is violated|Action property (\S+) is violated|property (\S+) (?:is|was) violated", r.out)
    r.violated += re.findall(r"The invariant of (\S+) is equal to FALSE", r.out)
    r.ok = "Model checking completed. No error has been found." in r.out
    return r


def work():
    d = os.path.join(HERE, ".work")
    os.makedirs(d, exist_ok=True)
    return d
