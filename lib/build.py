"""Build the redsea binary from /repo's current working tree (content-hashed cache under /verif/.build)."""
import hashlib, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("REDSEA_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, ".build")
CXX = "clang++-18" if shutil.which("clang++-18") else ("clang++" if shutil.which("clang++") else "g++")

PLAIN = ["-O1", "-g0"]
ASAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
        "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]


class BuildError(Exception):
    pass


def _sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            out.append(os.path.join(root, f))
    for root, dirs, files in os.walk(os.path.join(REPO, "ext")):
        dirs.sort()
        for f in sorted(files):
            out.append(os.path.join(root, f))
    return out


def build(kind="plain"):
    flags = PLAIN if kind == "plain" else ASAN
    srcs = _sources()
    h = hashlib.sha256()
    h.update(repr((CXX, flags)).encode())
    for s in srcs:
        h.update(os.path.relpath(s, REPO).encode() + b"\0")
        with open(s, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    key = kind + "-" + h.hexdigest()[:20]
    outdir = os.path.join(CACHE, key)
    exe = os.path.join(outdir, "redsea")
    if os.path.exists(exe):
        os.utime(outdir)
        return exe
    os.makedirs(CACHE, exist_ok=True)
    # keep the cache small
    olds = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE)), key=os.path.getmtime)
    for d in olds[:-8]:
        shutil.rmtree(d, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="b-", dir=CACHE)
    with open(os.path.join(tmp, "config.h"), "w") as f:
        f.write('#pragma once\n#define VERSION "1.2.0"\n')
    base = [CXX, "-std=c++14", "-w", "-DMODEM_IS_MODEMCF", "-D_FILE_OFFSET_BITS=64",
            "-I" + tmp, "-I" + REPO] + flags
    ccs = sorted([s for s in srcs if s.endswith((".cc", ".cpp", ".cxx")) and s.startswith(os.path.join(REPO, "src"))],
                 key=lambda s: -os.path.getsize(s))
    prio = ("tmc.cc", "groups.cc", "channel.cc", "redsea.cc")
    ccs.sort(key=lambda s: prio.index(os.path.basename(s)) if os.path.basename(s) in prio else 99)

    def comp(s):
        o = os.path.join(tmp, os.path.relpath(s, REPO).replace("/", "_") + ".o")
        r = subprocess.run(base + ["-c", s, "-o", o], capture_output=True, text=True)
        return (s, o, r)

    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(comp, ccs))
    for s, o, r in res:
        if r.returncode != 0:
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError("compile failed: %s\n%s" % (s, r.stderr[-4000:]))
    link = [CXX] + [f for f in flags if f.startswith("-fsan") or f.startswith("-O")] + \
        [o for _, o, _ in res] + ["-o", os.path.join(tmp, "redsea"), "-lliquid", "-lsndfile"]
    r = subprocess.run(link, capture_output=True, text=True)
    if r.returncode != 0:
        shutil.rmtree(tmp, ignore_errors=True)
        raise BuildError("link failed\n" + r.stderr[-4000:])
    for _, o, _ in res:
        os.unlink(o)
    try:
        os.rename(tmp, outdir)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(sys.argv[1] if len(sys.argv) > 1 else "plain"), round(time.time() - t, 1))
