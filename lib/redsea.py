"""Run the real redsea and turn its output lines into the values of the specification."""
import base64, json, os, re, subprocess

TEXT_TOP = {"ps", "partial_ps", "radiotext", "partial_radiotext", "long_ps", "partial_long_ps",
            "pty_name", "enhanced_radiotext"}
TEXT_SUB = {("other_network", "ps"), ("tmc", "service_provider"),
            ("transparent_data", "as_text"), ("transparent_data", "full_text")}
TAG_RE = re.compile(r"^tags\.\d+\.data$")
COORD_RE = re.compile(r"^message\.coordinates\.\d+\.(lat|lon)$")


class BadLine(Exception):
    pass


def _dup(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise BadLine("duplicate key " + k)
        d[k] = v
    return d


def _value(top, path, v):
    if isinstance(v, bool):
        return ["b", "true" if v else "false"]
    if isinstance(v, int):
        if COORD_RE.match(path) and top == "tmc":
            return ["g", v * 100000]
        return ["i", str(v)]
    if isinstance(v, float):
        if COORD_RE.match(path) and top == "tmc":
            return ["g", int(round(v * 1e5))]
        return ["f", repr(v)]
    if isinstance(v, str):
        if (path == "_" and top in TEXT_TOP) or (top, path) in TEXT_SUB or \
           (top in ("radiotext_plus", "ert_plus") and TAG_RE.match(path)):
            return ["t", list(v.encode("utf-8"))]
        if top == "rft" and path == "data.file_contents":
            try:
                return ["t", list(base64.b64decode(v, validate=True))]
            except Exception:
                return ["s", "(bad base64) " + v]
        return ["s", v]
    if v is None:
        return ["n", "null"]
    raise BadLine("value %r" % (v,))


def _flatten(top, v, path, out):
    if isinstance(v, dict):
        if not v:
            out[path or "_"] = ["o", "empty"]
        for k in v:
            _flatten(top, v[k], (path + "." + k) if path else k, out)
    elif isinstance(v, list):
        if v and all(isinstance(e, dict) for e in v):
            for n, e in enumerate(v):
                _flatten(top, e, (path + "." if path else "") + str(n), out)
        else:
            q = []
            for e in v:
                t = _value(top, path + "[]", e)
                q.append(t[0] + ":" + str(t[1]))
            out[path or "_"] = ["a", q]
    else:
        out[path or "_"] = _value(top, path or "_", v)


HEX_RE = re.compile(r"^(#S[123] )?([0-9A-F]{4}|----)( ([0-9A-F]{4}|----)){3}$")


def parse_line(raw, hexmode=False):
    """bytes -> line of the specification.  Raises BadLine if it isn't a valid line."""
    try:
        s = raw.decode("utf-8")
    except UnicodeDecodeError:
        raise BadLine("not UTF-8: %r" % raw)
    if hexmode:
        if not HEX_RE.match(s):
            raise BadLine("not a hex line: %r" % s)
        return {"hex": {"_": ["s", s]}}
    try:
        d = json.loads(s, object_pairs_hook=_dup)
    except ValueError as e:
        raise BadLine("not JSON (%s): %r" % (e, s))
    if not isinstance(d, dict):
        raise BadLine("not an object: %r" % s)
    line = {}
    for top in d:
        if top == "debug":
            continue
        if d[top] == [] and top == "tags":
            continue
        out = {}
        _flatten(top, d[top], "", out)
        line[top] = out
    return line


ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC"}


def run(exe, args, data, env=None, timeout=60, cwd=None):
    e = dict(ENV)
    if env:
        e.update(env)
    try:
        p = subprocess.run([exe] + args, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=e, timeout=timeout, cwd=cwd)
    except subprocess.TimeoutExpired:
        return None, b"", b"timeout"
    return p.returncode, p.stdout, p.stderr


def lines_of(out):
    if not out:
        return []
    q = out.split(b"\n")
    if q[-1] == b"":
        q.pop()
    return q
