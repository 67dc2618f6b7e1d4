#!/usr/bin/env python3
"""One-off: freeze the code tables of the pinned tree into spec/tables.json.

The tables (character set, names, event list, ...) are data of the RDS standards, not behaviour;
the specification reads the frozen copy, so a later change of a table in /repo is a mismatch.
Not run by any check."""
import json, re, sys, os
REPO = sys.argv[1] if len(sys.argv) > 1 else "/repo"
def src(p): return open(os.path.join(REPO, p), encoding="utf-8").read()
LIT = re.compile(r'"((?:[^"\\]|\\.)*)"')
def unesc(s):
    out = ""
    i = 0
    while i < len(s):
        if s[i] == "\\":
            c = s[i+1]
            if c == "u":
                out += chr(int(s[i+2:i+6], 16)); i += 6; continue
            out += {"n": "\n", "r": "\r", "t": "\t", '"': '"', "\\": "\\", "'": "'"}[c]; i += 2; continue
        out += s[i]; i += 1
    return out
def lits(t): return [unesc(m) for m in LIT.findall(t)]
def between(t, a, b):
    i = t.index(a); j = t.index(b, i + len(a)); return t[i+len(a):j]
T = {}
t = src("src/text/rdsstring.cc")
g0 = lits(between(t, "codetable_G0({", "});"))
assert len(g0) == 256, len(g0)
T["g0"] = [list(c.encode("utf-8")) for c in g0]
t = src("src/tables.cc")
T["pty"] = lits(between(t, "pty_names{", "};"))
T["ptyRbds"] = lits(between(t, "pty_names_rbds{", "};"))
assert len(T["pty"]) == 32 and len(T["ptyRbds"]) == 32
cc = between(t, "country_codes{", "  };")
T["country"] = {}
for m in re.finditer(r"\{0x([0-9A-F]{2}),\s*\{([^}]*)\}\}", cc):
    l = lits(m.group(2)); assert len(l) == 15
    T["country"][str(int(m.group(1), 16))] = l
assert len(T["country"]) == 20, len(T["country"])
T["lang"] = lits(between(t, "languages{", "};")); assert len(T["lang"]) == 128
T["app"] = {str(int(a, 16)): unesc(b) for a, b in re.findall(r'\{0x([0-9A-F]{4}), "((?:[^"\\]|\\.)*)"\}', between(t, "oda_apps{", "};"))}
T["rtplus"] = lits(between(t, "content_type_names{", "};"))
assert len(T["rtplus"]) in (64, 65, 66), len(T["rtplus"])
T["call3"] = {str(int(a, 16)): unesc(b) for a, b in re.findall(r'\{0x([0-9A-F]{4}), "((?:[^"\\]|\\.)*)"\}', between(t, "three_letter_codes{", "};"))}
T["callLinked"] = {str(int(a, 16)): unesc(b) for a, b in re.findall(r'\{0x([0-9A-F]{4}), "((?:[^"\\]|\\.)*)"\}', between(t, "linked_station_codes{", "};"))}
t = src("src/groups.cc")
T["dab"] = {a.replace("'", ""): b for a, b in re.findall(r"\{\s*([0-9']+),\s*\"([^\"]+)\"\}", between(t, "dab_channels({", "});"))}
assert len(T["dab"]) >= 38 + 20, len(T["dab"])
t = src("src/tmc/events_data.cc")
ev = lits(between(t, "tmc_data_events{", '" };') + '"')
titles = ev[0].split(";")
E = {}
for line in ev[1:]:
    f = line.split(";")
    assert len(f) >= 9, line
    r = dict(zip(titles, f + [""] * (len(titles) - len(f))))
    try:
        code = int(r["Code"]); uc = int(r["C"])
    except ValueError:
        continue
    q = r["Description with Q"]
    E[str(code)] = {
        "d": r["Description"], "q": q.split("(Q)") if q else [],
        "qt": int(r["Q"]) if r["Q"] != "" and 0 <= int(r["Q"]) <= 12 else 0,
        "u": {"U": 1, "X": 2}.get(r["U"], 0), "both": r["D"] == "2", "c": uc}
T["event"] = E
T["suppl"] = {}
for line in lits(between(t, "tmc_data_suppl{", '" };') + '"'):
    f = line.split(";")
    if len(f) >= 2:
        T["suppl"].setdefault(str(int(f[0])), f[1])
print({k: len(v) for k, v in T.items()}, titles)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "tables.json")
json.dump(T, open(out, "w"), ensure_ascii=True, indent=0, sort_keys=True)
