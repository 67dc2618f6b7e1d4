"""MANIFEST.json from properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C19": "Sampled: runs of an address- and undefined-behaviour-sanitised build; group, hex, TEF and bit inputs are also checked as behaviours of the "
        "specification, mutated bytes, PCM and odd options only for normal termination and well-formed lines.",
 "C20": "The host clock is replaced by a controlled one (LD_PRELOAD); recorded times are checked against RxTime.tla. Sampled schedules of clock steps.",
 "C24": "All combinations of option values of the model (MC_Options) replayed; feed-through compared byte for byte; options compared field by field.",
 "C25": "Exhaustive over all 65536 PI codes against Callsign.tla; programme type names sampled.",
 "C28": "Sampled cuts and pauses; the number of lines printed at every pause and the lines themselves must be those of the specification (LiveTrace.tla). "
        "That the program waits for input is seen from its sleeping with an empty input pipe; a late line counts only if it is late again when given more time.",
 "C27": "Synthesised MPX signals over rates, levels, phases, pilots, audio and read sizes; the output must be a behaviour of the specification "
        "from some start within the lock-in time. The DSP itself is not modelled.",
}
DEF = ("Every recorded run of the real binary, built from /repo's working tree, must be a behaviour of the TLA+ specification (TLC trace validation); "
       "inputs are behaviours enumerated from the models, systematic sweeps and seeded random transmissions. Trusted: the specification, its tables "
       "(taken from the source at the verified commit), TLC, and the reading of the JSON output.")
checks = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    checks.append(dict(property=i, quick_cmd="./check.py --property " + i, thorough_cmd="VERIF_TIER=thorough ./check.py --property " + i,
                       technique="TLA+ specification, TLC model checking and trace validation of real runs",
                       level="model_checking", level_note=NOTE.get(i, "") and NOTE[i] + " " + DEF or DEF,
                       evidence_file="evidence/%s.json" % i))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
         notes="No hooks: redsea is observed through its own input and output. See DESIGN.md; known-findings.txt lists what was repaired.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
