"""Rewrites the table of planted bugs in DESIGN.md, between its two markers, from seeded/*/meta.json."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what missed it at first -> what was added
FIRST_MISSED = {
    "C03-stale-decomposition": "arguments now reuse a few buffers (bufs.go)",
    "C11-dirty-accumulators": "keys with too few digits (cutKey)",
    "C14-gaussian-sum-scale": "receiver scales that differ by no whole factor",
    "C07-long-seek": "far jumps of the clock",
    "C10-fraction-of-i": "constants with one whole part",
    "C09-eight-byte-key": "device differing in 16-byte windows",
    "C09-one-error-special": "probing key that shows the errors' signs (found by mutation)",
    "C01-roots-table": "memory of idle engines and package variables; package variables reset in every run",
    "C01-shared-index-cache": "scheduler: kept state, sites only the crowd reaches; repeated calls",
}
try:
    FIRST_MISSED.update(json.load(open(os.path.join(root, "tools", "first_missed.json"))))
except FileNotFoundError:
    pass
rows = ["| bug | what goes wrong | needs | first missed; then added |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m, i = json.load(open(f)), os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], FIRST_MISSED.get(i, "")))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], s, flags=re.S)
open(p, "w").write(s)
