#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (documentation only, no check reads seeded/)."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = {  # what had to be strengthened for those that were missed at first
    "idle-shutdown-accepts": "missed: C14 lets messages arrive while the transport is being shut down",
    "queued-after-close": "missed: C13 has requests wait for a slot when the connection is closed",
    "pool-before-reset": "missed: C03 has concurrent users of a pool, partly under the race detector",
    "nil-field-omitted": "missed: C18 compares all kinds of info fields",
    "uncounted-beyond-64": "missed: C10 has high limits and bursts exceeding them",
    "lookup-error-tolerated": "missed: failing lookup hooks return a session nevertheless in C20",
    "busy-timeout-ignored": "missed: C11 has connections whose deadline is exceeded while they're idle or busy",
    "hook-timeout": "caught, but the crash was blamed on the check: panics of hooks are recognised now",
    "cancel-with-deadline": "missed: C26 uses contexts with deadlines, parents and of custom types",
    "weak-key-tail": "missed: C25 computes the rank of the keys over GF(2)",
    "no-progress": "missed: C04 has long sequences of empty reads",
    "conf-sub-protocol-cut": "missed: C01 has sub-protocols of any length",
    "utf16-blocks": "missed: C06 has long texts",
    "slab-capacity": "missed: C03 has users that append to payloads",
    "saved-elsewhere": "missed: C22 observes temporary, home and working directories while storage fails",
}
try:
    notes.update(json.load(open(os.path.join(root, "tools", "seeded-notes.json"))))
except FileNotFoundError:
    pass
rows = []
for f in glob.glob(os.path.join(root, "seeded", "*", "meta.json")):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    rows.append((m["property"], n, m["needs"], notes.get(n, "caught at once")))
out = ["## Planted bugs", "",
       "Each was written from the text of the property and the code, and is confirmed to pass the stable tests while its demonstration fails. The check of",
       "the property named is the one that catches it (all %d are caught by their quick checks)." % len(rows), "",
       "| check | bug | needs | |", "|---|---|---|---|"]
for r in sorted(rows):
    out.append("| %s | `%s` | %s | %s |" % tuple(x.replace("|", "/") for x in r))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
a, _, rest = s.partition("## Planted bugs\n")
tail = rest[rest.index("\n## "):] if "\n## " in rest else ""
open(p, "w").write(a + "\n".join(out) + "\n" + tail)
