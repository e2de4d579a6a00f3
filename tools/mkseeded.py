#!/usr/bin/env python3
"""Write the table of planted bugs into DESIGN.md (from seeded/*/meta.json)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what was seen besides the property's own check reporting it
NOTES = {
    "first-sync-before-recover": "missed at first; attacks that deny the root were added",
    "nonce-read-as-63-bits": "missed at first; nonces and first heights now range over 64 bits",
}
rows = ["| id | property | what it takes | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (here, d)))
    n = NOTES.get(d, "")
    rows.append("| %s | %s | %s | %s%s |" % (d, m["property"], m["needs"].replace("|", "/"), m.get("caught", m["property"]), n and " (%s)" % n))
p = here + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", t, flags=re.S)
open(p, "w").write(t)
