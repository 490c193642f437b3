"""Refreshes the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
s = open("/verif/DESIGN.md").read()
L = []
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(d))
    L.append("* `%s` (%s): %s" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"]))
s = re.sub(r"(?ms)(^Every one is caught by the quick check of its property:\n)(\* .*?\n)+", lambda x: x.group(1) + "\n".join(L) + "\n", s)
open("/verif/DESIGN.md", "w").write(s)
