"""Fill the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"]))
t = "<!-- seeds -->\n| planted bug | caught by | breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- end -->\n"
s = open(H + "/DESIGN.md").read()
s = re.sub(r"<!-- seeds -->.*<!-- end -->\n", lambda m: t, s, flags=re.S) if "<!-- seeds -->" in s else s.replace("SEEDTABLE\n", t)
open(H + "/DESIGN.md", "w").write(s)
