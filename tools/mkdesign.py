#!/opt/venv/bin/python
"""Fills the generated tables of DESIGN.md (between the marker comments) from known-findings.json and seeded/."""
import glob, json, os, re
k = json.load(open("known-findings.json"))
fixed = "\n".join("* " + re.sub(r"^fixed: property=(\S+) (\S+) ", r"\1 (`\2`): ", x) for x in k["fixed"])
known = "\n".join("* **%s** (%s): %s" % (x["id"], x["property"], x["what"]) for x in k["known"])
rows = ["| change | property | what it breaks | needs | caught |", "|---|---|---|---|---|"]
caught = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[1]
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], caught.get(i, "?")))
t = open("DESIGN.md").read()
for name, text in (("FIXED", fixed), ("KNOWN", known), ("SEEDED", "\n".join(rows))):
    t = re.sub(r"(<!-- %s -->\n).*?(<!-- END -->)" % name, lambda m: m.group(1) + text + "\n" + m.group(2), t, flags=re.S)
open("DESIGN.md", "w").write(t)
