"""Rewrites the catch table in DESIGN.md from seeded/*/meta.json (not used by any check)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | caught by | file | needs |", "|---|---|---|---|"]
for p in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(p))
    d = os.path.dirname(p)
    files = re.findall(r"^\+\+\+ b/(.*)$", open(d + "/patch.diff").read(), re.M)
    need = " ".join(m["needs"].split()).replace("|", "/")
    rows.append("| {} | {} quick | {} | {} |".format(
        os.path.basename(d), m["property"], ", ".join(f.replace("src/", "") for f in files), need[:110]))
s = open(root + "/DESIGN.md").read()
a, b = "<!-- catch table -->", "<!-- end of catch table -->"
assert a in s and b in s
s = s[: s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open(root + "/DESIGN.md", "w").write(s)
