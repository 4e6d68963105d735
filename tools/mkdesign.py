"""Fills the lists of repairs and planted bugs into DESIGN.md: python3 tools/mkdesign.py [results of tools/runseeds.py]"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixes = [json.loads(l) for l in open(V + "/known_findings.jsonl") if l.strip()]
ft = "\n".join("* %s `%s` %s" % (f["property"], f["commit"][:12], f["what"]) for f in fixes if f["status"] == "fixed")
p = V + "/DESIGN.md"
s = open(p).read()
old = dict(re.findall(r"^\| (c\S+) \|.*\| (\w+) \|$", s, re.M))
for l in (open(sys.argv[1]) if len(sys.argv) > 1 else []):
    w = l.split()
    if w and w[0] in ("CAUGHT", "MISSED", "ERROR"):
        old[w[1]] = w[0].lower()
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), old.get(d, "")))
st = "| Bug | Property | Needs | Breaks | Quick check |\n|---|---|---|---|---|\n" + "\n".join(rows)


def fill(s, name, text):
    return re.sub(r"<!-- %s -->.*?(?=\n\n(##|`tools)|\Z)" % name, lambda m: "<!-- %s -->\n%s" % (name, text), s, flags=re.S)


s = fill(fill(s, "FIXES", ft), "SEEDS", st)
open(p, "w").write(s)
