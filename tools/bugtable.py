"""tools/bugtable.py : writes the table of planted bugs of DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = sorted((d["property"], os.path.basename(os.path.dirname(f)), d["needs"], d["what_it_breaks"]) for f in glob.glob("seeded/*/meta.json") for d in [json.load(open(f))])
s = open("DESIGN.md").read()
t = "| check | bug | needs | breaks |\n|---|---|---|---|\n" + "".join("| " + " | ".join(x.replace("\n", " ") for x in r) + " |\n" for r in rows)
s, n = re.subn(r"\| check \| bug \|.*?\n(?!\|)", lambda m: t, s, flags=re.S)
open("DESIGN.md", "w").write(s)
print(n, len(rows))
