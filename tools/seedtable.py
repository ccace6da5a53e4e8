"""Rewrites the table of planted bugs in DESIGN.md. New rows: tools/seedtable.py ID 'rejected condition' ..."""
import json, pathlib, re, sys
root = pathlib.Path(__file__).resolve().parent.parent
d = root / "DESIGN.md"
s = d.read_text()
HEAD = "| planted bug | needs | rejected condition |\n|---|---|---|\n"
rej = {}
old = re.search(re.escape(HEAD) + r"((?:\|.*\n)*)", s)
if old:
    for r in old.group(1).splitlines():
        x = [y.strip() for y in r.strip("|").split(" | ")]
        rej[x[0].strip()] = x[-1].strip(" |")
a = sys.argv[1:]
rej.update(zip(a[::2], a[1::2]))
rows = ""
for p in sorted((root / "seeded").iterdir()):
    m = json.loads((p / "meta.json").read_text())
    rows += f"| {p.name} | {m['needs'].replace('|', '/')} | {rej.get(p.name, '')} |\n"
    if p.name not in rej: print("no condition for", p.name)
s = s.replace(old.group(0), HEAD + rows) if old else s.replace("@SEEDS@\n", HEAD + rows)
d.write_text(s)
