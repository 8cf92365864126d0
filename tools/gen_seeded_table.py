"""Rewrite the table of seeded changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    c = lambda s: re.sub(r"\s+", " ", str(s)).replace("|", "/")
    rows.append(f"| {d.name} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {m['property']}{' ' + m['also'] if m.get('also') else ''} |")
p = root / "DESIGN.md"
t = p.read_text()
mark = "<!-- seeded table -->"
t = t.split(mark)[0] + mark + f"\n\n{len(rows)} changes; the last column names the check that reports it (run against each by hand with the quick tier).\n\n| change | what it breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
p.write_text(t)
print(len(rows))
