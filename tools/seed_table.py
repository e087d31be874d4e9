"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| id | file | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    f = next(l[6:] for l in (d / "patch.diff").read_text().splitlines() if l.startswith("+++ b/"))
    rows.append(f"| {d.name} | {f.replace('xtructure/', '', 1)} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
p = root / "DESIGN.md"; s = p.read_text(); a, b = "<!-- planted -->\n", "<!-- /planted -->"
i, j = s.index(a) + len(a), s.index(b)
p.write_text(s[:i] + "\n".join(rows) + "\n" + s[j:])
