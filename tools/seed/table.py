#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent.parent
NOTES = {
    "F06-last-rule-number": "rule numbers at byte boundaries (F06)",
    "U02-trimmed-words": "words close to a name (U02)",
    "G04-symbol-255": "wide grammars (G04)",
    "R09-borrowed-start": "before anything is read; tables of borrowed grammars (R09)",
    "R06-first-items": "crowded locations (R06)",
    "R04-leftover-items": "other tokens than the start of input, and none, after a reset (R04)",
}
NOTES.update(json.loads((V / "tools/seed/notes.json").read_text()) if (V / "tools/seed/notes.json").exists() else {})
rows = []
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    n = f" * -> {NOTES[d.name]}" if d.name in NOTES else ""
    rows.append(f"| {d.name}{n} | {m['needs']} |")
p = V / "DESIGN.md"
s = p.read_text()
h = "| change | needs | \n|---|---|\n"
i = s.index(h) + len(h)
j = i
while s[j:j + 1] == "|":
    j = s.find("\n", j) + 1
    if j == 0:
        j = len(s)
        break
s = s[:i] + "\n".join(rows) + "\n" + s[j:]
s = re.sub(r"`seeded/` has \d+ changes", f"`seeded/` has {len(rows)} changes", s)
p.write_text(s)
print(len(rows))
