#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    seeded = os.path.join(VERIF, "seeded")
    rows = []
    for d in sorted(os.listdir(seeded)):
        m = json.load(open(os.path.join(seeded, d, "meta.json")))
        rows.append("| %s | %s | %s |" % (d, m["needs"], m["what_it_breaks"]))
    path = os.path.join(VERIF, "DESIGN.md")
    text = open(path).read()
    head = "| bug (caught by the check it names) | needs | effect |\n|---|---|---|\n"
    at = text.index(head) if head in text else text.index("@TABLE@")
    with open(path, "w") as f:
        f.write(text[:at] + head + "\n".join(rows) + "\n")


if __name__ == "__main__":
    main()
