"""DESIGN.md = design/head.md + design/tail.md with the planted-bug table filled in"""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | needs |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} |")
head = open(os.path.join(HERE, "design", "head.md")).read()
tail = open(os.path.join(HERE, "design", "tail.md")).read().replace("@@SEEDED@@", "\n".join(rows))
mut = os.path.join(HERE, "design", "mutation.md")
tail = tail.replace("@@MUT@@", open(mut).read().strip() if os.path.exists(mut) else "")
open(os.path.join(HERE, "DESIGN.md"), "w").write(head + tail)
