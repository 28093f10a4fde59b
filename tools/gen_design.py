"""DESIGN.md = tools/design_head.md + the table of planted bugs (tools/seeded_results.txt) + tools/design_tail.md."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
head = open(os.path.join(here, "design_head.md")).read().rstrip()
rows, missed = [], []
for l in open(os.path.join(here, "seeded_results.txt")):
    if not l.strip() or l.startswith(("#", "DONE")): continue
    i, rc, secs = l.split()[:3]
    try: m = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    except OSError: continue
    ok = rc == "rc=1"
    if not ok: missed.append(i)
    rows.append(f"| {i} | {m['needs']} | {m['property'] if ok else 'missed'} | {secs} |")
have = {r.split()[1] for r in rows}
late = sorted(i for i in os.listdir(os.path.join(root, "seeded")) if i not in have)
n = len(rows)
out = head + f"""

## 5. Planted bugs

{n + len(late)} changes (`seeded/`), each written from the text of a property and the code, each passing the stable tests, each with its own demonstration; {n - len(missed)} of the {n} in the table are caught by
the quick check of their property (seed 1; the time includes minimisation limited to 5 s){', missed: ' + ', '.join(missed) if missed else ''}.
{'Caught when they were added, not run again with the last state of the checks: ' + ', '.join(late) + '.' if late else ''}
No check reads `seeded/`.

| planted bug | needs | caught by | time |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
t = os.path.join(here, "design_tail.md")
if os.path.exists(t): out += "\n" + open(t).read().rstrip() + "\n"
open(os.path.join(root, "DESIGN.md"), "w").write(out)
print(n, "planted bugs,", len(missed), "missed")
