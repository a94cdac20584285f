#!/usr/bin/env python3
"""known_findings.json from the table of findings and /repo's fix commits (developer tool)."""
import json, subprocess
F = [
 ("C07", "France/Settlement:moveable-feasts", "France settlement calendar closes on the fixed dates 10 May and 21 May instead of Ascension Thursday and Whit Monday (src/time/calendars/france.rs settlement rules); an existing test pins the 2023 outcome"),
 ("T08", "from_code(Once)", "Frequency::from_code(\"Once\") returns NoFrequency instead of Once (src/time/frequency.rs); an existing test pins it"),
]
M = {'Nearest': 'C13', 'business_days_between': 'C15', 'No Leap': 'T01', '(ISDA)': 'T03', '(Euro)': 'T03', 'Business/252': 'T04', 'Ukraine': 'C09', 'next_date': 'T07', 'IMM date': 'T07', 'is_imm_code': 'T07', 'adding a period': 'T05', 'Japan': 'C11', 'Singapore': 'C12', 'Turkey': 'C12', 'NYSE': 'C05', 'Taiwan': 'C11', 'Hong Kong': 'C11'}
exec(open(__file__.replace("findings.py", "findings2.py")).read()) if __import__("os").path.exists(__file__.replace("findings.py", "findings2.py")) else None
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in log:
    h, t = l.split(' ', 1)
    if not t.startswith('fix:'):
        continue
    k = {v for a, v in M.items() if a in t}
    assert len(k) == 1, (t, k)
    fixed.append("fixed: property=%s %s %s" % (k.pop(), h, t[5:]))
json.dump({"findings": [{"property": a, "key": b, "what": c} for a, b, c in F], "fixed": fixed[::-1]}, open('/verif/known_findings.json', 'w'), indent=1)
