# appends bounds, measured coverage and the table of planted bugs to design_head.md -> DESIGN.md
import json, glob, os, sys
sys.path.insert(0, '/verif/lib'); import checks
out = open('/verif/lib/design_head.md').read()
props = {json.loads(l)['id']: json.loads(l) for l in open('/verif/properties.jsonl')}
out += "## Bounds and cost\n\n| id | technique | bounds | not decided / trusted |\n|---|---|---|---|\n"
for i in sorted(checks.CHECKS):
    c = checks.CHECKS[i]; out += f"| {i} | {c['technique']} | {c['bounds']} | {c['note']} |\n"
cov = '/verif/lib/coverage.json'
old = json.load(open(cov)) if os.path.exists(cov) else {}
if '--measure' in sys.argv:
    for i in sorted(checks.CHECKS):
        p = f'/verif/evidence/{i}.json'
        if os.path.exists(p):
            e = json.load(open(p)); c = e['coverage']; old[i] = [c['executions'], c['states'], c['transitions'], c['traces_validated_against_impl'], e['wall_s'], e['tier']]
    json.dump(old, open(cov, 'w'), indent=1)
out += "\n| id | executions | distinct states | transitions | comparisons with the oracle | seconds | tier |\n|---|---|---|---|---|---|---|\n"
for i in sorted(old): out += f"| {i} | " + " | ".join(map(str, old[i])) + " |\n"
out += "\n## Why tests cannot settle these\n\n"
for i in sorted(props): out += f"* {i}: {props[i]['why_tests_cant']}\n"
out += "\n## Planted bugs\n\n| seed | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(d)); n = d.split('/')[-2]
    out += f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {m.get('caught_by', m['property'])} |\n"
out += "\n" + (open('/verif/lib/design_tail.md').read() if os.path.exists('/verif/lib/design_tail.md') else '')
open('/verif/DESIGN.md', 'w').write(out)
