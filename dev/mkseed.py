#!/usr/bin/env python3
"""mkseed.py <id> <property> <needs> <what> <<< 'FILE\n<<<<\nold\n====\nnew\n>>>>\n... DEMO\n<rust main>' : writes seeded/<id>"""
import sys, subprocess, json, os, shutil, re
sid, prop, needs, what = sys.argv[1:5]
txt = sys.stdin.read()
edits, demo = txt.split('\nDEMO\n', 1)
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
R = os.environ.get('REPO', '/repo')  # may be a clone
subprocess.run(['git', '-C', R, 'diff', '--quiet'], check=True)
cur = None
for m in re.finditer(r'^FILE (\S+)$|^<<<<\n(.*?)\n====\n(.*?)\n?>>>>$', edits, re.S | re.M):
    if m.group(1): cur = R + '/' + m.group(1); continue
    s = open(cur).read()
    assert s.count(m.group(2)) == 1, (cur, s.count(m.group(2)), m.group(2))
    open(cur, 'w').write(s.replace(m.group(2), m.group(3)))
diff = subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE).stdout
subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
assert diff
open(d + '/patch.diff', 'wb').write(diff)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
shutil.copy('/verif/dev/demo.sh', d + '/demo.sh')
pre = open('/verif/dev/prelude.rs').read()
open(d + '/main.rs', 'w').write(demo if demo.startswith('//RAW') else pre + demo)
