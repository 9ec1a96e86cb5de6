#!/usr/bin/env python3
"""writes the list of harnesses into DESIGN.md (between the marks)"""
import os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from specs import SPECS
o = []
for pid in sorted(SPECS):
    s = SPECS[pid]
    o.append('**%s** — within: %s. Outside: %s.' % (pid, s['bounds'], s['outside']))
    o.append('')
    for h in s['harnesses']:
        o.append('* `%s`%s: %s (%s)' % (h['entry'], '' if 'quick' in h['tiers'] else ' (thorough)', h['what'], h['bounds']))
    o.append('')
p = os.path.join(R, 'DESIGN.md')
t = open(p).read()
t = re.sub(r'(<!-- harnesses -->\n).*(<!-- end -->)', lambda m: m.group(1) + '\n'.join(o) + m.group(2), t, flags=re.S)
open(p, 'w').write(t)
