#!/usr/bin/env python3
# design.py TAIL: DESIGN.md from the text, the fixes and the planted bugs
import json, os, sys
V = '/verif/'
head = open(V + 'DESIGN.md').read()
i = head.find('* Components:')
if i < 0: i = len(head)
tail = open(sys.argv[1]).read()
fx = ''
for l in json.load(open(V + 'known_findings.json'))['fixed']:
    p, h, t = l[len('fixed: property='):].split(' ', 2)
    fx += '* %s (%s) %s\n' % (h, p, t)
sd = '| bug | property | needs | caught after |\n|---|---|---|---|\n'
res = json.load(open(V + 'tools/caught.json')) if os.path.exists(V + 'tools/caught.json') else {}
for d in sorted(os.listdir(V + 'seeded')):
    m = json.load(open(V + 'seeded/%s/meta.json' % d))
    sd += '| %s | %s | %s | %s |\n' % (d, m['property'], m['needs'].replace('|', '/'), res.get(d, '?'))
open(V + 'DESIGN.md', 'w').write(head[:i] + tail.replace('@@FIXED@@', fx.rstrip()).replace('@@SEEDED@@', sd.rstrip()))
