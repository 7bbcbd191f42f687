#!/usr/bin/env python3
"""Writes /verif/known-findings.jsonl's "fixed:" lines from /repo's fix commits (JSON findings, if any, are kept)."""
import subprocess, os
P = dict(l.split() for l in '''cd65da6 C01
eb15429 C05
163034b C05
311341c C21
b2d31e3 C01
155bf47 C03
f71a290 C03
a039260 C06
48b2153 C08
71dca91 C14
8ea44b3 C12
85e0d42 C08
09020f9 C09
4a6afdb C21
286a7ef C04
1db2a85 C21
cda79de C16
2e2c711 C01
1c82206 C06
b75a319 C21
38d2d48 C10
7a48bc4 C21
0a313f6 C09
8986f2d C04
64366f8 C05
70c4f7c C12
a1af64c C03
31ca46f C03
f9703b7 C03
e1c3333 C14
3c1ffb3 C21
2d25526 C03
76e67b9 C18
831e9d8 C18
30b442c C18
8e29dd6 C18
b914072 C19
a32c135 C19
176c99a C20
22498f6 C20
2ffe7b9 C20
3aef230 C18
49b72e8 C03
6f7bac4 C11
951dd6d C11
e0eaae2 C10
774eb1b C16
441fee1 C08
434462c C08
f2c0e31 C23
b3b7152 C23
68dad93 C24
5776255 C24
ca904cf C04'''.splitlines())
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known-findings.jsonl')
keep = [l for l in open(path).read().splitlines() if l.startswith('{')] if os.path.exists(path) else []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
out = keep[:]
for l in log:
    h, s = l.split(' ', 1)
    if h in ('176c99a','22498f6','2ffe7b9'): continue   # reverted: the file counts as a test file, see the findings
    if s.startswith('fix: '): out.append('fixed: property=%s %s %s' % (P.get(h, 'C01'), h, s[5:]))
    if s.startswith('fix: ') and h not in P: print('no property given for', l)
open(path, 'w').write('\n'.join(out) + '\n'); print(len(out))
