#!/usr/bin/env python3
"""newseed.py <id> <property> <file> : reads a description on stdin:
line 1 needs; line 2 what_it_breaks; then '<<<<' old '====' new '>>>>' (repeatable, '@@ file' switches file), then '---- main' followed by main.rs"""
import sys, os, re, json, subprocess, shutil, tempfile
sid, prop, file = sys.argv[1:4]; t = sys.stdin.read()
head, main = t.split('---- main\n', 1)
lines = head.split('\n', 2); needs, breaks, rest = lines
d = f'/verif/seeded/{sid}'; os.makedirs(d, exist_ok=True)
edits = []
cur = file
for m in re.finditer(r'^@@ (\S+)$|<<<<\n(.*?)====\n(.*?)>>>>', rest, re.S | re.M):
    if m.group(1): cur = m.group(1)
    else: edits.append((cur, m.group(2), m.group(3)))
w = tempfile.mkdtemp()
subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
for f, a, b in edits:
    p = f'{w}/r/{f}'; s = open(p).read()
    if s.count(a) != 1: print('occurrences', s.count(a), 'of', a); sys.exit(1)
    open(p, 'w').write(s.replace(a, b))
diff = subprocess.run(['git', 'diff'], cwd=w + '/r', stdout=subprocess.PIPE, text=True).stdout
open(d + '/patch.diff', 'w').write(diff); open(d + '/main.rs', 'w').write(main)
shutil.copy('/verif/tools/demo.sh', d + '/demo.sh')
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
shutil.rmtree(w)
