#!/usr/bin/env python3
"""Collects spade sources into /verif/corpus/corpus.jsonl: the .spade files of the repository and
the programs in the string literals of its test suite. Run by hand: the corpus is committed, so that the
checks do not depend on the test files of the tree under test."""
import json, re, glob, os
R = '/repo'
out, seen = [], set()
def add(name, src):
    k = re.sub(r'\s+', ' ', src).strip()
    if len(k) < 8 or k in seen or len(src) > 20000: return
    seen.add(k); out.append({'name': name, 'src': src})
for f in sorted(glob.glob(R + '/**/*.spade', recursive=True)):
    if '/target/' in f or '/build/' in f: continue
    add(os.path.relpath(f, R), open(f).read())
raw = re.compile(r'r(#*)"(.*?)"\1', re.S)
for f in sorted(glob.glob(R + '/spade-tests/src/*.rs')):
    t = open(f).read()
    for m in raw.finditer(t):
        if m.group(1) == '' and '"' in m.group(2): continue
        if re.search(r'\b(fn|entity|pipeline|struct|enum|mod|use|impl|trait)\b', m.group(2)):
            add('%s:%d' % (os.path.basename(f), t[:m.start()].count('\n') + 1), m.group(2))
    t2 = raw.sub('', t)
    for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', t2, re.S):
        s = m.group(1)
        if re.search(r'\b(fn|entity|pipeline|struct|enum)\b.*[({]', s, re.S):
            s = re.sub(r'\\\n\s*', '', s)
            s = s.replace('\\n', '\n').replace('\\"', '"').replace('\\t', '\t').replace('\\\\', '\\')
            add('%s~%d' % (os.path.basename(f), t2[:m.start()].count('\n') + 1), s)
with open('/verif/corpus/corpus.jsonl', 'w') as g:
    for o in out: g.write(json.dumps(o, ensure_ascii=False) + '\n')
print(len(out), os.path.getsize('/verif/corpus/corpus.jsonl'))
