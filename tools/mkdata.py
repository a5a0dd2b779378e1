#!/usr/bin/env python3
"""Development-time generator of the committed reference data (not run by any check).
cp949.bin : all pairs of Python's own cp949 codec, big-endian (pair, char) uint16s, by pair.
hanja.bin : (ideograph, reading) uint16s of the pinned tree, by ideograph; see DESIGN.md J02.
consts_gen.go : exported letter constants -> code point, via the Unicode character NAME."""
import re,struct,unicodedata,os,sys
base=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
py=[]
for hi in range(128,256):
    for lo in range(256):
        try: s=bytes([hi,lo]).decode('cp949')
        except UnicodeDecodeError: continue
        if len(s)==1: py.append((hi<<8|lo,ord(s)))
assert len(py)==17048
open(base+'/mc/data/cp949.bin','wb').write(b''.join(struct.pack('>HH',*x) for x in py))
h=[]
for l in open('/repo/hanja/table.go'):
    m=re.search(r'0x(\w+):\s*0x(\w+)',l)
    if m: h.append((int(m[1],16),int(m[2],16)))
h.sort(); assert len(h)==27496
open(base+'/mc/data/hanja.bin','wb').write(b''.join(struct.pack('>HH',*x) for x in h))
rows=[]
for l in open('/repo/constant.go'):
    m=re.match(r'\t(\w+)\s*(?:=.*)?// (HANGUL [A-Z -]+)',l)
    if m and m[1][0].isupper():
        rows.append((m[1],ord(unicodedata.lookup(m[2].strip())),m[2].strip()))
rows.append(('NG',0x3147,'HANGUL LETTER IEUNG'))
names=set(re.findall(r'^\t([A-Z]\w*)\b',open('/repo/constant.go').read(),re.M))
# letters whose repository comment is not the Unicode name
fix={'ZS':0x3147}
print(len(rows), names-{r[0] for r in rows})
for n in sorted(names-{r[0] for r in rows}):
    if n in fix: rows.append((n,fix[n],unicodedata.name(chr(fix[n]))))
with open(base+'/mc/consts_gen.go','w') as f:
    f.write('// Code generated by tools/mkdata.py; DO NOT EDIT.\n\npackage main\n\nimport hangul "github.com/suapapa/go_hangul"\n\nvar letterConsts = []struct {\n\tname string\n\tgot  rune\n\twant rune\n\tuni  string\n}{\n')
    for n,c,u in rows: f.write('\t{"%s", hangul.%s, 0x%04X, "%s"},\n'%(n,n,c,u))
    f.write('}\n')
print(len(rows))
