#!/usr/bin/env python3
"""summary of /verif/replay/<ID>-*.txt grouped by family and kind of failure"""
import glob, re, sys, collections
d = collections.OrderedDict()
for f in sorted(glob.glob(f'/verif/replay/{sys.argv[1]}-*.txt'), key=lambda f: int(re.findall(r'-(\d+)\.txt', f)[0])):
    L = open(f).read().split('\n')
    fam = L[1][8:]; key = L[3][5:]; msg = [x for x in L[6:] if x.strip()]
    m = msg[1] if len(msg) > 1 and not msg[0].startswith(('the ', 'a pass')) else (msg[0] if msg else '')
    tail = key.rsplit(':', 1)[1] if re.search(r':[a-z-]+$', key) else ''
    k = (fam, tail, re.sub(r'[0-9]+|\'[^\']*\'', '#', m)[:60])
    d.setdefault(k, []).append((f.split('/')[-1], key, m))
for k, v in d.items():
    print(f'## {k[0]} | {k[1]} | x{len(v)}')
    for f, key, m in sorted(v, key=lambda x: len(x[1]))[:int(sys.argv[2]) if len(sys.argv) > 2 else 2]:
        print('  ', f, key[:200], '=>', m[:200])
