#!/usr/bin/env python3
"""Development tool: run every planted bug of seeded/ against the check of its
property (on a scratch copy of /repo), and write the table of DESIGN.md.

  tools/seeded.py [ids...]     no check reads seeded/; only this tool does
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOG = '/tmp/seeded.json'


def main():
    ids = sys.argv[1:] or sorted(os.listdir(HERE + '/seeded'))
    got = json.load(open(LOG)) if os.path.exists(LOG) else {}
    work = tempfile.mkdtemp(prefix='seeded-')
    for i in ids:
        d = '%s/seeded/%s' % (HERE, i)
        prop = json.load(open(d + '/meta.json'))['property']
        tree = work + '/repo'
        shutil.copytree('/repo', tree, symlinks=True)
        r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=tree)
        if r.returncode:
            got[i] = [prop, 'does not apply', []]
        else:
            c = subprocess.run([HERE + '/check', prop], capture_output=True, text=True, cwd=HERE,
                               env=dict(os.environ, QT_REPO=tree))
            cl = sorted({l.split(' -- ')[0].strip() for l in c.stdout.split('\n') if re.match(r'  \S+:\S+ -- ', l)})
            got[i] = [prop, c.returncode, cl]
        print(i, got[i], flush=True)
        json.dump(got, open(LOG, 'w'), indent=1)
        shutil.rmtree(tree)
    shutil.rmtree(work)
    rows = ['| planted bug | check | reported by |', '|---|---|---|']
    for i in sorted(os.listdir(HERE + '/seeded')):
        if i in got:
            p, rc, cl = got[i]
            rows.append('| %s | %s | %s |' % (i, p, ', '.join('`%s`' % c for c in cl[:3]) + (' ...' if len(cl) > 3 else '')
                                              if rc == 1 else 'MISSED (rc %s)' % rc))
    p = HERE + '/DESIGN.md'
    s = open(p).read()
    a, b = '<!-- seeded -->\n', '<!-- /seeded -->'
    s = s[:s.index(a) + len(a)] + '\n'.join(rows) + '\n' + s[s.index(b):]
    open(p, 'w').write(s)


main()
