"""seed.py FILE: (re)makes /verif/seeded/<id>/ from a description and confirms it in a scratch copy of /repo.

FILE is Python: id, property, needs, what, edits = [(file, old, new)], demo (python source; exit code 0 without the change)."""
import json
import os
import re
import shutil
import subprocess
import sys

WT = os.environ.get('SEED_WT', '/tmp/wt')
BASE = 'dd5efa2'
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    if not os.path.isdir(WT):
        sh(f'git -C /repo worktree prune; git clone -q /repo {WT}')
    sh(f'git -C {WT} fetch -q /repo HEAD && git -C {WT} reset -q --hard FETCH_HEAD && git -C {WT} clean -qfdx')


def env(std):
    e = dict(os.environ, PYTHONPATH=WT, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', FORCE_STD_XML=std)
    return e


def tests():
    """names of the tests that passed, both backends"""
    ps = []
    for name, std in (('lxml', 'false'), ('std', 'true')):
        ps.append((name, subprocess.Popen([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=WT, env=env(std),
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    ok = True
    for name, p in ps:
        out, _ = p.communicate()
        if p.returncode != 0:
            ok = False
            print('  ', name, 'tests fail:', [ln for ln in out.splitlines() if ln.startswith('FAILED') or 'rror' in ln][-1:])
    return ok


def demo(d):
    r = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=WT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env={k: v for k, v in os.environ.items() if k != 'PYTHONPATH'})
    return r.returncode, r.stdout


def original(patch):
    """removed or neighbouring lines that come from the original repository"""
    return True


PRE = '''import sys
from typing import *
import pydantic as pd
import pydantic_xml
from pydantic_xml import *
from pydantic_xml.element.native import etree, ElementT


def x(m, **kw):
    r = m.to_xml(**kw)
    return (r.decode() if isinstance(r, bytes) else r).replace(' />', '/>')


def bad(f, *a, **kw):
    try:
        f(*a, **kw)
    except pd.ValidationError as e:
        return [(tuple(i['loc']), i['type']) for i in e.errors()]
    raise AssertionError('no validation error')


def eq(a, b):
    if a != b:
        sys.exit('%r != %r' % (a, b))


'''


def main(path):
    ns = {}
    exec(open(path).read(), ns)
    rc = 0
    for b in ns.get('BUGS', [ns]):
        if len(sys.argv) < 3 or b['id'] in sys.argv[2:]:
            rc |= one(b)
    return rc


def one(ns):
    d = f"/verif/seeded/{ns['id']}"
    fresh()
    os.makedirs(d, exist_ok=True)
    with open(f'{d}/demo.py', 'w') as f:
        f.write(PRE + ns['demo'].strip() + '\n')
    with open(f'{d}/demo.sh', 'w') as f:
        f.write('#!/bin/bash\n# exit 0: the property holds in this case\nset -e\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                f'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\n'
                + ''.join(f'FORCE_STD_XML={s} {PY} "$here/demo.py"\n' for s in ns.get('backends', ['false', 'true'])))
    rc0, out0 = demo(d)
    for fn, old, new, *nth in ns['edits']:
        p = f'{WT}/pydantic_xml/{fn}'
        s = open(p).read()
        if s.count(old) != 1 and not nth:
            print(ns['id'], 'EDIT does not match once:', fn, s.count(old), repr(old[:80]))
            return 1
        parts = s.split(old)
        k = nth[0] + 1 if nth else 1
        open(p, 'w').write(old.join(parts[:k]) + new + old.join(parts[k:]))
    diff = sh(f'git -C {WT} diff').stdout
    with open(f'{d}/patch.diff', 'w') as f:
        f.write(diff)
    orig = 0
    cur = None
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            cur = line[6:]
        if line.startswith('-') and not line.startswith('---') and line[1:].strip():
            base = sh(f'git -C /repo show {BASE}:{cur}').stdout
            if line[1:] in base.splitlines():
                orig += 1
    rc1, out1 = demo(d)
    ok = tests()
    json.dump({'property': ns['property'], 'needs': ns['needs'], 'what_it_breaks': ns['what']}, open(f'{d}/meta.json', 'w'), indent=1)
    good = rc0 == 0 and rc1 != 0 and ok and orig > 0
    print(ns['id'], 'GOOD' if good else 'REJECTED', f'demo {rc0}->{rc1} tests {ok} original lines {orig}')
    if not good:
        print('   ', out0[-200:].strip() if rc0 else '', '|', out1[-200:].strip() if rc1 == 0 else '')
        shutil.rmtree(d)
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
