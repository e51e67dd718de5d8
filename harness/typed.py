"""Binds spec/Typing.tla to the plugin and to the library: classes and constructor calls enumerated by the specification are
written down as source, given to mypy with the plugin, and carried out; both verdicts have to be the one of the specification."""
import json
import os
import re
import subprocess
import zlib

import runner

HEAD = '''import typing as t
from typing import Annotated, Any, Optional, Type, TypeVar
import pydantic
import pydantic as pd
import pydantic_xml
import pydantic_xml as px
from pydantic import ConfigDict, Field
from pydantic_xml import BaseXmlModel, attr, element, wrapped
from pydantic_xml import attr as at, element as el, wrapped as wr
from pydantic_xml.fields import attr as attr_

SEVEN = 7

def seven() -> int:
    return 7


'''
FNS = {'attr': ['attr', 'at', 'px.attr', 'pydantic_xml.attr', 'attr_', 'attr'], 'element': ['element', 'el', 'px.element', 'element'],
       'wrapped': ['wrapped', 'wr', 'px.wrapped', 'wrapped'], 'Field': ['Field', 'pd.Field', 'pydantic.Field']}
VALUES = {'number': '1', 'text': "'1'"}


def pick(h, xs):
    return xs[h % len(xs)]


def call(c, h, alone=True):
    fn, kw = c['fn'], []
    # where two calls are merged an explicit None is something said; the validation library's own plugin does not take it for nothing
    alone = alone and not c['inner'] and fn != 'Field'
    if c['dflt'] == 'val':
        kw.append('default=' + pick(h // 19, ['5', '5', 'SEVEN', 'None', 'seven()', '-5', '[]']))
    elif c['dflt'] == 'dots':
        kw.append('default=...')
    elif c['dflt'] == 'fac':
        kw.append('default_factory=' + pick(h // 3, ['seven', 'lambda: 7']))
    elif c['dflt'] == 'nofac':
        kw.append('default_factory=None')
    for key, name in (('alias', 'alias'), ('valias', 'validation_alias'), ('salias', 'serialization_alias')):
        if c[key]:
            kw.append(f'{name}={c[key]!r}')
        elif alone and h // 23 % 4 == 0 and key != 'salias':
            kw.append(f'{name}=None')
    for key in ('frozen', 'strict'):
        if c[key] != 'no':
            kw.append(f'{key}={c[key] == "true"}')
        elif alone and h // 29 % 4 == 0:
            kw.append(f'{key}=None')
    k = h // 7 % (len(kw) + 1)
    kw = kw[k:] + kw[:k]
    pos = []
    if fn == 'wrapped':
        pos.append("path='w'" if h % 5 == 0 and not (c['inner'] and h % 2) else "'w'")
        if c['inner']:
            inner = call(c['inner'][0], h // 11 + 1, False)
            if pos[0].startswith('path') or h % 3 == 0:
                kw.insert(h % (len(kw) + 1), f'entity={inner}')
            else:
                pos.append(inner)
        if not pos[0].startswith('path') and len(pos) == 2 and h % 4 == 1:
            pos += ['None']
        elif h % 4 == 2:
            kw.append('ns=None')
    elif fn in ('attr', 'element'):
        if h % 4 == 1:
            pos.append("'n'")
        elif h % 4 == 2:
            kw.append("ns=None")
        elif h % 4 == 3:
            kw.insert(0, ('tag' if fn == 'element' else 'name') + "='n'")
        if fn == 'element' and h % 5 == 2:
            kw.append('nillable=True')
    elif fn == 'Field' and kw and kw[0].startswith('default=') and h % 2:
        pos.append(kw.pop(0)[len('default='):])
    if h % 6 == 4:
        kw.append("description='d'")
    pos = [p for p in pos if not re.match(r'^path=', p)] + [p for p in pos if re.match(r'^path=', p)]
    return f"{pick(h // 13, FNS[fn])}({', '.join(pos + kw)})"


def field(f, h):
    r = f['rhs']
    ann = pick(h // 17, ['int', 'int', 'Annotated[int, "x"]'])
    if r['r'] == 'none':
        return f'    {f["name"]}: {ann}'
    if r['r'] == 'plain':
        return f'    {f["name"]}: {ann} = 5'
    return f'    {f["name"]}: {ann} = {call(r["call"], h)}'


def klass(c, name, h):
    lines, base = [], 'BaseXmlModel'
    if c['bases']:
        base = name + 'B'
        lines += klass(c['bases'][0], base, h // 3) + ['']
    conf = []
    for key, kwn in (('extra', 'extra'), ('frozen', 'frozen'), ('byname', 'populate_by_name'), ('strict', 'strict')):
        if c[key] != 'no':
            conf.append(f'{kwn}=' + (repr(c[key]) if key == 'extra' else str(c[key] == 'true')))
    head = [base] + (['tag="m"'] if h % 3 == 0 else []) + (conf if h % 2 else [])
    lines.append(f"class {name}({', '.join(head)}):")
    if conf and not h % 2:
        lines.append(f"    model_config = ConfigDict({', '.join(conf)})")
    for i, f in enumerate(c['fields']):
        lines.append(field(f, zlib.crc32(json.dumps([f, h, i], sort_keys=True).encode())))
    if not c['fields'] or h % 5 == 0:
        lines.append('    def noise(self) -> int:\n        return 1')
    return '\n'.join(lines).split('\n')


def source(cases):
    """the source of a module, and what each of its lines is: (case, kind, call)"""
    lines, at = HEAD.split('\n'), {}
    for k, c in enumerate(cases):
        h = zlib.crc32(json.dumps(c['cls'], sort_keys=True).encode())
        lines += klass(c['cls'], f'C{k}', h) + ['']
        for j, a in enumerate(c['calls']):
            lines.append(f"def call_{k}_{j}() -> None: C{k}({', '.join(f'{n}={VALUES[v]}' for n, v in a['args'])})")
            at[len(lines)] = (k, 'calls', j)
        for j, a in enumerate(c['sets']):
            lines.append(f"def set_{k}_{j}(m: C{k}) -> None: m.{a['f']} = 1")
            at[len(lines)] = (k, 'sets', j)
        lines.append('')
    return '\n'.join(lines) + '\n', at


RUN = '''
import json, sys
import pydantic
import mod
cases = json.load(open(sys.argv[1]))
out = []
for k, c in enumerate(cases):
    cls = getattr(mod, 'C%d' % k)
    r = {'calls': [], 'sets': []}
    for j in range(len(c['calls'])):
        try:
            getattr(mod, 'call_%d_%d' % (k, j))()
            r['calls'].append(True)
        except (pydantic.ValidationError, TypeError):
            r['calls'].append(False)
    for j in range(len(c['sets'])):
        m = cls.model_construct()
        try:
            getattr(mod, 'set_%d_%d' % (k, j))(m)
            r['sets'].append(True)
        except (pydantic.ValidationError, AttributeError):
            r['sets'].append(False)
    out.append(r)
json.dump(out, open(sys.argv[2], 'w'))
'''


CONFS = {'ok': '[mypy]\nplugins = pydantic_xml.mypy\n',
         'full': '[mypy]\nplugins = pydantic_xml.mypy\n[pydantic-mypy]\ninit_typed = True\ninit_forbid_extra = True\n'}


def observe(cases, work):
    """the verdicts of mypy (two configurations of the plugin) and of the library on every call and assignment of the cases"""
    os.makedirs(work, exist_ok=True)
    src, at = source(cases)
    for name, text in [('mod.py', src), ('cases.json', json.dumps(cases)), ('run.py', RUN)] + [(f'{k}.ini', v) for k, v in CONFS.items()]:
        with open(os.path.join(work, name), 'w') as f:
            f.write(text)
    env = runner.env_for('lxml')
    env['PYTHONPATH'] = work + os.pathsep + env['PYTHONPATH']
    procs = {'run': subprocess.Popen([runner.PY, 'run.py', 'cases.json', 'out.json'], cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)}
    for k in CONFS:
        procs[k] = subprocess.Popen([runner.PY, '-m', 'mypy', '--config-file', f'{k}.ini', '--follow-imports=silent', '--cache-dir', os.path.join(work, 'cache-' + k),
                                     '--no-error-summary', '--hide-error-context', '--no-color-output', 'mod.py'],
                                    cwd=work, env=dict(env, MYPYPATH=runner.REPO), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = {}
    try:
        for k in procs:
            out[k] = procs[k].communicate(timeout=400)[0]
    finally:
        for x in procs.values():
            x.kill()
    if procs['run'].returncode != 0:
        raise Plugin('the classes cannot be defined or used\n' + out['run'][-1500:])
    said, other = {}, []
    for k in CONFS:
        if procs[k].returncode not in (0, 1):
            raise Plugin('mypy fails with the plugin\n' + out[k][-2000:])
        for line in out[k].splitlines():
            m = re.match(r'mod\.py:(\d+): error: (.*)', line)
            if m and int(m[1]) in at:
                said.setdefault(at[int(m[1])] + (k,), m[2])
            elif m:
                other.append(line)
    return json.load(open(os.path.join(work, 'out.json'))), said, other, src, at


class Plugin(Exception):
    """the plugin or the library fails on the source as a whole"""


def bad(cases, work):
    got, said, other, src, at = observe(cases, work)
    lines = src.split('\n')
    where = {v: k for k, v in at.items()}
    out, n = [], 0
    for k, c in enumerate(cases):
        for kind in ('calls', 'sets'):
            for j, a in enumerate(c[kind]):
                n += 1
                m = {conf: (k, kind, j, conf) not in said for conf in CONFS}
                if m['ok'] != a['ok'] or m['full'] != a['full'] or got[k][kind][j] != a['ok']:
                    out.append({'case': c, 'source': '\n'.join(klass(c['cls'], f'C{k}', zlib.crc32(json.dumps(c['cls'], sort_keys=True).encode()))),
                                'op': lines[where[k, kind, j] - 1].split('None: ')[1], 'expected': a['ok'], 'mypy': m['ok'], 'run': got[k][kind][j],
                                'expected, strict settings of the plugin': a['full'], 'mypy, strict settings of the plugin': m['full'],
                                'said': said.get((k, kind, j, 'ok'), '') or said.get((k, kind, j, 'full'), '')})
    return out, n, other


if __name__ == '__main__':
    import sys
    import time
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    cases = [json.loads(x) for x in open(sys.argv[1])]
    t = time.time()
    b, n, other = bad(cases, '/tmp/mp/w')
    print(len(cases), 'cases', n, 'operations', len(b), 'bad', len(other), 'other', f'{time.time() - t:.1f}s')
    for x in other[:5]:
        print(x)
    for x in b[:int(sys.argv[2]) if len(sys.argv) > 2 else 5]:
        print(x['source'])
        print({k: v for k, v in x.items() if k not in ('source', 'case')})
