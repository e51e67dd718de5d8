"""Executes programs on both XML backends and lets TLC judge what was seen (spec/Trace.tla)."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')


class Machinery(Exception):
    """the check itself failed: neither held nor violated"""


def scratch():
    return tempfile.mkdtemp(prefix='vp-', dir=os.environ.get('TMPDIR', '/tmp'))


def env_for(backend, hashseed=0):
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO + os.pathsep + HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(hashseed),
             FORCE_STD_XML='true' if backend == 'std' else 'false', PYTHONWARNINGS='ignore')
    return e


def execute(progs, work, script='execu.py', timeout=600, hashseed=0):
    """-> {backend: [result per program]} of programs, or of a job that describes them"""
    jobs = []
    src = os.path.join(work, 'prog.ndjson')
    with open(src, 'w') as f:
        for p in progs:
            f.write(json.dumps(p) + '\n')
    for b in ('lxml', 'std'):
        out = os.path.join(work, f'obs-{b}.ndjson')
        err = open(os.path.join(work, f'err-{b}'), 'w')
        jobs.append((b, out, err, subprocess.Popen([PY, os.path.join(HERE, script), src, out], env=env_for(b, hashseed),
                                                   stdout=err, stderr=err, cwd=work)))
    res = {'lxml': [], 'std': []}
    crash = None
    for b, out, err, pr in jobs:
        try:
            rc = pr.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            pr.kill()
            rc = 'timeout'
        err.close()
        res[b] = [json.loads(x) for x in open(out) if x.endswith('\n')] if os.path.exists(out) else []
        if rc != 0:
            # the library (or this harness) took the interpreter down or did not come to an end
            crash = crash or Crash(b, rc, len(res[b]), open(err.name).read()[-1500:])
    if crash:
        raise crash
    return res


class Crash(Exception):
    """at: how many programs came through before"""
    def __init__(self, backend, rc, at, tail):
        super().__init__(f'{backend}: executor ended with {rc} after {at} programs\n{tail}')
        self.backend, self.rc, self.at, self.tail = backend, rc, at, tail


def no_lines(o):
    if isinstance(o, dict) and 'errs' in o:
        return dict(o, errs=[dict(e, line=None) if isinstance(e, dict) else e for e in o['errs']])
    return o


def std_lines_ok(o):
    return all(not isinstance(e, dict) or e['line'] == -1 for e in (o or {}).get('errs', []))


def slim(o):
    return {k: v for k, v in o.items() if k != 'text'}


def merge(res):
    progs = []
    for a, b in zip(res['lxml'], res['std']):
        assert a['id'] == b['id']
        evs = []
        for i, ev in enumerate(a['evs']):
            x, y = a['obs'][i], b['obs'][i]
            obs = {}
            if x is not None and y is not None and no_lines(slim(x)) == no_lines(slim(y)) and std_lines_ok(y):
                obs = {'both': slim(x)}
            else:
                if x is not None:
                    obs['lxml'] = slim(x)
                if y is not None:
                    obs['std'] = slim(y)
            ev = dict(ev, obs=obs)
            if ev['e'] in ('ser', 'rt') and 'val' not in ev:
                ev['val'] = b['evs'][i].get('val', {'k': 'none'})
            evs.append(ev)
        progs.append({'id': a['id'], 'evs': evs})
    return progs


def collect(x, types, texts, names):
    """scalar types, texts and attribute names met in a program"""
    if isinstance(x, dict):
        if x.get('k') == 'prim':
            types.add(x['ty'])
        elif x.get('k') == 'union' and x.get('ty'):
            types.add(x['ty'])
        for k in ('c', 'name'):
            if isinstance(x.get(k), str):
                texts.add(x[k])
        if 'tag' in x and 'kids' in x and 'attrs' in x:
            acc = x['text']
            texts.add(acc)
            for k in x['kids']:
                if k['tag'].startswith('#'):
                    acc += k['tail']
                    texts.add(acc)
                else:
                    acc = k['tail']
            for n, v in x['attrs']:
                names.add(n)
                names.add(n.split('}')[-1])
                texts.add(v)
        for v in x.values():
            if isinstance(v, (dict, list)):
                collect(v, types, texts, names)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                collect(v, types, texts, names)


STRIP = {'src': None, 'xml': None}


def tlc(module, cfg, work, env=None, workers=None, timeout=840, extra=()):
    e = dict(os.environ)
    e.update(env or {})
    e.setdefault('JAVA_TOOL_OPTIONS', '-XX:+UseParallelGC')
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx4g', '-Xss16m', '-cp',
           '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC',
           '-config', cfg, '-metadir', os.path.join(work, 'states'), '-workers', str(workers or 8),
           '-noGenerateSpecTE', *extra, module]
    e.pop('JAVA_TOOL_OPTIONS', None)
    try:
        pr = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery(f'TLC timed out on {module}')
    return pr.returncode, pr.stdout


def stats(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def tla_lines(out, prefix):
    r = []
    for line in out.splitlines():
        if line.startswith('"' + prefix):
            r.append(json.loads(json.loads(line)[len(prefix):]))
    return r


def judge(progs, work, module='Trace', workers=None):
    """-> (bad list, states generated, distinct)"""
    import scalars as sc
    types, texts, names = {'str'}, {'', 'NoneType', 'dict', 'Element', 'list', 'tuple', 'set', 'frozenset'}, set()
    collect(progs, types, texts, names)
    texts |= types
    for _ in range(2):
        for t in list(types):
            for r in sc.values(t):
                texts.add(sc.print_scalar(t, sc.to_py(t, r)))
    tab = sc.tables(types, texts | names)
    more = {v for e in tab['E'].values() for v in e.values()} - texts - names
    if more:
        tab = sc.tables(types, texts | names | more)
    return judge_part(progs, work, (types, texts | names | more, tab), module, workers)


def judge_part(progs, work, tabs, module, workers=None):
    types, texts, tab = tabs
    table = os.path.join(work, 'table.ndjson')
    with open(table, 'w') as f:
        f.write(json.dumps(tab) + '\n')
    trace = os.path.join(work, 'trace.ndjson')
    with open(trace, 'w') as f:
        for p in progs:
            f.write(json.dumps({'id': p['id'], 'evs': [{k: v for k, v in ev.items() if k not in STRIP or (k == 'src' and ev['e'] == 'parse')}
                                                       for ev in p['evs']]}) + '\n')
    rc, out = tlc(module + '.tla', module + '.cfg', work, env={'TRACE_FILE': trace, 'TABLE_FILE': table}, workers=workers)
    bad = tla_lines(out, 'BAD ')
    if rc == 0 and 'Model checking completed' in out:
        gen, dist = stats(out)
        return bad, gen, dist, tla_lines(out, 'NOTE ')
    if rc == 75 and 'Error:' in out and 'OutOfMemory' not in out:
        if len(progs) > 1:
            # TLC stops at the first evaluation error: judge the other programs all the same
            h = max(1, len(progs) // 4)
            rs = [judge_part(progs[i:i + h], work, tabs, module, workers) for i in range(0, len(progs), h)]
            return [b for r in rs for b in r[0]], sum(r[1] for r in rs), sum(r[2] for r in rs), [n for r in rs for n in r[3]]
        i = out.find('Error:')
        miss = re.search(r"Attempted to access nonexistent field '([^'\n]*)' of record", out)
        if miss and miss.group(1) not in texts:     # a text the tables were not recorded for
            import scalars as sc
            texts = texts | {miss.group(1)}
            return judge_part(progs, work, (types, texts, sc.tables(types, texts)), module, workers)
        # what was observed is nothing the specification has a meaning for
        return bad or [{'id': progs[0]['id'], 'ev': len(progs[0]['evs']), 'what': ['unexplained'],
                        'exp': {'tlc': out[max(i, 0):][:1500]}}], *stats(out), []
    i = out.find('Error:')
    raise Machinery(f'TLC failed ({rc}) on {module} [{progs[0]["id"]}]:\n' + out[max(i, 0):][:1500] + out[-1000:])


def run(progs, keep=None):
    work = keep or scratch()
    try:
        t0 = time.time()
        res = execute(progs, work)
        t1 = time.time()
        merged = merge(res)
        bad, gen, dist, notes = judge(merged, work)
        t2 = time.time()
        return {'progs': merged, 'bad': bad, 'states': gen, 'distinct': dist, 'notes': notes, 't_exec': t1 - t0, 't_tlc': t2 - t1}
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    import sys
    progs = [json.loads(x) for x in open(sys.argv[1])]
    r = run(progs, keep=scratch())
    shown = set()
    byid = {p['id']: p for p in r['progs']}
    for b in r['bad']:
        ev = byid[b['id']]['evs'][b['ev'] - 1]
        print('BAD', b['id'], b['ev'], b['what'], ev['e'])
        if len(sys.argv) > 2:
            continue
        exp, obs = b['exp'], ev['obs']
        for k, o in obs.items():
            print('   ', k, json.dumps({x: o.get(x) for x in ('x', 'errs', 'text', 'title', 'val', 'tree') if x in o}, sort_keys=True))
        print('   exp', json.dumps({k: v for k, v in exp.items()}, sort_keys=True))
        print('   ev', json.dumps({k: v for k, v in ev.items() if k not in ('obs', 'd', 'doc', 'src')}))
        if 'd' in ev:
            print('   src', ev.get('src'))
        if b['id'] not in shown:
            shown.add(b['id'])
            for e in byid[b['id']]['evs']:
                if e['e'] == 'define':
                    print('     |', e.get('src', '').replace('\n', '\n     | '))
    print({k: r[k] for k in ('states', 'distinct', 't_exec', 't_tlc')})
