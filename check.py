#!/opt/venv/bin/python
"""Decides one property:  check.py C05 [--thorough] [--replay FILE]

1. laws of the property are checked on the specification itself, exhaustively on a small scope (spec/MC_*.tla); the cases
   enumerated there are carried out on the real code and judged by the specification;
2. programs drawn from the property's profiles are carried out on the real code with both XML backends, and the recorded
   behaviours are checked against the specification (spec/Trace.tla).
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself did not work."""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import random
import shutil
import sys
import tempfile
import threading
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
sys.dont_write_bytecode = True

import findings                                  # noqa: E402
import lexical                                   # noqa: E402
import mc                                        # noqa: E402
import profiles                                  # noqa: E402
import runner                                    # noqa: E402
import typed                                     # noqa: E402

UNIT = 150             # programs per execution unit
BATCH = 4              # units per run of TLC
QUICK = 2400           # programs of a quick check
THOROUGH_S = 720       # seconds of a thorough check


class Check:
    def __init__(self, prop, tier, seed, n=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.n = n
        self.t0 = time.time()
        self.bad = []
        self.states = self.transitions = self.traces = self.events = 0
        self.mcinfo = []
        self.samples = []
        self.kinds = {}
        self.work = runner.scratch()
        self.lock = threading.Lock()
        self.stop = threading.Event()

    # ---------------------------------------------------------------- units of work
    def jobs(self):
        parts = profiles.parts(self.prop)
        if not parts:
            return
        if self.tier == 'quick':
            total = self.n or profiles.QUICK.get(self.prop, QUICK)
            for i, (share, prof) in enumerate(parts):
                left, lo = max(1, round(total * share)), 0
                while left > 0:
                    n = min(UNIT, left)
                    yield {'job': {'seed': self.seed, 'prof': prof, 'tag': f'{self.prop}p{i}x', 'lo': lo, 'n': n}}
                    lo, left = lo + n, left - n
        else:
            lo = [0] * len(parts)
            done = 0
            while time.time() - self.t0 < THOROUGH_S and not (self.n and done >= self.n):
                # the part furthest behind its share
                i = max(range(len(parts)), key=lambda j: parts[j][0] * (sum(lo) + UNIT) - lo[j])
                yield {'job': {'seed': self.seed + 1000, 'prof': parts[i][1], 'tag': f'{self.prop}t{i}x', 'lo': lo[i], 'n': UNIT}}
                lo[i] += UNIT
                done += UNIT

    def execute(self, job, k):
        work = tempfile.mkdtemp(prefix='u', dir=self.work)
        try:
            return runner.merge(runner.execute([job] if 'job' in job else job['progs'], work, hashseed=k % 7))
        except runner.Crash as c:
            return self.crashed(job, work, c)
        finally:
            shutil.rmtree(work, ignore_errors=True)

    def crashed(self, job, work, c):
        import gen
        if 'job' in job:
            j = job['job']
            progs = gen.programs(j['seed'], j['n'], j['prof'], j['tag'], j['lo'])
        else:
            progs = job['progs']
        prog = progs[c.at] if c.at < len(progs) else None
        if prog is None:
            raise runner.Machinery(str(c))
        again = os.path.join(work, 'again')
        os.makedirs(again)
        try:
            runner.execute([prog], again, timeout=240)
        except runner.Crash as c2:
            if 'vp-harness-error' in c2.tail:
                raise runner.Machinery(str(c2))
            self.violation({'prog': prog, 'ev': len(prog['evs']), 'what': ['crash'], 'exp': {}, 'crash': str(c2)})
            return []
        return runner.merge(runner.execute(progs[:c.at] + progs[c.at + 1:], work))

    def judge(self, progs, k, workers=4):
        if not progs:
            return
        work = tempfile.mkdtemp(prefix='j', dir=self.work)
        try:
            bad, gen, dist, _ = runner.judge(progs, work, workers=workers)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        byid = {p['id']: p for p in progs}
        with self.lock:
            self.states += dist
            self.transitions += dist - len(progs)
            self.traces += 2 * len(progs)
            for p in progs:
                for e in p['evs']:
                    self.kinds[e['e']] = self.kinds.get(e['e'], 0) + 1
            if len(self.samples) < 2:
                p = progs[len(progs) // 2]
                self.samples.append({'program': p['id'], 'classes': [e.get('src', '') for e in p['evs'] if e['e'] == 'define'],
                                     'operations': [brief(e) for e in p['evs'] if e['e'] != 'define'][:8]})
        for b in bad:
            b = dict(b, prog=byid[b['id']])
            if self.unsure(b):
                continue
            self.violation(b)

    def unsure(self, b):
        """an outcome that may come from a busy machine has to come again"""
        obs = b['prog']['evs'][b['ev'] - 1].get('obs', {})
        if not any(o.get('x') in ('Hang', 'MemoryError') for o in obs.values() if isinstance(o, dict)):
            return False
        work = os.path.join(self.work, f"again-{b['id']}-{time.time()}")
        os.makedirs(work)
        try:
            r = runner.run([strip(b['prog'])], keep=work)
            return not r['bad']
        except runner.Crash:
            return False
        finally:
            shutil.rmtree(work, ignore_errors=True)

    def violation(self, b):
        with self.lock:
            self.bad.append(b)
        self.stop.set()

    # ---------------------------------------------------------------- the whole
    def run(self):
        try:
            with cf.ThreadPoolExecutor(1) as mcpool:
                laws = mcpool.submit(self.model)
                self.pipeline(self.jobs())
                laws.result()
            if not self.bad:
                self.known()
        finally:
            shutil.rmtree(self.work, ignore_errors=True)

    def model(self):
        for m in mc.MODELS.get(self.prop, []):
            if self.stop.is_set():
                return
            r = mc.run(m, self.tier, self.work, self.seed, workers=4 if profiles.parts(self.prop) else 8)
            with self.lock:
                self.states += r['distinct']
                self.transitions += r['generated']
                self.mcinfo.append({k: r[k] for k in ('name', 'distinct', 'generated', 'cases', 'law')})
            if m == 'MC_Typing':
                self.typing(r['raw'])
                continue
            if m == 'MC_Lexical':
                self.scalars(r['raw'], r['places'])
                continue
            progs = r['programs']
            for i in range(0, len(progs), 600):
                if self.stop.is_set():
                    return
                self.judge(self.execute({'progs': progs[i:i + 600]}, i // 600), 0)

    def typing(self, cases):
        """what mypy with the plugin and the library make of the classes and calls of MC_Typing"""
        cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
        random.Random(self.seed).shuffle(cases)
        chunks = [cases[i:i + 700] for i in range(0, len(cases), 700)]

        def one(i):
            if self.stop.is_set():
                return
            work = os.path.join(self.work, f'typing{i}')
            try:
                bad, n, _ = typed.bad(chunks[i], work)
            except typed.Plugin as e:
                return self.violation({'typing': chunks[i], 'what': ['plugin'], 'crash': str(e)})
            finally:
                shutil.rmtree(work, ignore_errors=True)
            with self.lock:
                self.traces += 3 * len(chunks[i])
                self.kinds['call or assignment'] = self.kinds.get('call or assignment', 0) + n
                if len(self.samples) < 2:
                    self.samples.append(chunks[i][0])
            for b in bad[:3]:
                self.violation({'typing': [b['case']], 'what': ['typing'], 'found': {k: v for k, v in b.items() if k != 'case'}})
        with cf.ThreadPoolExecutor(3) as ex:
            list(ex.map(one, range(len(chunks))))

    def scalars(self, cases, places):
        """what the library writes and reads for the values of MC_Lexical, at every place"""
        cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
        random.Random(self.seed).shuffle(cases)
        chunks = [cases[i:i + 1200] for i in range(0, len(cases), 1200)]

        def one(i):
            if self.stop.is_set():
                return
            work = os.path.join(self.work, f'scalars{i}')
            try:
                bad, n = lexical.bad(chunks[i], places, work)
            except lexical.Broken as e:
                return self.violation({'scalars': chunks[i], 'places': places, 'what': ['scalars'], 'crash': str(e)})
            finally:
                shutil.rmtree(work, ignore_errors=True)
            with self.lock:
                self.traces += n
                self.kinds['scalar written and read'] = self.kinds.get('scalar written and read', 0) + n
                if i == 0:
                    self.samples.append(chunks[i][0])
            for b in bad[:3]:
                self.violation({'scalars': [b['case']], 'places': places, 'what': ['scalars'], 'found': {k: v for k, v in b.items() if k != 'case'}})
        with cf.ThreadPoolExecutor(2) as ex:
            list(ex.map(one, range(len(chunks))))

    def pipeline(self, jobs):
        nexec, njudge = 4, 2
        with cf.ThreadPoolExecutor(nexec) as ex, cf.ThreadPoolExecutor(njudge) as ju:
            pend, ready, judging, k = set(), [], [], 0
            jobs = iter(jobs)
            more = True
            while True:
                while more and len(pend) < nexec + 1 and not self.stop.is_set():
                    j = next(jobs, None)
                    if j is None:
                        more = False
                        break
                    pend.add(ex.submit(self.execute, j, k))
                    k += 1
                if not pend:
                    break
                done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                for d in done:
                    ready.append(d.result())
                if self.stop.is_set():
                    more = False
                if ready and (len(ready) >= BATCH or (not pend and not more)):
                    batch, ready = [p for r in ready for p in r], []
                    judging.append(ju.submit(self.judge, batch, k))
                for f in [f for f in judging if f.done()]:
                    f.result()
                    judging.remove(f)
                # do not let the recordings pile up
                while len(judging) > 3:
                    cf.wait(judging, return_when=cf.FIRST_COMPLETED)
                    for f in [f for f in judging if f.done()]:
                        f.result()
                        judging.remove(f)
            if ready and not self.stop.is_set():
                judging.append(ju.submit(self.judge, [p for r in ready for p in r], k))
            for f in judging:
                f.result()

    def known(self):
        for f in findings.KNOWN:
            if f['property'] == self.prop and findings.fails(f):
                print(f"KNOWN-FINDING: property={self.prop} {f['what']}")

    # ---------------------------------------------------------------- reporting
    def report(self):
        seen = set()
        first = None
        for b in self.bad[:5]:
            path = self.save(b)
            if path in seen:
                continue
            seen.add(path)
            first = first or path
            show(b)
        if self.bad:
            print(f'VIOLATION property={self.prop} replay={first}')
        self.evidence()
        return 1 if self.bad else 0

    def save(self, b):
        d = os.path.join(ROOT, 'replays')
        os.makedirs(d, exist_ok=True)
        for kind in ('typing', 'scalars'):
            if kind in b:
                h = hashlib.sha1(json.dumps(b[kind], sort_keys=True).encode()).hexdigest()[:10]
                path = os.path.join(d, f'{self.prop}-{h}.json')
                with open(path, 'w') as f:
                    json.dump({'property': self.prop, 'what': b['what'], kind: b[kind], 'places': b.get('places')}, f, indent=1)
                return path
        prog = strip(b['prog'])
        h = hashlib.sha1(json.dumps(prog, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(d, f'{self.prop}-{h}.json')
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'what': b['what'], 'event': b['ev'], 'program': prog}, f, indent=1)
        return path

    def evidence(self):
        d = os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': {
                'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
                'samples': self.samples or [{'none': True}],
                'operations': self.kinds, 'models': self.mcinfo,
                'exhaustive': False,
            },
            'assumptions': ['what the validation library makes of a scalar text (and back) is taken from the library itself',
                            'a document is a tree of names, attributes, texts: character-level parsing is the backend\'s'],
            'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.bad),
        }
        with open(os.path.join(d, f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def brief(e):
    r = {k: e[k] for k in ('e', 'c', 'o', 'xml', 'fl', 'ctx', 'eas', 'src', 'kw') if k in e}
    o = next(iter(e.get('obs', {}).values()), {})
    if isinstance(o, dict):
        r['seen'] = o.get('x') or 'done'
    return json.loads(json.dumps(r)[:600]) if len(json.dumps(r)) <= 600 else {k: str(v)[:200] for k, v in r.items()}


def strip(prog):
    p = {'id': prog['id'], 'evs': []}
    for e in prog['evs']:
        e = {k: v for k, v in e.items() if k not in ('obs', 'val', 'odd', 'xml')}
        if e['e'] == 'define':
            e.pop('src', None)
        p['evs'].append(e)
    return p


def show(b):
    if 'typing' in b or 'scalars' in b:
        f = dict(b.get('found', {}))
        print('--- ' + ', '.join(b['what']))
        print(b.get('crash', '') or f.pop('source', ''))
        print('\n'.join(f'  {k}: {v}' for k, v in f.items()))
        return
    prog = b['prog']
    ev = prog['evs'][b['ev'] - 1]
    print(f"--- {prog['id']} event {b['ev']} ({ev['e']}): {', '.join(b['what'])}")
    if 'crash' in b:
        print(b['crash'][:1500])
        return
    for e in prog['evs']:
        if e['e'] == 'define':
            print('    ' + e.get('src', '').rstrip().replace('\n', '\n    '))
    print('  operation:', json.dumps({k: v for k, v in ev.items() if k not in ('obs', 'd', 'src', 'doc', 'val')})[:1500])
    if 'xml' in ev:
        print('  document: ', ev['xml'][:1500])
    print('  expected: ', json.dumps(b['exp'])[:1500])
    for k, o in ev.get('obs', {}).items():
        print(f'  {k:9s}:', json.dumps(o)[:1500])


def replay(path):
    r = json.load(open(path))
    if 'typing' in r or 'scalars' in r:
        work = runner.scratch()
        try:
            bad, n = typed.bad(r['typing'], work)[:2] if 'typing' in r else lexical.bad(r['scalars'], r['places'], work)
            bad = [{'typing': 1, 'what': r['what'], 'found': {k: v for k, v in b.items() if k != 'case'}} for b in bad]
        except (typed.Plugin, lexical.Broken) as e:
            bad = [{'typing': 1, 'what': r['what'], 'crash': str(e)}]
        finally:
            shutil.rmtree(work, ignore_errors=True)
        for b in bad[:5]:
            show(b)
        print(f"VIOLATION property={r['property']} replay={path}" if bad else f'no difference on these classes ({n} operations)')
        return 1 if bad else 0
    res = runner.run([r['program']])
    for b in res['bad']:
        show(dict(b, prog=res['progs'][0]))
    if res['bad']:
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    print('no difference between the specification and the code on this program')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--n', type=int)
    a = ap.parse_args()
    tier = 'thorough' if a.thorough else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if a.replay:
        return replay(a.replay)
    c = Check(a.prop, tier, seed, a.n)
    c.run()
    return c.report()


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
