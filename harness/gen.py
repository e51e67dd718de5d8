"""Random programs: classes, documents, instances and operations on them.  The generator only
has to be varied; what must happen is decided by the specification."""
import copy
import json
import random

import scalars as sc

XSINIL = '{http://www.w3.org/2001/XMLSchema-instance}nil'
URIS = {'p': 'urn:p', 'q': 'urn:q', 'r': 'urn:r', '': 'urn:d'}
NOENT = dict(path=[], ns=[], nsmap=[], nil=[], inner=[])

BASE = dict(
    classes=(1, 4), fields=(1, 5), docs=(2, 4), news=(1, 2),
    p_root=.12, p_inherit=.15, p_multi=.2, p_mixin=.08, p_tag=.4, p_ns=.25, p_entns=.15, p_nsmap=.35, p_entmap=.1, p_nsattrs=.3,
    p_skip=.08, p_mode=.5, p_forbid=.2, p_allow=.03, p_hide=.1, p_name=.4, p_alias=.12, p_excl=.06, p_noxml=.05,
    p_opt=.35, p_dflt=.3, p_nil=.12, p_comp=.12, p_vhook=.05, p_shook=.05, p_mv=.08, p_idv=.1, p_create=.15,
    p_generic=.06, p_lifebase=.5, p_fwd=.05, p_badtext=.06, p_missing=.1, p_mut=.5, p_noise=.15, p_eas=.15, p_ctx=.2, p_tree=.25,
    p_subinst=.12, p_ann=.12, p_idf=.08, p_param=.4, p_agen=.04, p_kw=.15, p_group=0., p_pre=.5, p_set=.15, p_poke=.1, p_rt=.5, p_bytes=.2, p_badroot=.03, p_samename=.06, p_wild=0., p_selfref=.05, p_life=0.,
    scalars=['str', 'str', 'int', 'int', 'float', 'bool', 'dec', 'date', 'color', 'lit', 'pos', 'short', 'ins', 'cx', 'up', 'uuid'],
    locs=dict(none=2, attr=3, element=6, wrapped=2),
    kinds=dict(prim=6, model=3, list=3, set=.5, frozenset=.3, vtuple=.7, tuple=1, nt=.6, dict=.8, td=.5, union=1, tagged=1, raw=.7),
    flags=dict(plain=3, se=2, en=1, eu=1, mix=1), modes=['strict', 'ordered', 'unordered'], maxdepth=3, classdepth=4,
)


class Cls:
    def __init__(self, d, flds, set_):
        self.d, self.flds, self.set = d, flds, set_
        self.name = d['name']
        self.comps = d['comps']
        self.hooked = {n for n, _ in d['vhooks']}
        self.shooked = {n for n, _ in d['shooks']}


class Gen:
    def __init__(self, seed, prof=None):
        self.r = random.Random(seed)
        self.p = dict(BASE)
        self.p.update(prof or {})
        self.cls = {}
        self.order = []
        self.mixins, self.nmix = [], 0
        self.evs = []
        self.nobj = 0
        self.nnt = 0
        self.objs = []          # (name, class, may hold)
        self.families = {}
        self.orders = {}

    # ------------------------------------------------------------ helpers
    def ch(self, key):
        return self.r.random() < self.p[key]

    def pick(self, weights, allowed=None):
        items = [(k, w) for k, w in weights.items() if w > 0 and (allowed is None or k in allowed)]
        t = self.r.random() * sum(w for _, w in items)
        for k, w in items:
            t -= w
            if t < 0:
                return k
        return items[-1][0]

    def scalar(self):
        return self.r.choice(self.p['scalars'])

    def prim(self, ty=None):
        ty = ty or self.scalar()
        if ty in sc.UNIONS:
            return {'k': 'union', 'ty': ty, 'of': [{'k': 'prim', 'ty': t} for t in sc.UNIONS[ty]]}
        return {'k': 'prim', 'ty': ty}

    def opt(self, t):
        return {'k': 'opt', 'of': t} if t['k'] != 'opt' and self.ch('p_opt') else t

    def models(self, kinds=('model', 'root')):
        return [n for n in self.order if self.cls[n].d['kind'] in kinds and not self.cls[n].d['params']]

    # ------------------------------------------------------------ types
    def typ(self, loc, depth=0, item=False, d=None):
        """a type that has a meaning at a location"""
        kinds = {
            'attr': {'prim'},
            'none': {'prim', 'model', 'dict', 'td', 'list', 'vtuple', 'tuple', 'union', 'tagged', 'raw'},
            'element': set(self.p['kinds']),
        }[loc]
        if item:
            kinds = kinds & {'prim', 'model', 'dict', 'td', 'union', 'tagged', 'raw'} | ({'tuple', 'nt'} if item == 'list' else set())
            if loc == 'none':
                kinds &= {'model', 'union', 'tagged', 'tuple'} if item == 'list' else {'model', 'union'}
        if not self.models():
            kinds = kinds - {'model', 'union', 'tagged'}
            if loc == 'none':
                kinds -= {'list', 'vtuple', 'tuple'}
        if len([m for m in self.models()]) < 2:
            kinds = kinds - {'union'}
        if not self.families:
            kinds = kinds - {'tagged'}
        if depth >= self.p['maxdepth']:
            kinds = kinds & {'prim', 'model'} or kinds
        if not kinds:
            return None
        w = {k: self.p['kinds'].get(k, 0) for k in sorted(kinds)}
        if not any(w.values()):
            return None
        k = self.pick(w)
        if k == 'prim':
            return self.opt(self.prim()) if not item or item == 'tuple' else self.prim()
        if k == 'model':
            t = {'k': 'model', 'c': self.r.choice(self.models())}
            return self.opt(t) if not item or item == 'tuple' else t
        if k in ('list', 'vtuple'):
            of = self.typ(loc, depth + 1, item='list')
            return of and self.opt({'k': k, 'of': of})
        if k in ('set', 'frozenset'):
            return self.opt({'k': k, 'of': self.prim()})
        if k == 'tuple':
            items = [self.typ(loc, depth + 1, item='tuple') for _ in range(self.r.randint(1, 3))]
            if None in items:
                return None
            items = [x if self.core(x)['k'] in ('prim', 'model') or (x['k'] == 'union' and x['ty']) else {'k': 'opt', 'of': x}
                     if x['k'] != 'opt' else x for x in items]
            t = {'k': 'tuple', 'of': items}
            return t if item else self.opt(t)
        if k == 'nt':
            self.nnt += 1
            items = [self.typ(loc, depth + 1, item='tuple') for _ in range(self.r.randint(1, 3))]
            if None in items:
                return None
            items = [x if self.core(x)['k'] in ('prim', 'model') or (x['k'] == 'union' and x['ty']) else {'k': 'opt', 'of': x}
                     if x['k'] != 'opt' else x for x in items]
            t = {'k': 'nt', 'n': f'NT{self.nnt}', 'of': [['abc'[i], x] for i, x in enumerate(items)]}
            return t if item else self.opt(t)
        if k == 'dict':
            t = {'k': 'dict', 'key': self.prim('str'), 'of': self.opt(self.prim())}
            return t if item else self.opt(t)
        if k == 'td':
            self.nnt += 1
            t = {'k': 'td', 'forbid': False, 'n': f'TD{self.nnt}',
                 'of': [[n, self.opt(self.prim()), self.r.random() < .6] for n in self.r.sample(['u', 'v', 'w'], self.r.randint(1, 3))]}
            return t if item else self.opt(t)
        if k == 'union':
            if self.r.random() < .2 and (loc != 'none' or not item):
                return self.prim(self.r.choice(list(sc.UNIONS)))
            ms = self.models()
            n = min(len(ms), self.r.randint(2, 3))
            t = {'k': 'union', 'ty': '', 'of': [{'k': 'model', 'c': c} for c in self.order_of(self.r.sample(ms, n))]}
            return t if item == 'list' else self.opt(t)
        if k == 'tagged':
            fam = self.r.choice(list(self.families.values()))
            n = min(len(fam), self.r.randint(2, 3))
            of = self.order_of(self.r.sample(fam, n))
            t = {'k': 'tagged', 'disc': 'kind', 'of': of, 'strtags': True}
            return t if item == 'list' else self.opt(t)
        if k == 'raw':
            return self.opt({'k': 'raw'}) if not item or item == 'tuple' else {'k': 'raw'}
        raise AssertionError(k)

    def order_of(self, xs):
        """one order per set of alternatives: the typing module takes Union[A, B] for the same object as Union[B, A]"""
        key = frozenset(json.dumps(x) for x in xs)
        return self.orders.setdefault(key, xs)

    @staticmethod
    def core(t):
        return t['of'] if t['k'] == 'opt' else t

    def wild_type(self, depth=0):
        """any type at all (declarations that may be refused)"""
        r = self.r
        k = r.choice(['prim', 'prim', 'model', 'list', 'set', 'vtuple', 'ptuple', 'tuple', 'nt', 'dict', 'td', 'union', 'mixed',
                      'tagged', 'badtag', 'raw', 'any', 'cplx', 'opt', 'punion'])
        if depth > 2:
            k = r.choice(['prim', 'raw', 'model'])
        ms = self.models()
        if k in ('model', 'union', 'mixed', 'badtag') and not ms or k == 'union' and len(ms) < 2 or k == 'tagged' and not self.families:
            k = 'prim'
        if k == 'prim':
            return {'k': 'prim', 'ty': r.choice(['str', 'int', 'float', 'color', 'date'])}
        if k == 'punion':
            return self.prim(r.choice(list(sc.UNIONS)))
        if k == 'model':
            return {'k': 'model', 'c': r.choice(ms)}
        if k == 'opt':
            t = self.wild_type(depth + 1)
            return t if t['k'] in ('opt', 'any') else {'k': 'opt', 'of': t}
        if k in ('list', 'vtuple'):
            return {'k': k, 'of': self.wild_type(depth + 1)}
        if k == 'set':
            return {'k': 'set', 'of': self.prim('int')}
        if k == 'ptuple':
            return {'k': 'ptuple', 'first': self.prim('int'), 'of': self.prim('str')}
        if k == 'tuple':
            return {'k': 'tuple', 'of': [self.wild_type(depth + 1) for _ in range(r.randint(1, 2))]}
        if k == 'nt':
            self.nnt += 1
            return {'k': 'nt', 'n': f'NT{self.nnt}', 'of': [['ab'[i], self.wild_type(depth + 1)] for i in range(r.randint(1, 2))]}
        if k == 'dict':
            return {'k': 'dict', 'key': self.prim('str'), 'of': self.wild_type(depth + 1)}
        if k == 'td':
            self.nnt += 1
            return {'k': 'td', 'forbid': False, 'n': f'TD{self.nnt}', 'of': [[n, self.wild_type(depth + 1), True] for n in ['u', 'v'][:r.randint(1, 2)]]}
        if k == 'union':
            return {'k': 'union', 'ty': '', 'of': [{'k': 'model', 'c': c} for c in self.order_of(r.sample(ms, 2))]}
        if k == 'mixed':
            xs = [{'k': 'model', 'c': r.choice(ms)}, r.choice([self.prim('int'), {'k': 'list', 'of': self.prim('int')},
                                                               {'k': 'dict', 'key': self.prim('str'), 'of': self.prim('int')}])]
            r.shuffle(xs)
            return {'k': 'union', 'ty': '', 'of': xs}
        if k == 'tagged':
            fam = r.choice(list(self.families.values()))
            return {'k': 'tagged', 'disc': 'kind', 'of': fam[:2], 'strtags': True}
        if k == 'badtag':
            fams = list(self.families.values())
            if not fams:
                return self.prim('int')
            mix = [f[i] for i, f in enumerate(fams[:2])] if len(fams) > 1 and len(fams[1]) > 1 else fams[0][:1]
            return {'k': 'tagged', 'disc': 'kind', 'of': mix, 'strtags': True} if len(mix) > 1 else self.prim('int')
        if k == 'raw':
            return {'k': 'raw'}
        return {'k': 'any', 'which': k}

    # ------------------------------------------------------------ classes
    def nsmap(self, keep=()):
        m = [[a, URIS[a]] for a in self.r.sample(['p', 'q', ''], self.r.randint(1, 3))]
        if self.r.random() < .2:
            m = [[a, 'urn:other' if a == 'p' else u] for a, u in m]
        return m

    def prefixes(self, *maps):
        return [a for m in maps for a, _ in m]

    def newd(self, name, kind):
        return dict(name=name, kind=kind, bases=[], args=[], params=[], tag=[], ns=[], nsmap=[], nsattrs=[], skip=[], mode=[],
                    extra=[], hide=[], raws=False, route='class', fwd=False, hn=name.translate(str.maketrans('[], ', '____')),
                    fields=[], comps=[], vhooks=[], shooks=[], mvs=[], idv=[], idf=[], uerr=[])

    def settings(self, d):
        if d['kind'] == 'mixin':
            return dict(ns=None, nsmap=[], mode='strict', tag=None, nsattrs=False)
        sets = [self.cls[b].set for b in d['bases'] if b in self.cls and b not in self.mixins]
        inh = dict(sets[0]) if sets else dict(ns=None, nsmap=[], mode='strict', tag=None, nsattrs=False)
        if self.ch('p_tag'):
            d['tag'] = [self.r.choice(['t1', 't2', 'item', d['name'].lower()])]
        if self.ch('p_nsmap'):
            d['nsmap'] = [self.nsmap()]
        have = {a for a, _ in (d['nsmap'][0] if d['nsmap'] else [])} | {a for a, _ in inh['nsmap']}
        if self.ch('p_ns'):
            cand = sorted(have) if have else []
            if not have and self.r.random() < .1:
                cand = ['zz']
            if cand:
                d['ns'] = [self.r.choice(cand)]
        if self.ch('p_nsattrs'):
            d['nsattrs'] = [self.r.random() < .8]
        if self.ch('p_skip'):
            d['skip'] = [self.r.random() < .7]
        if self.ch('p_mode'):
            d['mode'] = [self.r.choice(self.p['modes'])]
        if d['kind'] == 'root':
            pass
        elif self.ch('p_forbid'):
            d['extra'] = ['forbid']
        elif self.ch('p_allow'):
            d['extra'] = [self.r.choice(['allow', 'ignore'])]
        if self.ch('p_hide'):
            d['hide'] = [self.r.random() < .8]
        own = d['nsmap'][0] if d['nsmap'] else []
        names = {a for a, _ in own}
        return dict(ns=d['ns'][0] if d['ns'] else inh['ns'], nsmap=own + [e for e in inh['nsmap'] if e[0] not in names],
                    mode=d['mode'][0] if d['mode'] else inh['mode'], tag=d['tag'][0] if d['tag'] else inh['tag'],
                    nsattrs=d['nsattrs'][0] if d['nsattrs'] else inh['nsattrs'])

    def ent(self, loc, set_, name=None, depth=0, visible=()):
        e = dict(NOENT, loc=loc)
        vis = sorted(set(visible) | {a for a, _ in set_['nsmap']})
        if loc != 'wrapped' and (name or self.ch('p_name')):
            e['path'] = [name or self.r.choice(['x1', 'x2', 'x3', 'x4', 'el', 'at'])]
        if loc in ('element', 'wrapped') and self.ch('p_entmap'):
            e['nsmap'] = [self.nsmap()]
            vis = sorted(set(vis) | {a for a, _ in e['nsmap'][0]})
        if self.ch('p_entns') and vis:
            cand = [v for v in vis if v or loc != 'attr']
            if cand:
                e['ns'] = [self.r.choice(cand)]
        if loc == 'element' and self.ch('p_nil'):
            e['nil'] = [True]
        if loc == 'wrapped':
            e['path'] = [self.r.choice(['w1', 'w2', 'w1/v1', 'w1/v2', 'w2/v1', 'w1/v1/u1', 'w1/w1', 'w1/v1/w1', 'w1/v1/v1'])]
        return e, vis

    def field(self, d, set_, name):
        loc = self.pick(self.p['locs'])
        f = dict(name=name, ent=[], salias=[], valias=[], typ=None, dflt=[], excl=False, noxml=False, avh=[], ash=[])
        inner = loc
        if loc == 'wrapped':
            e, vis = self.ent('wrapped', set_)
            inner = self.pick({'none': 2, 'attr': 2, 'element': 3, 'wrapped': .5})
            cur, c = e, inner
            if inner == 'wrapped':
                e2, vis = self.ent('wrapped', set_, visible=vis)
                e2['path'] = [self.r.choice(['s1', 's1/s2', 's1/s1', 'w1', 'v1'])]
                e['inner'] = [e2]
                cur = e2
                inner = self.pick({'none': 1, 'attr': 1, 'element': 2})
            if inner != 'none':
                cur['inner'] = [self.ent(inner, set_, visible=vis)[0]]
            f['ent'] = [e]
        elif loc != 'none':
            f['ent'] = [self.ent(loc, set_)[0]]
        t = None
        for _ in range(5):
            t = self.wild_type() if self.ch('p_wild') else self.typ(inner)
            if t:
                break
        f['typ'] = t or self.prim()
        if self.p['p_wild']:
            d['raws'] = True
        if self.has(f['typ'], 'raw'):
            d['raws'] = True
            self.nnt += 1
            if inner == 'none' and self.core(f['typ'])['k'] == 'raw':
                pass
            elif inner == 'element':
                e = f['ent'][0]
                while e['inner']:
                    e = e['inner'][0]
                e['path'] = [f'raw{self.nnt}']
        if self.ch('p_alias') and d['kind'] != 'root':
            a = self.r.choice(['al1', 'al2', 'al3']) + ('' if not d['bases'] else d['name'].lower())
            w = self.r.choice(['both', 's', 'v'])
            used = {x['valias'][0] for x in d['fields'] if x['valias']}
            if a not in used:
                if w in ('both', 's'):
                    f['salias'] = [a]
                if w in ('both', 'v'):
                    f['valias'] = [a]
        if d['kind'] != 'root':
            if self.ch('p_excl'):
                f['excl'] = True
            elif self.ch('p_noxml'):
                f['noxml'] = True
        if f['ent'] and self.ch('p_ann'):
            f['ann'] = self.annotated(f['ent'][0])
        if f['typ']['k'] == 'opt' and self.r.random() < .7:
            f['dflt'] = [{'k': 'none'}]
        elif f['noxml'] or self.ch('p_dflt') or (f['excl'] and self.r.random() < .5):
            v = self.default(f['typ'])
            if v is not None:
                f['dflt'] = [v]
                f['fac'] = v['k'] in ('d', 'l') or self.r.random() < .3
            elif f['noxml']:
                f['noxml'] = False
        return f

    def annotated(self, e):
        """the entity given in the annotation, or partly there and partly as the default: what is given later counts"""
        if e['loc'] not in ('element', 'attr') or self.r.random() < .4:
            return [e]
        r = self.r
        both = r.random() < .5              # both in the annotation: what is given later counts
        first, last = dict(NOENT, loc=r.choice(['element', e['loc']]) if both else e['loc']), dict(e)

        def part(k, other):
            if e[k]:
                first[k] = [r.choice([other, e[k][0]]) if both else e[k][0]] if r.random() < .6 else []
                if first[k] == e[k]:
                    last[k] = []
        part('path', 'dec')
        part('ns', 'zz')
        if first['loc'] == 'element':
            part('nil', False)
            if e['nsmap'] and r.random() < .7:
                m = e['nsmap'][0]
                cut = r.randint(0, len(m))
                first['nsmap'] = [[[a, u if i >= cut else 'urn:other'] for i, (a, u) in enumerate(m) if i >= cut or both and r.random() < .5]]
                last['nsmap'] = [m[:cut]] if cut or r.random() < .5 else []
        return [first, last, both]

    def default(self, t):
        k = t['k']
        if k == 'opt':
            return {'k': 'none'}
        if k == 'prim' or (k == 'union' and t['ty']):
            return {'k': 'p', 'v': self.r.choice(sc.values(t['ty']))}
        if k in ('list', 'set', 'frozenset', 'vtuple'):
            return {'k': 'l', 't': 'tuple' if k == 'vtuple' else k, 'xs': []}
        if k == 'dict':
            return {'k': 'd', 'kv': []}
        return None

    def has(self, t, k):
        if t['k'] == k:
            return True
        if t['k'] in ('opt', 'list', 'set', 'frozenset', 'vtuple'):
            return self.has(t['of'], k)
        if t['k'] in ('tuple', 'union'):
            return any(self.has(x, k) for x in t['of'])
        if t['k'] in ('nt', 'td'):
            return any(self.has(x[1], k) for x in t['of'])
        return False

    def wild(self, t):
        return any(self.has(t, k) for k in ('any', 'ptuple', 'cplx', 'var', 'tagged', 'nt', 'td'))

    def step(self, depth=0):
        r = self.r
        ops = ['text', 'attr', 'get', 'pop', 'find', 'peek', 'path', 'unbound', 'empty', 'tag', 'attrs', 'raw', 'elems', 'tail', 'step', 'native']
        op = r.choice(ops[:10] if r.random() < .75 else ops)
        a = r.choice(['x1', 'x2', 'el', 'at', 'f1', 'f2', 'f3'])
        if op == 'path':
            a = r.choice(['w1', 'w1/v1', 'f1', 'x1', 'f1/x1', 'w1/x1'])
        s = {'op': op, 'a': a, 'mode': r.choice(self.p['modes'])}
        if depth < 2 and r.random() < (.25 if depth == 0 else .15):
            s['op'] = r.choice(['sub', 'snap', 'swap'])
            s['sub'] = [self.step(depth + 1) for _ in range(r.randint(1, 3))]
        return s

    def script(self):
        steps = [self.step() for _ in range(self.r.randint(1, 3))]
        if self.r.random() < .15:
            steps.append({'op': self.r.choice(['cls', 'name']), 'a': '', 'mode': 'strict'})
        return {'steps': steps, 'ret': self.r.choice(['', '', '', 'none', 'k'])}

    def wscript(self):
        steps = []
        for _ in range(self.r.randint(1, 2)):
            steps.append({'op': self.r.choice(['text', 'attr', 'elem', 'path', 'deep', 'text', 'attr', 'elem', 'path', 'attrs', 'empty', 'rm']),
                          'a': self.r.choice(['x1', 'hk', 'at', 'w1']), 'v': self.r.choice(['$', 'lit', '$', '#', '#', '%', '@'])})
        return {'steps': steps}

    def mkclass(self, name, kind='model', disc=None, base=None):
        d = self.newd(name, kind)
        r = self.r
        plain = [n for n in self.order if self.cls[n].d['kind'] == kind and not self.cls[n].d.get('agen')
                 and (not self.cls[n].d['args'] or self.r.random() < .3)
                 and not self.cls[n].d['params'] and n not in {x for f in self.families.values() for _, x in f}]
        if base:
            d['bases'] = [base]
        elif kind == 'model' and plain and not disc and self.ch('p_inherit'):
            d['bases'] = [r.choice(plain)]
            others = [n for n in plain if n not in d['bases'] and not self.cls[n].d['bases'] and not self.cls[d['bases'][0]].d['bases']]
            others = [n for n in others if not any(x['src'] for m in (n, d['bases'][0]) for x in self.cls[m].comps)]
            if others and self.ch('p_multi'):
                d['bases'].append(r.choice(others))
                keys = [k for b in d['bases'] for k in {f['valias'][0] if f['valias'] else f['name'] for f in self.cls[b].flds if f['valias']}]
                b1, b2 = (self.cls[b] for b in d['bases'])
                names = {f['name'] for f in b1.flds} & {f['name'] for f in b2.flds}
                if len(set(keys)) < len(keys) or names & (b1.hooked | b2.hooked | b1.shooked | b2.shooked):
                    d['bases'].pop()        # two fields filled by one argument
        if kind == 'model' and not d['bases'] and self.ch('p_mixin'):
            self.nmix += 1
            m, ms, inh = self.mkclass(f'P{self.nmix}', 'mixin')
            self.put(m, ms, inh)
            d['bases'] = [m['name']]
        elif kind == 'model' and not disc and len(d['bases']) == 1 and self.mixins and r.random() < .3:
            m = r.choice(self.mixins)
            b1, b2 = self.cls[m], self.cls[d['bases'][0]]
            keys = [f['valias'][0] for b in (b1, b2) for f in b.flds if f['valias']]
            names = {f['name'] for f in b1.flds} & {f['name'] for f in b2.flds}
            if not b2.d['bases'] and len(set(keys)) == len(keys) and not names & (b1.hooked | b2.hooked | b1.shooked | b2.shooked) \
                    and not any(x['src'] for b in (b1, b2) for x in b.comps):
                d['bases'].insert(r.choice([0, 1]), m)
        set_ = self.settings(d)
        if any(self.cls[b].d['raws'] for b in d['bases']):
            d['raws'] = True
        inherited = []
        for b in reversed(d['bases']):
            for f in self.cls[b].flds:
                inherited = [g for g in inherited if g['name'] != f['name']] + [f] if f['name'] not in [g['name'] for g in inherited] \
                    else [f if g['name'] == f['name'] else g for g in inherited]
        if kind == 'root':
            d['fields'] = [self.field(d, set_, 'root')]
            d['fields'][0]['salias'] = d['fields'][0]['valias'] = []
        else:
            if disc:
                e, _ = self.ent('attr', dict(set_, nsmap=[]), name=disc[1])
                e['ns'] = []
                d['fields'].append(dict(name='kind', ent=[e], salias=[], valias=[], typ=self.prim('l' + disc[0]), dflt=[], excl=False,
                                        noxml=False, avh=[], ash=[]))
            n = r.randint(*self.p['fields'])
            hooked = {x for b in d['bases'] for x in self.cls[b].hooked}
            shooked = {x for b in d['bases'] for x in self.cls[b].shooked}
            base_n = len(inherited)
            for i in range(n):
                fname = f'f{base_n + i + 1}'
                while fname in [f['name'] for f in inherited]:
                    fname += 'x'
                if inherited and r.random() < .15:
                    fname = r.choice(inherited)['name']
                    if fname == 'kind' or fname in [f['name'] for f in d['fields']] \
                            or any(fname in x['src'] for b in d['bases'] for x in self.cls[b].comps):
                        continue
                f = self.field(d, set_, fname)
                if fname in hooked and not (self.core(f['typ'])['k'] == 'prim' and self.core(f['typ'])['ty'] == 'str'):
                    continue        # the inherited hook makes texts
                if fname in shooked and self.core(f['typ'])['k'] != 'prim':
                    continue        # the inherited hook writes scalars
                d['fields'].append(f)
            if self.ch('p_samename') and len(d['fields']) > 1:
                a, b = r.sample(d['fields'], 2)
                for f in (a, b):
                    e = f['ent'] and f['ent'][0]
                    if e and e['loc'] in ('element', 'attr') and not self.has(f['typ'], 'raw'):
                        e['path'] = ['same']
                        f.pop('ann', None)
            allf = {f['name']: f for f in inherited}
            allf.update({f['name']: f for f in d['fields']})
            names = [f for f in d['fields'] if self.core(f['typ'])['k'] == 'prim' and self.core(f['typ'])['ty'] == 'str' and not f['noxml']
                     and f['name'] != 'kind']
            for f in names:
                if self.ch('p_vhook'):
                    if r.random() < .5:
                        f['avh'] = [self.script()]
                    else:
                        d['vhooks'].append([f['name'], self.script()])
            if d['vhooks'] and len(names) > 1 and r.random() < .4:
                f = r.choice(names)
                if not f['avh'] and f['name'] not in [x for x, _ in d['vhooks']]:
                    d['vhooks'].append([f['name'], d['vhooks'][0][1]])
            for f in allf.values():
                if not f['noxml'] and f['name'] != 'kind' and self.ch('p_shook') and not self.has(f['typ'], 'raw'):
                    s = self.wscript()
                    if self.core(f['typ'])['k'] != 'prim' or self.core(f['typ'])['ty'] in ('ang', 'bytes'):
                        for x in s['steps']:
                            x['v'] = 'lit' if x['v'] == '$' else x['v']
                    if f in d['fields'] and r.random() < .4:
                        f['ash'] = [s]
                    else:
                        d['shooks'].append([f['name'], s])
            if d['shooks'] and r.random() < .4:
                fs = [f for f in allf.values() if f['name'] not in [x for x, _ in d['shooks']] and not f['noxml'] and f['name'] != 'kind'
                      and not f['ash'] and not self.has(f['typ'], 'raw')]
                if fs and not any(x['v'] == '$' for x in d['shooks'][0][1]['steps']):
                    d['shooks'].append([r.choice(fs)['name'], d['shooks'][0][1]])
            while self.ch('p_comp') and len(d['comps']) < 3:
                loc = r.choice(['none', 'attr', 'element', 'element'])
                src = r.choice(list(allf.values())) if r.random() < .5 else None
                t = src['typ'] if src and (self.core(src['typ'])['k'] == 'prim') else None
                if t is None:
                    t = self.opt(self.prim(r.choice(['str', 'int', 'bool'])))
                    src = None
                c = dict(name=f'c{len(d["comps"]) + 1}{d["hn"].lower()}', ent=[], salias=[], typ=t, src=[src['name']] if src else [],
                         const=[] if src else [{'k': 'none'} if t['k'] == 'opt' and r.random() < .4 else self.value(self.core(t))])
                if loc != 'none':
                    e, _ = self.ent(loc, set_)
                    c['ent'] = [e]
                if r.random() < .2:
                    c['salias'] = [f'ca{len(d["comps"])}']
                d['comps'].append(c)
        fl = d['fields']
        if self.ch('p_mv') and fl:
            cand = [f for f in fl if f['typ']['k'] == 'prim']
            if cand:
                f = r.choice(cand)
                d['mvs'].append({'field': f['name'], 'v': {'k': 'p', 'v': r.choice(sc.values(f['typ']['ty']))}, 'msg': 'rule {x}'})
        if self.ch('p_idv') and kind == 'model':
            d['idv'] = [r.choice(['before', 'wrap', 'before'])]
        for f in fl:
            if self.ch('p_idf') and f['typ']['k'] != 'var':
                d['idf'].append([f['name'], 'after' if f['name'] == 'kind' else r.choice(['before', 'after', 'wrap'])])
        if kind == 'mixin':
            d['idv'], d['mvs'] = [], []
            return d, set_, inherited
        plainish = not (d['vhooks'] or d['shooks'] or d['comps'] or d['mvs'] or d['idv'] or d['idf'])
        if kind == 'root' and not d['fields'][0]['ent'] and not d['fields'][0]['dflt'] and not d['raws'] and not d['fields'][0]['noxml'] \
                and not self.wild(d['fields'][0]['typ']) and self.ch('p_param'):
            d['route'] = 'param'
            return d, set_, inherited
        if kind == 'model' and not d['bases'] and not disc and self.ch('p_agen') \
                and not any(self.has(f['typ'], 'td') for f in d['fields']) \
                and not any(f['salias'] or f.get('valias') for f in d['fields'] + d['comps']):
            d['agen'] = True
            for f in d['fields'] + d['comps']:
                if not f['salias'] and not f.get('valias'):
                    f['salias'] = [f['name'].upper()]
                    if 'valias' in f:
                        f['valias'] = [f['name'].upper()]
                    f['gen'] = True
        if plainish and self.ch('p_create') and not (d['bases'] and (d['extra'] or d['hide'] or d['raws'])):
            d['route'] = 'create'
        return d, set_, inherited

    def put(self, d, set_, inherited):
        flds = [next((g for g in d['fields'] if g['name'] == f['name']), f) for f in inherited]
        flds += [f for f in d['fields'] if f['name'] not in [g['name'] for g in inherited]]
        c = Cls(d, flds, set_)
        c.comps = [x for b in d['bases'] for x in self.cls[b].comps] + d['comps']
        c.hooked |= {x for b in d['bases'] for x in self.cls[b].hooked}
        c.shooked |= {x for b in d['bases'] for x in self.cls[b].shooked}
        self.cls[d['name']] = c
        (self.mixins if d['kind'] == 'mixin' else self.order).append(d['name'])
        self.evs.append({'e': 'define', 'd': d})

    def classes(self):
        n = self.r.randint(*self.p['classes'])
        if self.p['kinds'].get('tagged', 0) > 0 and self.r.random() < .35 + .1 * self.p['kinds']['tagged']:
            fam = []
            an = self.r.choice(['kind', 'ty'])
            vals = self.r.choice([['k1', 'k2', 'k3'], ['k1', 'k2', 'k3'], ['k1', 'k11', 'K1'], ['k11', 'k1', 'k']])
            for i in range(self.r.randint(2, 3)):
                nm = f'K{i + 1}'
                d, s, inh = self.mkclass(nm, disc=(vals[i], an))
                if self.r.random() < .5:
                    d['tag'] = ['kk']
                    s['tag'] = 'kk'
                self.put(d, s, inh)
                fam.append([vals[i], nm])
            self.families['kind'] = fam
        for i in range(n):
            nm = 'ABCDEFGH'[i]
            kind = 'root' if self.ch('p_root') else 'model'
            d, s, inh = self.mkclass(nm, kind)
            if kind == 'model' and not d.get('agen') and self.ch('p_selfref'):
                f = dict(name=f'me{nm.lower()}', ent=[], salias=[], valias=[],
                         typ=self.r.choice([{'k': 'opt', 'of': {'k': 'model', 'c': nm}}, {'k': 'list', 'of': {'k': 'model', 'c': nm}}]),
                         dflt=[{'k': 'none'}], excl=False, noxml=False, avh=[], ash=[])
                if f['typ']['k'] == 'list':
                    f['dflt'], f['fac'] = [{'k': 'l', 't': 'list', 'xs': []}], True
                f['ent'] = [self.ent('element', s, name='me')[0]]
                d['fields'].append(f)
                d['fwd'] = True
                if d['route'] == 'create':
                    d['route'] = 'class'
            self.put(d, s, inh)
            if kind == 'model' and self.ch('p_generic'):
                self.generic(f'G{i + 1}')

    def generic(self, nm):
        """a generic class, some of its parametrisations, partial ones, and what is derived from them"""
        r = self.r
        if r.random() < .15:
            return self.genericroot(nm)
        d, s, inh = self.mkclass(nm)
        d['bases'], inh = [], []
        d['shooks'] = [h for h in d['shooks'] if h[0] in [f['name'] for f in d['fields']]]
        d['comps'] = []
        d['mvs'] = []
        d['route'] = 'class'
        for f in d['fields']:
            if f.pop('gen', None):
                f['salias'], f['valias'] = [], []
        d.pop('agen', None)
        d['params'] = ['T', 'U'] if r.random() < .4 else ['T']
        if r.random() < .6:
            d['tag'] = ['gen']
            s['tag'] = 'gen'
        while len(d['fields']) < len(d['params']):
            d['fields'].append(self.field(d, s, f'g{len(d["fields"]) + 1}'))
        for f, v in zip(r.sample(d['fields'], len(d['params'])), d['params']):
            wrap = r.choice([lambda t: t, lambda t: {'k': 'list', 'of': t}, lambda t: {'k': 'opt', 'of': t}])
            f.update(typ=wrap({'k': 'var', 'n': v}), ent=[self.ent('element', s)[0]], dflt=[], avh=[], ash=[], noxml=False, excl=False)
            f.pop('ann', None)
            if f['typ']['k'] == 'opt':
                f['dflt'] = [{'k': 'none'}]
            d['vhooks'] = [h for h in d['vhooks'] if h[0] != f['name']]
            d['shooks'] = [h for h in d['shooks'] if h[0] != f['name']]
            d['idf'] = [h for h in d['idf'] if h[0] != f['name']]
        self.put(d, s, inh)
        self.parametrise(nm, d['params'])
        if r.random() < .3:
            k = self.newd(nm + 'k', 'model')        # derived from the generic class, generic itself
            k.update(bases=[nm], params=d['params'], raws=d['raws'])
            ks = self.settings(k)
            k['fields'] = [dict(self.field(k, ks, 'kf'), avh=[], ash=[])]
            self.put(k, ks, self.cls[nm].flds)
            self.parametrise(nm + 'k', d['params'])

    def genericroot(self, nm):
        d = self.newd(nm, 'root')
        s = self.settings(d)
        d['params'] = ['T']
        d['fields'] = [dict(name='root', ent=[self.ent('element', s)[0]] if self.r.random() < .5 else [], salias=[], valias=[],
                            typ={'k': 'var', 'n': 'T'}, dflt=[], excl=False, noxml=False, avh=[], ash=[])]
        if d['fields'][0]['ent']:
            d['fields'][0]['ent'][0]['path'] = ['it']
        self.put(d, s, [])
        self.parametrise(nm, ['T'])

    def parametrise(self, nm, params):
        r = self.r
        base = self.cls[nm]
        ms = self.models(('model',))
        for _ in range(r.randint(1, 2)):
            args = [{'k': 'model', 'c': r.choice(ms)} if ms and r.random() < .3 else {'k': 'prim', 'ty': r.choice(['int', 'str', 'bool'])}
                    for _ in params]
            text = [t['c'] if t['k'] == 'model' else t['ty'] for t in args]
            if len(params) == 2 and r.random() < .4:        # one parameter after the other
                part = f'{nm}[{text[0]}, U]'
                if part not in self.cls:
                    self.put(self.param(part, nm, [['T', args[0]]], ['U']), base.set, self.substf(base.flds, 'T', args[0]))
                self.order = [n for n in self.order if n != part]
                full = f'{nm}[{", ".join(text)}]'
                if full not in self.cls:
                    g = self.param(full, part, [['U', args[1]]], [])
                    g['via'] = f'{part}[{text[1]}]'
                    self.put(g, base.set, self.substf(self.cls[part].flds, 'U', args[1]))
                continue
            full = f'{nm}[{", ".join(text)}]'
            if full not in self.cls:
                flds = base.flds
                for v, t in zip(params, args):
                    flds = self.substf(flds, v, t)
                self.put(self.param(full, nm, [[v, t] for v, t in zip(params, args)], []), base.set, flds)

    def param(self, name, base, args, params):
        g = self.newd(name, self.cls[base].d['kind'])
        b = self.cls[base].d
        g.update(bases=[base], args=args, params=params, raws=b['raws'], hn=b['hn'])
        return g

    def substf(self, flds, v, t):
        flds = copy.deepcopy(flds)
        for x in flds:
            x['typ'] = self.subst(x['typ'], t, v)
        return flds

    def subst(self, t, a, v):
        if t['k'] == 'var':
            return a if t['n'] == v else t
        if t['k'] in ('opt', 'list', 'vtuple'):
            return dict(t, of=self.subst(t['of'], a, v))
        return t

    # ------------------------------------------------------------ values
    def value(self, t, depth=0):
        k = t['k']
        r = self.r
        if k == 'opt':
            return {'k': 'none'} if r.random() < .4 or depth > 6 else self.value(t['of'], depth)
        if k == 'prim' or (k == 'union' and t['ty']):
            return {'k': 'p', 'v': r.choice(sc.values(t['ty']))}
        if k == 'model':
            return self.instance(t['c'], depth + 1)
        if k in ('list', 'vtuple', 'set', 'frozenset'):
            xs = [self.value(t['of'], depth + 1) for _ in range(r.choice([0, 1, 2, 2, 3]) if depth < 4 else 0)]
            if None in xs:
                return None
            if k in ('set', 'frozenset'):
                seen, py = [], set()
                for x in xs:
                    v = sc.to_py(None, x['v'])
                    if v not in py:
                        py.add(v)
                        seen.append(x)
                xs = seen
            return {'k': 'l', 't': 'tuple' if k == 'vtuple' else k, 'xs': xs}
        if k == 'tuple':
            xs = [self.value(x, depth + 1) for x in t['of']]
            return None if None in xs else {'k': 'l', 't': 'tuple', 'xs': xs}
        if k == 'nt':
            xs = [self.value(x, depth + 1) for _, x in t['of']]
            return None if None in xs else {'k': 'l', 't': 'nt:' + t['n'], 'xs': xs}
        if k in ('dict', 'td'):
            kv = [[{'k': 'p', 'v': 'str:' + n}, self.value(t['of'], depth + 1)]
                  for n in r.sample(['m1', 'm2', 'm3', 'at'], r.choice([0, 1, 2]))] if k == 'dict' else \
                 [[{'k': 'p', 'v': 'str:' + n}, self.value(x, depth + 1)] for n, x, req in t['of'] if req or r.random() < .6]
            return None if any(v is None for _, v in kv) else {'k': 'd', 'kv': kv}
        if k == 'union':
            return self.value(r.choice(t['of']), depth)
        if k == 'tagged':
            return self.instance(r.choice(t['of'])[1], depth + 1)
        if k == 'raw':
            return {'k': 'raw', 't': self.rawtree(r.choice(['rawx', 'rawy']))}
        return None

    def rawtree(self, tag, depth=0):
        r = self.r
        return dict(tag=tag, text=r.choice(['', 'txt', ' t ']), tail='' if depth == 0 else r.choice(['', 'tl']),
                    attrs=[[a, r.choice(['1', 'v'])] for a in r.sample(['ra', '{urn:p}rb'], r.choice([0, 1, 2]))],
                    kids=[self.rawtree(r.choice(['rk', '{urn:q}rk']), depth + 1) for _ in range(r.choice([0, 1, 2]) if depth < 2 else 0)])

    def instance(self, c, depth=0):
        """an instance as a value (None if no finite one is found)"""
        if depth > 8:
            return None
        cls = self.cls[c]
        if cls.d['params']:
            return None
        if depth and self.ch('p_subinst'):
            subs = [n for n in sorted(self.cls) if self.plainsub(n, c)]
            if subs:
                c = self.r.choice(subs)
                cls = self.cls[c]
        f, s = [], []
        for fd in cls.flds:
            if fd['dflt'] and (self.r.random() < .4 or depth > 4):
                f.append([fd['name'], fd['dflt'][0]])
            else:
                if self.has(fd['typ'], 'raw') and self.core(fd['typ'])['k'] == 'raw':
                    v = {'k': 'raw', 't': self.rawtree(self.rawname(fd, cls))} if self.r.random() < .8 or fd['typ']['k'] != 'opt' else {'k': 'none'}
                else:
                    v = self.value(fd['typ'], depth)
                if v is None:
                    return None
                f.append([fd['name'], v])
                s.append(fd['name'])
        for m in self.rules(c):
            if [m['field'], m['v']] in f:
                return None
        return {'k': 'm', 'c': c, 'f': f, 's': s}

    def plainsub(self, n, c):
        """is n derived from c, adding fields only?"""
        d = self.cls[n].d
        if n == c or d['kind'] != 'model' or d['params'] or d['args'] or self.cls[c].d['kind'] != 'model':
            return False
        mine = {f['name']: f['typ'] for f in self.cls[c].flds}
        if not all(any(f['name'] == m and f['typ'] == t for f in self.cls[n].flds) for m, t in mine.items()):
            return False
        up = n
        while up != c:
            d = self.cls[up].d
            if len(d['bases']) != 1 or d['shooks'] or any(f['ash'] for f in d['fields']) or \
                    {x['name'] for x in d['comps']} & {x['name'] for x in self.cls[c].comps} or d['args']:
                return False
            up = d['bases'][0]
            if up not in self.cls:
                return False
        # further up too: it may be taken for an instance of any of them
        while self.cls[up].d['bases']:
            up = self.cls[up].d['bases'][0]
            if up not in self.cls or not all(any(f['name'] == g['name'] and f['typ'] == g['typ'] for f in self.cls[n].flds) for g in self.cls[up].flds):
                return False
        return True

    def rules(self, c):
        d = self.cls[c].d
        return [m for b in d['bases'] for m in self.rules(b)] + d['mvs']

    def rawname(self, fd, cls):
        e = fd['ent'][0] if fd['ent'] else None
        while e and e['inner']:
            e = e['inner'][0]
        return e['path'][0] if e and e['path'] and e['loc'] == 'element' else fd['name']

    # ------------------------------------------------------------ documents (guided by the declarations, not an oracle)
    def q(self, tag, ns, maps, attr=False):
        if attr and ns is None:
            return tag
        m = {}
        for x in reversed(maps):
            m.update(dict(map(tuple, x)))
        uri = m.get(ns or '', '') if ns is not None else m.get('', '')
        return '{%s}%s' % (uri, tag) if uri else tag

    def node(self, tag):
        return dict(tag=tag, text='', tail='', attrs=[], kids=[], line=0)

    def text_for(self, ty):
        if ty == 'str':
            return self.r.choice(['a', 'b', 'x y', 'true', '1', '', 'é☃', 'a<b&c'])
        good = [s for s in sc.texts(ty) if self.good(ty, s)]
        if self.ch('p_badtext') or not good:
            return self.r.choice(sc.texts(ty))
        return self.r.choice(good)

    _good = {}

    def good(self, ty, s):
        k = (ty, s)
        if k not in Gen._good:
            Gen._good[k] = sc.outcome(sc.ADAPT[ty], s)['ok']
        return Gen._good[k]

    def setattr(self, n, a, v):
        n['attrs'] = [x for x in n['attrs'] if x[0] != a] + [[a, v]]

    def docnode(self, c, tag=None, depth=0):
        cls = self.cls[c]
        s = cls.set
        n = self.node(tag or self.q(s['tag'] or c.split('[')[0], s['ns'], [s['nsmap']]))
        cx = dict(pns=s['ns'], pmaps=[s['nsmap']], nsattrs=s['nsattrs'], cls=cls)
        for f in cls.flds:
            if f['noxml'] and self.r.random() < .7:
                continue
            if self.ch('p_missing') or (f['dflt'] and self.r.random() < .25) or depth > 4 and f['dflt']:
                continue
            root = cls.d['kind'] == 'root'
            self.emit(n, f['typ'], dict(cx, name=None if root else (f['salias'][0] if f['salias'] else f['name']),
                                        ent=f['ent'][0] if f['ent'] else None, depth=depth))
        for x in cls.comps:
            if self.r.random() < .3:
                self.emit(n, x['typ'], dict(cx, name=x['salias'][0] if x['salias'] else x['name'],
                                            ent=x['ent'][0] if x['ent'] else None, depth=depth))
        return n

    def emit(self, n, t, cx):
        r = self.r
        e = cx['ent']
        t = self.core(t)
        k = t['k']
        loc = e['loc'] if e else 'none'
        ns = e['ns'][0] if e and e['ns'] else None
        maps = (e['nsmap'] if e else []) + cx['pmaps']
        if loc == 'wrapped':
            cur = n
            for part in e['path'][0].split('/'):
                tag = self.q(part, ns if ns is not None else cx['pns'], maps)
                if cur['kids'] and cur['kids'][-1]['tag'] == tag and r.random() < .9:
                    cur = cur['kids'][-1]
                else:
                    k2 = self.node(tag)
                    cur['kids'].append(k2)
                    cur = k2
            return self.emit(cur, t, dict(cx, ent=e['inner'][0] if e['inner'] else None,
                                          pns=ns if ns is not None else cx['pns'], pmaps=maps))
        name = (e['path'][0] if e and e['path'] else None) or cx['name'] or cx['cls'].name
        if k == 'prim' or (k == 'union' and t['ty']):
            txt = self.text_for(t['ty'])
            if loc == 'none':
                n['text'] = txt
            elif loc == 'attr':
                a = ns if ns is not None else (cx['pns'] if cx['nsattrs'] else None)
                self.setattr(n, self.q(name, a, maps, True), txt)
            else:
                x = self.node(self.q(name, ns if ns is not None else cx['pns'], maps))
                x['text'] = txt
                if e and e['nil'] and r.random() < .3:
                    self.setattr(x, XSINIL, r.choice(['true', '1', 'false', '0', ' true ']))
                n['kids'].append(x)
            return
        if k in ('list', 'vtuple', 'set', 'frozenset'):
            for _ in range(r.choice([0, 1, 1, 2, 3]) if cx['depth'] < 4 else 0):
                self.emit(n, t['of'], cx)
            return
        if k == 'tuple':
            for x in t['of']:
                self.emit(n, x, cx)
            return
        if k == 'nt':
            for _, x in t['of']:
                self.emit(n, x, cx)
            return
        if k in ('dict', 'td'):
            x = n
            if loc == 'element':
                x = self.node(self.q(name, ns if ns is not None else cx['pns'], maps))
                n['kids'].append(x)
            if k == 'dict':
                for a in r.sample(['m1', 'm2', 'm3', 'at'], r.choice([0, 1, 2])):
                    self.setattr(x, a if not cx['nsattrs'] or r.random() < .4 else self.q(a, ns if ns is not None else cx['pns'], maps, True),
                                 self.text_for(self.core(t['of']).get('ty') or 'str'))
            else:
                for a, ty, req in t['of']:
                    if r.random() < .85:
                        self.setattr(x, a if not cx['nsattrs'] or r.random() < .4 else self.q(a, ns if ns is not None else cx['pns'], maps, True),
                                     self.text_for(self.core(ty).get('ty') or 'str'))
            return
        if k == 'raw':
            x = self.rawtree(self.q(name, ns if ns is not None else cx['pns'], maps))
            self.lines(x)
            n['kids'].append(x)
            return
        if k == 'union':
            t = r.choice(t['of'])
            k = t['k']
        if k == 'tagged':
            t = {'k': 'model', 'c': r.choice(t['of'])[1]}
            k = 'model'
        if k == 'model':
            if cx['depth'] > 6:
                return
            c = self.cls.get(t['c'])
            if c is None:
                return
            s = c.set
            nm = (e['path'][0] if e and e['path'] else None) or s['tag'] or cx['name'] or c.name.split('[')[0]
            sns = ns if ns is not None else (s['ns'] if s['ns'] is not None else cx['pns'])
            x = self.docnode(t['c'], self.q(nm, sns, (e['nsmap'] if e else []) + [s['nsmap']] + cx['pmaps']), cx['depth'] + 1)
            if r.random() < .04:
                self.setattr(x, XSINIL, 'true')
            n['kids'].append(x)

    def lines(self, n):
        n.setdefault('line', 0)
        for k in n['kids']:
            self.lines(k)

    def nodes(self, n, out=None):
        out = [] if out is None else out
        out.append(n)
        for k in n['kids']:
            self.nodes(k, out)
        return out

    def mutate(self, doc):
        r = self.r
        for _ in range(r.choice([1, 1, 2, 3])):
            ns = [n for n in self.nodes(doc) if not n['tag'].startswith('#')]
            n = r.choice(ns)
            what = r.choice(['shuffle', 'drop', 'dup', 'extra', 'extraattr', 'text', 'rename', 'droptext', 'otherns', 'dropattr', 'nil',
                             'swap', 'move', 'tail', 'badtext'])
            kids = n['kids']
            if what == 'shuffle':
                r.shuffle(kids)
            elif what == 'drop' and kids:
                kids.pop(r.randrange(len(kids)))
            elif what == 'dup' and kids:
                k = copy.deepcopy(r.choice(kids))
                kids.insert(r.randint(0, len(kids)), k)
            elif what == 'extra':
                x = self.node(r.choice(['zz', 'x1', 'x2', 'f1', '{urn:p}x1', '{urn:zz}q']))
                x['text'] = r.choice(['', 'e', '7'])
                if r.random() < .3:
                    x['attrs'] = [['za', '1']]
                kids.insert(r.randint(0, len(kids)), x)
            elif what == 'extraattr':
                self.setattr(n, r.choice(['za', 'x1', '{urn:p}x1', '{urn:zz}za', 'f1']), r.choice(['1', 'v', '']))
            elif what == 'text':
                n['text'] = r.choice(['stray', ' ', '5', '\n'])
            elif what == 'rename' and n is not doc:
                n['tag'] = r.choice(['zz', 'x1', 'x2'] + [x['tag'] for x in ns[1:]])
            elif what == 'droptext':
                n['text'] = ''
            elif what == 'otherns' and n is not doc:
                t = n['tag'].split('}')[-1]
                n['tag'] = r.choice(['', '{urn:p}', '{urn:d}', '{urn:zz}']) + t
            elif what == 'dropattr' and n['attrs']:
                n['attrs'].pop(r.randrange(len(n['attrs'])))
            elif what == 'nil' and n is not doc:
                self.setattr(n, XSINIL, r.choice(['true', '1', 'false', 'TRUE']))
            elif what == 'swap' and len(kids) > 1:
                i, j = r.sample(range(len(kids)), 2)
                kids[i], kids[j] = kids[j], kids[i]
            elif what == 'move' and n is not doc:
                par = next(m for m in ns if any(k is n for k in m['kids']))
                par['kids'] = [k for k in par['kids'] if k is not n]
                tgt = r.choice([m for m in self.nodes(doc) if not m['tag'].startswith('#')])
                tgt['kids'].append(n)
            elif what == 'tail' and n is not doc:
                n['tail'] = r.choice(['tt', ' '])
            elif what == 'badtext':
                if n['attrs'] and r.random() < .5:
                    r.choice(n['attrs'])[1] = 'x'
                else:
                    n['text'] = 'x'

    def noise(self, doc):
        for n in self.nodes(doc):
            if n['tag'].startswith('#'):
                continue
            while self.r.random() < .3:
                c = self.node(self.r.choice(['#comment', '#pi']))
                c['tail'] = self.r.choice(['', '', 'more', ' '])
                n['kids'].insert(self.r.randint(0, len(n['kids'])), c)

    def breaks(self, doc):
        for n in self.nodes(doc):
            if n['kids'] and not n['text'] and self.r.random() < .6:
                n['text'] = '\n'
            if n is not doc and not n['tail'] and self.r.random() < .5:
                n['tail'] = self.r.choice(['\n', '\n  '])

    def document(self, c):
        doc = self.docnode(c)
        if self.ch('p_mut'):
            self.mutate(doc)
        if self.ch('p_noise'):
            self.noise(doc)
        if self.r.random() < .7:
            self.breaks(doc)
        if self.ch('p_badroot'):
            doc['tag'] = self.r.choice(['zz', '{urn:p}' + doc['tag'].split('}')[-1]])
        doc['tail'] = ''
        return doc

    # ------------------------------------------------------------ operations
    def oname(self, c):
        self.nobj += 1
        n = f'o{self.nobj}'
        self.objs.append((n, c))
        return n

    def flags(self):
        k = self.pick(self.p['flags'])
        if k == 'mix':
            return {x: self.r.random() < .5 for x in ('se', 'en', 'eu')}
        return {x: x == k for x in ('se', 'en', 'eu')}

    def parse(self, c, doc=None, src=None, ctx=None, eas=None):
        return {'e': 'parse', 'o': self.oname(c), 'c': c, 'doc': doc or self.document(c),
                'ctx': ctx if ctx is not None else ([self.r.choice(sc.CONTEXTS)] if self.ch('p_ctx') else []),
                'eas': self.ch('p_eas') if eas is None else eas, 'src': src or (f'tree{self.nobj}' if self.ch('p_tree') else 'str'),
                'bytes': self.ch('p_bytes')}

    def new(self, c):
        v = self.instance(c)
        if v is None:
            return None
        keys = {f['name']: (f['valias'][0] if f['valias'] else f['name']) for f in self.cls[c].flds}
        kw = [[keys[n], x] for n, x in v['f'] if n in v['s']]
        if self.r.random() < .05 and kw:
            kw.pop()
        return {'e': 'new', 'o': self.oname(c), 'c': c, 'kw': kw}

    def ser(self, o):
        e = {'e': 'ser', 'o': o, 'fl': self.flags(), 'tree': self.ch('p_tree')}
        if not e['tree'] and self.ch('p_kw'):
            e['kw'] = self.r.choice([{'encoding': 'unicode'}, {'encoding': 'utf-8'}, {'encoding': 'us-ascii'}, {'encoding': 'utf-16'},
                                     {'encoding': 'utf-8', 'xml_declaration': True}])
        return e

    def rt(self, o, c, fl=None, eas=None, ctx=None):
        e = {'e': 'rt', 'o': o, 'o2': self.oname(c), 'fl': fl or self.flags(), 'eas': self.ch('p_eas') if eas is None else eas,
             'ctx': ctx if ctx is not None else [], 'd_raw': self.cls[c].d['raws'] or any(x.d['raws'] for x in self.cls.values())}
        return e

    def targets(self):
        return [n for n in self.order if not self.cls[n].d['params']]

    def ops(self):
        out = []
        ts = self.targets()
        if not ts:
            return out
        for _ in range(self.r.randint(*self.p['news'])):
            c = self.r.choice(ts[-3:])
            e = self.new(c)
            if e:
                out.append(e)
                out.append(self.ser(e['o']))
                if self.ch('p_rt'):
                    out.append(self.rt(e['o'], c))
        for _ in range(self.r.randint(*self.p['docs'])):
            c = self.r.choice(ts[-3:])
            e = self.parse(c)
            out.append(e)
            if self.r.random() < .5:
                out.append(self.ser(e['o']))
            if e['src'] != 'str' and self.r.random() < .6:
                e2 = dict(self.parse(c, doc=e['doc'], src=e['src']), eas=e['eas'])
                if self.ch('p_poke'):
                    out.append({'e': 'poke', 'o': e['o']})
                out.append(e2)
                out.append({'e': 'look', 'o': e['o']})
        gs = [n for n in self.cls if self.cls[n].d['params']]
        if gs and self.r.random() < .3:         # not to be used before all its parameters are known
            out.append(self.parse(self.r.choice(gs), doc=self.node('gen')))
        if self.objs and self.ch('p_set'):
            o, c = self.r.choice(self.objs)
            fs = [f for f in self.cls[c].flds]
            f = self.r.choice(fs)
            v = self.value(f['typ'])
            if v is not None:
                out += [{'e': 'set', 'o': o, 'f': f['name'], 'v': v}, self.ser(o)]
        if self.objs and self.ch('p_poke'):
            o, c = self.r.choice(self.objs)
            out.append({'e': 'poke', 'o': o})
            for o2, _ in self.objs[:4]:
                if o2 != o:
                    out.append({'e': 'look', 'o': o2})
        for o, _ in self.objs[:3]:
            if self.r.random() < .4:
                out.append({'e': 'look', 'o': o})
        return out

    def group(self):
        """the same operations again, now several at the same time"""
        done = [e for e in self.done if e['e'] in ('parse', 'ser', 'rt')]
        out = []
        for g in range(self.r.randint(1, 2)):
            if not done:
                break
            pre = self.ch('p_pre')
            got = self.r.sample(done, min(len(done), self.r.randint(2, 4)))
            if pre:             # the first is stopped in the middle, the others run meanwhile
                same = [e for e in done if e is not got[0] and e.get('c', e.get('o')) == got[0].get('c', got[0].get('o'))]
                got = got[:1] + ([self.r.choice(same)] if same and self.r.random() < .7 else got[1:])
            for j, e in enumerate(got):
                e = copy.deepcopy(e)
                if pre and not j:
                    e['pre'] = [self.r.randrange(1000) for _ in range(6)]
                    e['same'] = self.r.random() < .3
                e['g'] = f'g{g}'
                if e['e'] == 'parse':
                    e['o'] = self.oname(e['c'])
                    if e['src'] != 'str' and self.r.random() < .5:
                        e['src'] = 'str'
                elif e['e'] == 'rt':
                    self.nobj += 1
                    e['o2'] = f'o{self.nobj}'
                out.append(e)
        return out

    def program(self, pid):
        if self.ch('p_life'):
            return {'id': pid, 'evs': self.life()}
        self.classes()
        self.done = self.ops()
        evs = self.evs + self.done
        if self.ch('p_group'):
            if self.r.random() < .3:        # the first thing that ever happens to the classes
                todo, self.done = self.done, [e for e in self.done if e['e'] == 'parse' and e['src'] == 'str']
                gs = self.group()
                for e in gs:
                    if 'pre' in e:
                        e['fresh'] = True
                        e['pre'][0] = self.r.choice([self.r.randrange(1, 30), self.r.randrange(1, 400)])
                evs = self.evs + gs + todo
            else:
                evs = evs + self.group()
        return {'id': pid, 'evs': evs}

    # ------------------------------------------------------------ classes that know each other only by name
    def life(self):
        r = self.r
        n = r.randint(2, 4)
        names = ['L1', 'L2', 'L3', 'L4'][:n]
        ds = []
        todo = list(names)
        r.shuffle(todo)
        for nm in todo:
            root = r.random() < .12
            d = self.newd(nm, 'root' if root else 'model')
            before = [n for n in todo[:todo.index(nm)] if names.index(n) > names.index(nm) and self.cls[n].d['kind'] == 'model']
            if not root and before and self.ch('p_lifebase'):
                d['bases'] = [r.choice(before)]
            s = self.settings(d)
            inh = [f for b in d['bases'] for f in self.cls[b].flds]
            pre = 'b' if inh else ''
            pre += 'b' if any(f['name'].startswith('b') for f in inh) else ''
            d['fwd'] = True
            if root:
                to = r.choice(names)
                d['fields'] = [dict(name='root', ent=[self.ent('element', s, name='it')[0]], salias=[], valias=[],
                                    typ={'k': 'list', 'of': {'k': 'model', 'c': to}}, dflt=[{'k': 'l', 't': 'list', 'xs': []}], fac=True,
                                    excl=False, noxml=False, avh=[], ash=[])]
            else:
                for i in range(r.randint(0 if inh else 1, 2)):
                    self.p = dict(self.p, kinds=dict(prim=1))
                    d['fields'].append(self.field(d, s, f'{pre}f{i + 1}'))
                for i in range(r.choice([0, 1, 1, 2])):
                    to = r.choice(names)
                    of = {'k': 'model', 'c': to}
                    k = r.choice(['opt', 'list', 'tuple', 'union', 'req'])
                    f = dict(name=f'{pre}r{i + 1}', ent=[], salias=[], valias=[], dflt=[{'k': 'none'}], excl=False, noxml=False, avh=[], ash=[])
                    if k == 'req' and names.index(to) > names.index(nm):
                        f.update(typ=of, dflt=[])
                    elif k == 'list':
                        f.update(typ={'k': 'list', 'of': of}, dflt=[{'k': 'l', 't': 'list', 'xs': []}], fac=True)
                    elif k == 'tuple':
                        f.update(typ={'k': 'opt', 'of': {'k': 'tuple', 'of': [{'k': 'opt', 'of': of}, {'k': 'opt', 'of': {'k': 'model', 'c': r.choice(names)}}]}})
                    elif k == 'union':
                        two = self.order_of(r.sample(names, 2))
                        f.update(typ={'k': 'opt', 'of': {'k': 'union', 'ty': '', 'of': [{'k': 'model', 'c': c} for c in two]}})
                    else:
                        f.update(typ={'k': 'opt', 'of': of})
                    if r.random() < .8:
                        f['ent'] = [self.ent('element', s, name=f'{pre}e{i + 1}')[0]]
                    elif r.random() < .5:
                        e, _ = self.ent('wrapped', s)
                        f['ent'] = [e]
                    d['fields'].append(f)
            ds.append((d, s))
            self.cls[nm] = Cls(d, inh + d['fields'], s)
            self.order.append(nm)
        evs, made = [], []
        todo = ds

        def attempt():
            c = r.choice(made)
            k = r.choice(['parse', 'parse', 'new', 'rebuild', 'ser', 'rebuild'])
            if k == 'parse':
                evs.append(self.parse(c))
            elif k == 'new':
                e = self.new(c)
                if e and all(x in made for x in self.used(e)):
                    evs.append(e)
            elif k == 'ser' and self.objs:
                evs.append(self.ser(r.choice(self.objs)[0]))
            elif k == 'rebuild':
                evs.append({'e': 'rebuild', 'c': c})
        for d, s in todo:
            evs.append({'e': 'define', 'd': d})
            made.append(d['name'])
            while r.random() < .5:
                attempt()
        rest = list(made)
        r.shuffle(rest)
        for c in rest:
            if r.random() < .8:
                evs.append({'e': 'rebuild', 'c': c})
            if r.random() < .3:
                attempt()
        for _ in range(r.randint(2, 5)):
            c = r.choice(made)
            evs.append(self.parse(c))
            if r.random() < .5:
                evs.append(self.ser(evs[-1]['o']))
            e = self.new(c) if r.random() < .4 else None
            if e:
                evs += [e, self.ser(e['o']), self.rt(e['o'], c)]
        return evs

    def used(self, v):
        if isinstance(v, dict):
            return ([v['c']] if 'c' in v else []) + [x for y in v.values() for x in self.used(y)]
        if isinstance(v, list):
            return [x for y in v for x in self.used(y)]
        return []


def programs(seed, n, prof=None, tag='r', lo=0):
    out = []
    for i in range(lo, lo + n):
        g = Gen(f'{seed}-{tag}-{i}', prof)
        out.append(g.program(f'{tag}{i}'))
    return out


if __name__ == '__main__':
    import sys
    for p in programs(int(sys.argv[1]), int(sys.argv[2])):
        print(json.dumps(p))
