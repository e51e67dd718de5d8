"""Binds spec/Lexical.tla: every value enumerated by the specification is written at every place a scalar may stand; the document
has to be the one the specification gives, and reading it (and the other forms of the value) has to give the value back."""
import json
import os
import subprocess
import sys

CHARS = {'lt': '<', 'gt': '>', 'amp': '&', 'quot': '"', 'apos': "'", 'sp': ' ', 'eacute': '\u00e9', 'snow': '\u2603', 'face': '\U0001F600', 'rsb': ']', 'slash': '/',
         'colon': ':', 'eq': '=', 'semi': ';', 'hash': '#', 'nbsp': '\u00a0', 'brace': '{', 'pct': '%', 'back': '\\', 'rbrace': '}', 'dash': '-', 'nl': '\n', 'tab': '\t'}
KINDS = {'bool': ['bool'], 'int': ['int', 'numenum'], 'dec': ['dec'], 'float': ['float'], 'date': ['date'], 'time': ['time'], 'dtm': ['dtm'], 'tdl': ['tdl'],
         'uuid': ['uuid'], 'ip': ['ip'], 'text': ['str', 'bytes', 'enum', 'lit']}
OWN = ('numenum', 'enum', 'lit')            # one type per value: only some of the values


def text_of(cs):
    return ''.join(CHARS.get(c, c) for c in cs)


def value(ty, kind, v, text):
    """the value, made from its structure without reading any text but numbers"""
    import datetime as dt
    import decimal
    import ipaddress
    import uuid
    if ty == 'bool':
        return v['b']
    if ty == 'int':
        n = int(''.join(map(str, v['ds'])))
        return -n if v['neg'] else n
    if ty == 'dec':
        return decimal.Decimal((int(v['neg']), tuple(v['ds']), v['exp']))
    if ty == 'float':
        return float(('-' if v['neg'] else '') + '.' + ''.join(map(str, v['ds'])) + 'e' + str(v['p']))
    tz = None
    if 'tz' in v and v['tz'] != 9999:
        tz = dt.timezone(dt.timedelta(minutes=v['tz']))
    if ty == 'date':
        return dt.date(v['y'], v['m'], v['d'])
    if ty == 'time':
        return dt.time(v['h'], v['mi'], v['s'], v['us'], tz)
    if ty == 'dtm':
        return dt.datetime(v['y'], v['m'], v['d'], v['h'], v['mi'], v['s'], v['us'], tz)
    if ty == 'tdl':
        d = dt.timedelta(v['days'], v['secs'], v['us'])
        return -d if v['neg'] else d
    if ty == 'uuid':
        return uuid.UUID(int=sum(h << 4 * (31 - i) for i, h in enumerate(v['hex'])))
    if ty == 'ip':
        return ipaddress.IPv4Address(sum(q << 8 * (3 - i) for i, q in enumerate(v['q'])))
    return text_of(v['cs']).encode() if kind == 'bytes' else text_of(v['cs'])


def types():
    import datetime as dt
    import decimal
    import ipaddress
    import uuid
    return {'bool': bool, 'int': int, 'dec': decimal.Decimal, 'float': float, 'date': dt.date, 'time': dt.time, 'dtm': dt.datetime, 'tdl': dt.timedelta,
            'uuid': uuid.UUID, 'ip': ipaddress.IPv4Address, 'str': str, 'bytes': bytes}


def holders(T):
    """place -> (class, value -> instance, instance -> values)"""
    import typing as t
    import pydantic as pd
    from pydantic_xml import BaseXmlModel, RootXmlModel, attr, computed_attr, computed_element, element, wrapped, xml_field_serializer  # noqa: F401
    H = {}

    def put(name, bases, f, make=None, get=None, typ=T, ent=None, **kw):
        ns = {'__annotations__': {f: typ}, '__module__': __name__}
        if ent is not None:
            ns[f] = ent
        cls = type(bases)('M_' + name, (bases,), ns, tag='m', **kw)
        H[name] = (cls, lambda x: cls(**{f: make(x) if make else x}), lambda m: get(getattr(m, f)) if get else [getattr(m, f)])
        return cls
    B = BaseXmlModel
    put('attr', B, 'a', ent=attr())
    put('elem', B, 'e', ent=element())
    put('text', B, 'v')
    put('opt', B, 'e', typ=t.Optional[T], ent=element(default=None))
    put('optattr', B, 'v', typ=t.Optional[T], ent=attr(name='a', default=None))
    put('list', B, 'v', typ=t.List[T], ent=element(tag='e'), make=lambda x: [x, x], get=list)
    put('tuple', B, 'v', typ=t.Tuple[T, T], ent=element(tag='e'), make=lambda x: (x, x), get=list)
    put('vartuple', B, 'v', typ=t.Tuple[T, ...], ent=element(tag='e'), make=lambda x: (x, x), get=list)
    NT = t.NamedTuple('NT', [('p', T), ('q', T)])
    put('named', B, 'v', typ=NT, ent=element(tag='e'), make=lambda x: NT(x, x), get=list)
    put('map', B, 'v', typ=t.Dict[str, T], make=lambda x: {'k': x, 'l': x}, get=lambda d: [d['k'], d['l']])
    put('mapel', B, 'e', typ=t.Dict[str, T], ent=element(), make=lambda x: {'k': x}, get=lambda d: [d['k']])
    put('maplist', B, 'e', typ=t.List[t.Dict[str, T]], ent=element(), make=lambda x: [{'k': x}, {'l': x}], get=lambda d: [d[0]['k'], d[1]['l']])
    import typing_extensions as te
    TD = te.TypedDict('TD', {'k': T})
    put('typed', B, 'e', typ=TD, ent=element(), make=lambda x: {'k': x}, get=lambda d: [d['k']])
    put('wrapattr', B, 'a', ent=wrapped('w', attr()))
    put('wraptext', B, 'v', ent=wrapped('w'))
    put('wrapel', B, 'e', ent=wrapped('w', element()))
    put('wraplist', B, 'v', typ=t.List[T], ent=wrapped('w', element(tag='e')), make=lambda x: [x, x], get=list)

    class Sub(BaseXmlModel, tag='s'):
        t_: T
        a: T = attr()
        e: T = element()
    put('sub', B, 'v', typ=Sub, make=lambda x: Sub(t_=x, a=x, e=x), get=lambda s: [s.t_, s.a, s.e])

    class Sa(BaseXmlModel, tag='s'):
        a: T = attr()
    put('subs', B, 'v', typ=t.List[Sa], make=lambda x: [Sa(a=x), Sa(a=x)], get=lambda ss: [s.a for s in ss])
    put('model', B, 'v', typ=t.Optional[Sa], ent=element(default=None), make=lambda x: Sa(a=x), get=lambda s: [s.a])

    class Ro(RootXmlModel[T], tag='m'):
        pass
    H['root'] = (Ro, Ro, lambda m: [m.root])

    class Rl(RootXmlModel, tag='m'):
        root: t.List[T] = element(tag='e')
    H['rootlist'] = (Rl, lambda x: Rl([x, x]), lambda m: m.root)

    class Rs(RootXmlModel[T], tag='s'):
        pass
    put('nested', B, 'v', typ=Rs, make=Rs, get=lambda s: [s.root])
    put('nillable', B, 'e', typ=t.Optional[T], ent=element(default=None, nillable=True))
    put('dflt', B, 'a', typ=t.Optional[T], ent=attr(default=None))

    class Ns(BaseXmlModel, tag='m', ns='p', nsmap={'p': 'u'}):
        a: T = attr(ns='p')
        e: T = element(ns='p')
    H['ns'] = (Ns, lambda x: Ns(a=x, e=x), lambda m: [m.a, m.e])

    class In(H['attr'][0], tag='m'):
        pass
    H['inherited'] = (In, lambda x: In(a=x), lambda m: [m.a])

    put('union', B, 'e', typ=t.Union[T, None], ent=element())
    return H


def computed(T):
    import typing as t
    from pydantic_xml import BaseXmlModel, computed_attr, computed_element
    import pydantic as pd
    import inspect

    def make(name, deco, value_type, f=lambda x: x):
        def a(self) -> t.Any:
            return f(self._v)
        a.__annotations__['return'] = value_type
        cls = type(BaseXmlModel)('C_' + name, (BaseXmlModel,), {'__module__': __name__, '__annotations__': {'_v': t.Any}, '_v': pd.PrivateAttr(None), 'a': deco(a)}, tag='m')

        def inst(x):
            m = cls()
            m._v = x
            return m
        return inst
    return {'cattr': make('cattr', lambda g: computed_attr(name='a')(g), T), 'celem': make('celem', lambda g: computed_element(tag='e')(g), T),
            'ctext': make('ctext', lambda g: pd.computed_field(g), T), 'clist': make('clist', lambda g: computed_element(tag='e')(g), t.List[T], lambda x: [x, x])}


def tree(e):
    return {'tag': e.tag, 'attrs': sorted([k, v] for k, v in e.attrib.items()), 'text': e.text or '', 'kids': [tree(k) for k in e]}


def filled(doc, text):
    return {'tag': doc['tag'], 'attrs': sorted([k, v.replace('$', text)] for k, v in doc['attrs']), 'text': doc['text'].replace('$', text),
            'kids': [filled(k, text) for k in doc['kids']]}


def esc(s, quote):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    return s.replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;') if quote else s


def render(d):
    """a document without the library"""
    def name(n):
        return 'p:' + n[3:] if n.startswith('{u}') else n
    at = ''.join(f' {name(k)}="{esc(v, True)}"' for k, v in d['attrs'])
    decl = ' xmlns:p="u"' if d['tag'].startswith('{u}m') else ''
    return f"<{name(d['tag'])}{decl}{at}>{esc(d['text'], False)}{''.join(render(k) for k in d['kids'])}</{name(d['tag'])}>"


def same(a, b):
    return type(a) is type(b) and a == b and str(a) == str(b)


def main(src, out):
    import enum
    import typing as t
    import xml.etree.ElementTree as ET
    import zlib
    job = json.load(open(src))
    both, written = job['places']['both'], job['places']['written']
    T = types()
    known = {}
    bad, n = [], 0

    def fail(c, kind, place, what, **kw):
        if len(bad) < 20:
            bad.append({'case': c, 'kind': kind, 'place': place, 'what': what, **{k: str(v)[:400] for k, v in kw.items()}})

    for c in job['cases']:
        h = zlib.crc32(json.dumps(c, sort_keys=True).encode())
        text = text_of(c['text'])
        for kind in KINDS[c['ty']]:
            v = value(c['ty'], kind, c['v'], text)
            if kind in OWN:
                if h % 8:
                    continue
                if kind == 'lit':
                    hs = holders(t.Literal[v])
                    cs = computed(t.Literal[v])
                else:
                    E = enum.IntEnum('E', {'x': v}) if kind == 'numenum' else (enum.Enum('E', {'x': v}, type=str) if h & 8 else enum.Enum('E', {'x': v}))
                    v = E.x
                    hs, cs = holders(E), computed(E)
            else:
                if kind not in known:
                    known[kind] = (holders(T[kind]), computed(T[kind]))
                hs, cs = known[kind]
            for place, doc in both.items():
                cls, make, get = hs[place]
                want = filled(doc, text)
                n += 1
                try:
                    m = make(v)
                    raw = m.to_xml()
                    got = tree(ET.fromstring(raw))
                    if got != want:
                        fail(c, kind, place, 'written', value=repr(v), expected=want, got=got)
                        continue
                    back = cls.from_xml(raw)
                    if not all(same(x, v) for x in get(back)) or back != m:
                        fail(c, kind, place, 'read back', value=repr(v), expected=repr(m), got=repr(back), document=raw)
                except Exception as e:
                    fail(c, kind, place, 'fails', value=repr(v), error=f'{type(e).__name__}: {e}')
                    continue
                for f in c['forms'] if kind not in OWN else []:
                    ft = text_of(f)
                    n += 1
                    raw = render(filled(doc, ft))
                    try:
                        back = cls.from_xml(raw)
                        if not all(type(x) is type(v) and x == v for x in get(back)):
                            fail(c, kind, place, 'another form read', value=repr(v), got=repr(back), document=raw)
                    except Exception as e:
                        fail(c, kind, place, 'another form fails', value=repr(v), document=raw, error=f'{type(e).__name__}: {e}')
            for place, doc in written.items():
                n += 1
                want = filled(doc, text)
                try:
                    got = tree(ET.fromstring(cs[place](v).to_xml()))
                    if got != want:
                        fail(c, kind, place, 'written', value=repr(v), expected=want, got=got)
                except Exception as e:
                    fail(c, kind, place, 'fails', value=repr(v), error=f'{type(e).__name__}: {e}')
    json.dump({'bad': bad, 'n': n}, open(out, 'w'))


def bad(cases, places, work):
    """-> (differences, number of writings and readings)"""
    import runner
    os.makedirs(work, exist_ok=True)
    src = os.path.join(work, 'lex.json')
    with open(src, 'w') as f:
        json.dump({'cases': cases, 'places': places}, f)
    procs = {}
    for b in ('lxml', 'std'):
        procs[b] = subprocess.Popen([runner.PY, os.path.abspath(__file__), src, src + b], cwd=work, env=runner.env_for(b), stdout=subprocess.PIPE,
                                    stderr=subprocess.STDOUT, text=True)
    out, n = [], 0
    for b, p in procs.items():
        text = p.communicate(timeout=800)[0]
        if p.returncode != 0:
            raise Broken(f'{b}: {text[-1500:]}')
        r = json.load(open(src + b))
        out += [dict(x, backend=b) for x in r['bad']]
        n += r['n']
    return out, n


class Broken(Exception):
    """the classes holding the values cannot be defined, or the library ends the process"""


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
